"""Comparisons shared by the checks."""
import numpy as np
from . import impl, ref

FORCES = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ')
MOMENTS = ('MX', 'MY', 'MZ')


def ll_model(plane, cosine=True):
    with impl.quiet():
        return impl.machup.LLModel(plane, cosine)


def compare_part(ctx, what, got, want, fs, ms, tol):
    """Forces and moments against their own scales."""
    ok = True
    for k in want:
        if k not in got:
            ctx.fail('%s has no %s' % (what, k))
            ok = False
            continue
        if k in FORCES or k == 'Thrust':
            ok &= ctx.close('%s %s' % (what, k), got[k], want[k], fs, tol)
        elif k in MOMENTS or k == 'Torque':
            ok &= ctx.close('%s %s' % (what, k), got[k], want[k], ms, tol)
        elif k == 'L/D':
            s = max(abs(want[k]), fs / max(abs(want['FD']), 1e-300) * (1. + abs(want[k])))
            ok &= ctx.close('%s %s' % (what, k), got[k], want[k], s, tol)
    return ok


WING_DIST = dict(control_points='len', chord='len', twist='deg', dihedral='deg', sweep='deg', area='len', alpha='coef',
                 forces_xyz='force', section_CL='coef', section_Cm='coef', section_CD_parasitic='coef',
                 section_alpha_L0='coef', section_CL_ref='coef')


def compare_wing_dist(ctx, got, want, tol, keys=None, skip=None):
    d = want['dist']
    ok = ctx.equal('section names', [str(x) for x in got['name']], list(d['name']))
    if not ok:
        return False
    for k in keys or WING_DIST:
        if k not in d:
            continue
        if k not in got:
            ctx.fail('distributions have no %s' % k)
            continue
        kind = WING_DIST[k]
        scale = {'len': 1., 'deg': 10., 'coef': 1., 'force': want['force_scale']}[kind]
        g, w = got[k], d[k]
        if skip is not None and np.any(skip):
            g, w = np.asarray(g)[~skip], np.asarray(w)[~skip]
        ok &= ctx.close('section %s' % k, g, w, scale, tol)
    return ok


def rel(plane_dist):
    return [str(x) for x in plane_dist['name']]


def load_json(path):
    import json
    with open(path) as f:
        return json.load(f)


def solve_parts(m, aero, ctrl, prop):
    """The totals and the three accounts written to the output file."""
    import os
    from . import spec as S
    path = S.scratch_file('.json')
    try:
        tot = impl.call(m, 'solve', aero, ctrl, prop, path)
        return tot, load_json(path)
    finally:
        if os.path.exists(path):
            os.remove(path)


def scales(*parts):
    """Force and moment magnitudes of some result parts."""
    fs = sum(float(np.linalg.norm([p.get(k, 0.) for k in ('FX', 'FY', 'FZ')])) for p in parts)
    ms = sum(float(np.linalg.norm([p.get(k, 0.) for k in MOMENTS])) for p in parts)
    return fs, ms


def ei_from(pd, names):
    """Induced angles (radians) by propeller from the blade distributions."""
    nm = [str(x) for x in pd['name']]
    out = {}
    for n in names:
        i = [j for j, x in enumerate(nm) if x == n]
        out[n] = np.radians(np.asarray(pd['induced_angle'], float)[i])
    return out


def rows(pd, name):
    nm = [str(x) for x in pd['name']]
    return [j for j, x in enumerate(nm) if x == name]
