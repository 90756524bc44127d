"""C15: derivatives are the central differences of the forces at the given state."""
import copy
import math
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import load_json, scales

ASSUMPTIONS = ['the forces at the neighbouring states are those solve returns on a model of its own; C05 to C14 decide whether '
               'they are right', 'steps of half a degree, .005 in nondimensional rate and a quarter of a degree of deflection']
COEF = (('CL', 'FL'), ('CD', 'FD'), ('CS', 'FS'), ('CX', 'FX'), ('CY', 'FY'), ('CZ', 'FZ'), ('Cl', 'MX'), ('Cm', 'MY'), ('Cn', 'MZ'))


def spaces(tier):
    q = tier == 'quick'
    m = menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu() + menu.prop_menu()
    bases = [('rich', menu.rich), ('propped', menu.propped), ('plain', menu.plain), ('half', menu.half)]
    if q:
        keep = ('side', 'dih', 'grid', 'main', 'w1', 'w3', 'cg', 'ref', 'alpha', 'beta', 'V', 'rho', 'p', 'q', 'rr', 'cs', 'ctrl',
                'da', 'de', 'dr', 'df', 'ps', 'por')
        few = [t for t in m if t[0] in keep and t[1] not in ('grid 40', 'dihedral -25', 'cg int', 'aileron -15', 'elevator 5', 'rudder 8',
                                                            'flap 10', 'prop tilted', 'prop yawed', 'wing moved')]
        return [engine.Deviations('derivatives', bases[:2], few, 2), engine.Deviations('all', bases[2:], m, 1),
                engine.Deviations('extremes', bases, menu.extreme_menu(), 1), engine.Deviations('ladders', bases, menu.ladder_menu(every=3), 1)]
    return [engine.Deviations('derivatives', bases, m, 2), engine.Deviations('extremes', bases, menu.extreme_menu(), 2), engine.Deviations('ladders', bases, menu.ladder_menu(), 1)]


def steps(aero, ctrl, g):
    V = aero['V_mag']
    out = []
    for key, suffix, d in (('alpha', 'a', .5), ('beta', 'b', .5)):
        out.append(('stability_derivatives', 'aero', key, suffix, d, math.radians(d)))
    for key, suffix, l in (('roll_rate', 'pbar', g.lat), ('pitch_rate', 'qbar', g.lon), ('yaw_rate', 'rbar', g.lat)):
        out.append(('damping_derivatives', 'aero', key, suffix, .005 * 2. * V / l, .005))
    for key, suffix in (('aileron', 'da'), ('elevator', 'de'), ('rudder', 'dr'), ('flap', 'df')):
        out.append(('control_derivatives', 'ctrl', key, suffix, .25, math.radians(.25)))
    return out


def check(c, ctx):
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'], c['prop']
    g = ref.grid(sp)
    if not g.n or not g.sref or not g.lon:
        raise engine.Degenerate('no main wing')
    for p in ref.props(sp):
        n, J = p.rotation(aero, ref.prop_entry(prop, p.name))
    u, v, rho = ref.wing_state(g, aero)
    ref.lifting_line(g, u, v, rho, ctrl)
    if abs(aero.get('alpha', 0.)) > 45. or abs(aero.get('beta', 0.)) > 45.:
        raise engine.Degenerate('angles')
    m = impl.model(sp)
    path = S.scratch_file('.json')
    got = impl.call(m, 'derivatives', aero, ctrl, prop, path)
    ctx.equal('file', load_json(path), engine.jsonable(got))
    other = impl.model(sp)
    dp = .5 * aero['rho'] * aero['V_mag'] ** 2 * g.sref
    want = {}
    for group, which, key, suffix, d, dd in steps(aero, ctrl, g):
        both = []
        for s in (-d, d):
            a, k = dict(aero), dict(ctrl or {})
            t = a if which == 'aero' else k
            t[key] = t.get(key, 0.) + s
            both.append(impl.call(other, 'solve', a, k, prop))
        fs, ms = scales(both[0], both[1])
        for co, f in COEF:
            l = 1. if f[0] == 'F' else g.lon if f == 'MY' else g.lat
            name = '%s_%s' % (co, suffix)
            if name not in got.get(group, {}):
                ctx.fail('no %s' % name)
                continue
            w = (both[1][f] - both[0][f]) / (2. * dd) / dp / l
            want[name] = w
            sc = (fs if f[0] == 'F' else ms) / (2. * dd) / dp / l
            ctx.close(name, got[group][name], w, sc + abs(w), 1e-8)
    if abs(want['CL_a']) > 1e-6:
        sm = -want['Cm_a'] / want['CL_a']
        ctx.close('static margin', got['stability_derivatives']['static_margin'], sm, abs(sm) + (1. + abs(want['Cm_a'])) / abs(want['CL_a']), 1e-7)
    for group in ('stability', 'damping', 'control'):
        alone = impl.call(m, group + '_derivatives', aero, ctrl, prop)
        ref_ = {k: x for k, x in got[group + '_derivatives'].items() if k != 'static_margin'}
        if ctx.equal('%s derivatives alone' % group, sorted(k for k in alone if k != 'static_margin'), sorted(ref_)):
            for k in ref_:
                ctx.close('%s alone' % k, alone[k], ref_[k], abs(ref_[k]) + 1e-6, 1e-6)
    ctx.traces += 22
    ctx.saw([round(float(x), 6) for x in want.values()])
