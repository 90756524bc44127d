"""C18: the aerodynamic centre is the documented fit of the force sweep."""
import copy
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import load_json

ASSUMPTIONS = ['the forces of the sweep are those solve returns on a model of its own; C05 to C14 decide whether they are right',
               'situations whose fit is ill-conditioned (condition number above 1e9) are left out']
CASE_LIMIT = 240
NOMOM = dict(S.AF_ZERO, name='NACA0012')
NOMOM_CAMBER = dict(S.AF_A, Cm_L0=0., Cm_alpha=0.)


def flat(n, chord, x, af, span, main):
    w = S.wing('main', grid=n, root_chord=chord, tip_chord=chord, pos=[x, 0., 0.], af=[af], semispan=span)
    return menu.situation(S.plane(wings=[w], cg=(x - .37, 0., .2)), dict(V_mag=20., rho=.002, alpha=main), None, flat=x)


def spaces(tier):
    q = tier == 'quick'
    m = menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu() + menu.prop_menu()
    if q:
        drop = ('grid 40', 'cg int', 'ref both', 'span 9 (int)', 'wing moved (int)', 'V 8 (int)', 'rudder 8', 'elevator 5', 'flap 10',
                'aileron 6', 'washout -2', 'mount -3', 'sweep -20', 'dihedral -25', 'prop 32 nodes', 'prop hub', 'J .9', 'prop 1 blade')
        m = [t for t in m if t[1] not in drop]
    few = [t for t in m if not q or t[0] in ('cg', 'ref', 'alpha', 'beta', 'sweep', 'pos', 'w1', 'w2', 'mount', 'p', 'df', 'ps', 'prot', 'p2', 'side', 'main')]
    out = [engine.Deviations('fit', [('plain', menu.plain)], m, 1),
           engine.Deviations('fit of several', [('rich', menu.rich), ('half', menu.half), ('propped', menu.propped)], few, 1),
           engine.Product('flat wing', [('sections', [3, 8] if q else [3, 8, 20]), ('chord', [.5, 1., 1.6]), ('position', [0., -1.3, .8]),
                                        ('airfoil', [NOMOM, NOMOM_CAMBER]), ('semispan', [2., 5.]), ('alpha', [0., 4.])], flat)]
    some = ('cg', 'ref', 'alpha', 'sweep', 'pos', 'beta', 'w1', 'mount', 'p')
    pairs = [t for t in m if not q or t[0] in some]
    out.append(engine.Deviations('pairs', [('plain', menu.plain)], pairs, 2))
    out.append(engine.Deviations('extremes', [('plain', menu.plain), ('rich', menu.rich)] + ([] if q else [('half', menu.half), ('propped', menu.propped)]), menu.extreme_menu(not q), 1))
    out.append(engine.Deviations('ladders', [('plain', menu.plain), ('rich', menu.rich)], menu.ladder_menu(not q, every=3 if q else 1), 1))
    if not q:
        out.append(engine.Deviations('pairs of several', [('rich', menu.rich), ('propped', menu.propped)], [t for t in m if t[0] in some + ('ps', 'prot', 'df')], 2))
    return out


def fit(g, aero, forces):
    """Aerodynamic centre (x, z) relative to the centre of gravity by least
    squares; condition of the fits."""
    al = np.radians(np.arange(-10, 10, .05))
    dp = .5 * aero['rho'] * aero['V_mag'] ** 2 * g.sref
    CN, CA, Cm = -forces[:, 2] / dp, -forces[:, 0] / dp, forces[:, 3] / dp / g.lon
    s, c = np.sin(al), np.cos(al)
    CL, CD = CN * c - CA * s, CA * c + CN * s
    # CL = CL0a (sin a - tan aL0 cos a)
    X = np.stack([s, -c], 1)
    (k, kt), _, _, sv = np.linalg.lstsq(X, CL, rcond=None)
    aL0 = np.arctan(kt / k)
    P = np.stack([np.ones_like(CL), CL, CL ** 2], 1)
    (d0, d1, d2), _, _, sv2 = np.linalg.lstsq(P, CD, rcond=None)
    M = np.stack([np.sin(2. * al), CN, CA], 1)
    (m0, mN, mA), _, _, sv3 = np.linalg.lstsq(M, Cm, rcond=None)
    a0 = np.radians(aero.get('alpha', 0.))
    den = 2. * k + 3. * d0 - 2. * d2 * k * k
    x = (4. + 2. * d0 / k + (12. * a0 * a0 - 4.) * d2 * k) / den
    z = (4. * aL0 + 4. * d1 + 12. * a0 * d2 * k) / den
    xac = g.lon * (x * m0 + mN)
    zac = -g.lon * (z * m0 + mA)
    cond = max(sv[0] / sv[-1], sv2[0] / sv2[-1], sv3[0] / sv3[-1])
    # how much rounding in the forces can matter
    amp = max(abs(x), abs(z), 1.) * cond
    return xac, zac, cond, amp, k


def check(c, ctx):
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'], c['prop']
    g = ref.grid(sp)
    if not g.n or not g.sref or not g.lon:
        raise engine.Degenerate('no main wing')
    u, v, rho = ref.wing_state(g, aero)
    ref.lifting_line(g, u, v, rho, ctrl)
    for p in sp['props']:
        ref.prop_entry(prop, p['name'])
    judge = impl.model(sp)
    F = []
    for a in np.arange(-10, 10, .05):
        t = impl.call(judge, 'solve', dict(aero, alpha=a), ctrl, prop)
        F.append([t['FX'], t['FY'], t['FZ'], t['MY']])
    x, z, cond, amp, k = fit(g, aero, np.array(F))
    if not np.isfinite(cond) or cond > 1e6 or abs(k) < 1e-6:
        raise engine.Degenerate('ill-conditioned fit')
    tol = 1e-13 * amp * cond * 100. + 1e-7
    size = 1. + abs(x) + abs(z)
    m = impl.model(sp)
    path = S.scratch_file('.json')
    got = impl.call(m, 'find_aero_center', aero, ctrl, prop, path)
    ctx.traces += 401
    cg = sp['cg']
    want = [cg[0] + x, 0., cg[2] + z]
    ctx.close('aerodynamic centre', got, want, size, tol)
    d = load_json(path)
    ctx.close('file', [d['x_ac'], d['z_ac']], [got[0], got[2]], size, 1e-12)
    still = not any(aero.get(r) for r in ('roll_rate', 'pitch_rate', 'yaw_rate'))
    if still:
        moved = copy.deepcopy(sp)
        moved['cg'] = [cg[0] + .45, cg[1] - .2, cg[2] + .3]
        ctx.close('with another centre of gravity', impl.call(impl.model(moved), 'find_aero_center', aero, ctrl, prop), got, size, 10. * tol + 1e-6)
        ctx.traces += 1
    sh = [1.7, 0., -.9]
    t = impl.call(impl.model(S.translate(sp, sh)), 'find_aero_center', aero, ctrl, prop)
    ctx.close('with everything moved', t, np.array(got) + sh, size + 2., 10. * tol + 1e-6)
    ctx.traces += 1
    if 'flat' in c:
        ctx.close('quarter chord of the flat wing', got, [c['flat'], 0., 0.], sp['wings'][0]['root_chord'], 2e-3)
    ctx.saw([round(float(v), 5) for v in got])
