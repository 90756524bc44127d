"""C10: body rates and supplied local flow set the velocity each section sees."""
import itertools
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import compare_part, compare_wing_dist, ll_model

ASSUMPTIONS = ['local flow fields are given to machup.LLModel, which documents them']


def craft(kind, cg):
    if kind == 'straight':
        w = [S.wing('main', grid=5)]
    elif kind == 'left half':
        w = [S.wing('main', side='left', grid=5, sweep=10., dihedral=8.)]
    else:
        w = menu.rich()['spec']['wings']
    return S.plane(wings=w, cg=cg)


def rates(kind, cg, p, q, r, alpha, beta):
    aero = dict(V_mag=20., rho=.002, alpha=alpha)
    if beta is not None:
        aero['beta'] = beta
    for k, x in (('roll_rate', p), ('pitch_rate', q), ('yaw_rate', r)):
        if x is not None:
            aero[k] = x
    return menu.situation(craft(kind, cg), aero, dict(flap=4., aileron=3.))


def field(kind, cg, pattern, angles, rate, ctrl, factor=1.):
    aero = {}
    if angles is not None:
        aero.update(V_mag=20. * factor, rho=.002)
        aero.update(angles)
    aero.update(rate)
    return menu.situation(craft(kind, cg), aero, ctrl, pattern=pattern, factor=factor)


PATTERNS = ['uniform', 'uniform alpha', 'density', 'ramp', 'wave', 'half']


def build_field(pattern, pts, factor):
    n = len(pts)
    base = 20. * ref.direction(3., -2.)
    if pattern == 'uniform alpha':
        base = 14. * ref.direction(-5., 6.)
    f = np.empty((n, 4))
    f[:, 0] = .002
    f[:, 1:] = base
    k = np.arange(n)
    if pattern == 'density':
        f[:, 0] = .002 * (1. + .4 * np.sin(k))
    if pattern == 'ramp':
        f[:, 1] *= 1. + .3 * k / n
        f[:, 0] *= 1. + .5 * k / n
    if pattern == 'wave':
        f[:, 1:] += np.stack([np.sin(2. * k), .8 * np.cos(3. * k), .9 * np.sin(k + 1.)], 1)
    if pattern == 'half':
        f[pts[:, 1] > 0, 1] *= 1.5
    f[:, 1:] *= factor
    return f


def spaces(tier):
    q = tier == 'quick'
    kinds = ['straight', 'left half', 'rich']
    cgs = [(0., 0., 0.), (-.4, 0., 0.), (.3, -.5, .4)]
    vals = [None, 0., .9, -.6] if q else [None, 0., .9, -.6, 2.5]
    r_axis = [('p', vals), ('q', vals), ('r', vals)]
    ang = [('alpha', [0., 4., -7.]), ('beta', [None, 5., -3.])]
    few = [{}, {'roll_rate': .5}, {'pitch_rate': -.4}, {'yaw_rate': .3}, {'roll_rate': .5, 'pitch_rate': .2, 'yaw_rate': -.7}]
    m = menu.wing_menu() + menu.frame_menu() + menu.aero_menu()
    pm = menu.prop_menu()
    out = [engine.Product('rates', [('airplane', kinds), ('cg', cgs)] + r_axis + ang, rates),
           engine.Product('field', [('airplane', kinds), ('cg', cgs), ('pattern', PATTERNS),
                                    ('angles', [None, {}, {'alpha': 3.}, {'alpha': 3., 'beta': -2.}, {'alpha': -4., 'beta': 6.}]),
                                    ('rates', few), ('controls', [None, {'flap': 5., 'aileron': -4.}])], field),
           engine.Product('slow and fast fields', [('airplane', kinds), ('cg', cgs[:2]), ('pattern', PATTERNS), ('angles', [None, {'alpha': 3., 'beta': -2.}]),
                                                   ('rates', few), ('controls', [None]), ('factor', [.03, .2, 2., 5., 20.])], field),
           engine.Deviations('slipstream and rates', [('propped', menu.propped)],
                             [t for t in m + pm if t[0] in ('p', 'q', 'rr', 'cg', 'alpha', 'beta', 'ppos', 'por', 'p2', 'ps', 'prot', 'dih', 'V')],
                             2),
           engine.Deviations('extremes', [('propped', menu.propped), ('rich', menu.rich)], menu.extreme_menu(), 2 if q else 3),
           engine.Deviations('ladders', [('propped', menu.propped), ('rich', menu.rich)], menu.ladder_menu(), 1 if q else 2)] + (
               [engine.Deviations('pairs of ladders', [('rich', menu.rich)], menu.ladder_menu(False, every=5), 2)] if q else [])
    if not q:
        out.append(engine.Deviations('situations', [('rich', menu.rich), ('half', menu.half)], m, 2))
    return out


def check(c, ctx):
    sp, aero, ctrl = c['spec'], dict(c['aero']), c['ctrl']
    if sp['props']:
        return with_props(c, ctx)
    g = ref.grid(sp)
    if 'pattern' in c:
        aero['local_state'] = build_field(c['pattern'], g.r, c['factor'])
        if 'rho' in aero:
            aero.pop('rho')
    plane = impl.airplane(sp)
    u, v, rho = ref.wing_state(g, aero)
    want = ref.lifting_line(g, u, v, rho, ctrl)
    fs, ms = want['force_scale'], want['moment_scale']

    def given(a):
        return {k: (np.array(x) if isinstance(x, np.ndarray) else x) for k, x in a.items()}

    got = ll_model(plane).solve('linear', given(aero), ctrl)
    for part in ('inviscid', 'viscous', 'total'):
        compare_part(ctx, part, got[part], want[part], fs, ms, 1e-8)
    ctx.traces += 1
    if 'pattern' in c and c['pattern'].startswith('uniform'):
        # the same field as a plain uniform state
        d = {k: x for k, x in aero.items() if k.endswith('_rate')}
        f = aero['local_state'][0]
        al, be = (3., -2.) if c['pattern'] == 'uniform' else (-5., 6.)
        d.update(V_mag=float(np.linalg.norm(f[1:])), rho=float(f[0]), alpha=al, beta=be)
        if 'V_mag' not in aero:
            got2 = ll_model(plane).solve('linear', d, ctrl)
            for part in ('inviscid', 'viscous', 'total'):
                for k in got2[part]:
                    ctx.close('uniform field %s %s' % (part, k), got[part][k], got2[part][k],
                              (abs(got2[part][k]) if k == 'L/D' else 0.) + (fs if k[0] == 'F' else ms if k[0] == 'M' else 1.), 1e-8)
            ctx.traces += 1
    if 'pattern' in c:
        tot = impl.call(impl.model(sp), 'solve', given(aero), ctrl)
        compare_part(ctx, 'solve', tot, {k: want['total'][k] for k in tot}, fs, ms, 1e-8)
        ctx.traces += 1
    else:
        m = impl.model(sp)
        tot = impl.call(m, 'solve', aero, ctrl)
        compare_part(ctx, 'solve', tot, {k: want['total'][k] for k in tot}, fs, ms, 1e-8)
        wd, _ = impl.call(m, 'distributions', aero, ctrl)
        compare_wing_dist(ctx, wd, want, 1e-8)
        # and the same velocities given section by section (rates included)
        loc = np.concatenate([rho[:, None], v], axis=1)
        a2 = dict(V_mag=aero['V_mag'], alpha=aero.get('alpha', 0.), beta=aero.get('beta', 0.), local_state=loc.copy())
        got3 = ll_model(plane).solve('linear', a2, ctrl)
        compare_part(ctx, 'as a field: total', got3['total'], want['total'], fs, ms, 1e-8)
        ctx.traces += 3
    ctx.saw([round(float(want['total'][k]), 9) for k in ('FL', 'FD', 'FS', 'MX', 'MY', 'MZ')])


def with_props(c, ctx):
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'], c['prop']
    want = ref.solve(sp, aero, ctrl, prop)
    if np.any(want['edge']):
        raise engine.Degenerate('section on the edge of a slipstream')
    m = impl.model(sp)
    tot = impl.call(m, 'solve', aero, ctrl, prop)
    compare_part(ctx, 'solve', tot, want['total'], want['fs'], want['ms'], 1e-6)
    wd, _ = impl.call(m, 'distributions', aero, ctrl, prop)
    compare_wing_dist(ctx, wd, want['wing'], 1e-6)
    ctx.traces += 2
    ctx.saw([round(float(tot[k]), 8) for k in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')])
