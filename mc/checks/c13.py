"""C13: propeller loads act along the installed axis at the installed position."""
import copy
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import compare_part, ei_from, solve_parts

ASSUMPTIONS = ['induced angles are taken from the blade distributions (C12 decides whether they are right)']
FLIP = {'CCW': 'CW', 'CW': 'CCW', 'ccw': 'cw', 'cw': 'ccw', 1: -1, -1: 1}


def install(el, he, pos, cg, rot, alpha, beta, J):
    sp = S.plane(props=[S.prop('p', pos=pos, orient=[el, he], rot=rot)], cg=cg)
    return menu.situation(sp, dict(V_mag=18., rho=1.1, alpha=alpha, beta=beta), None, dict(J=J))


def aligned(el, he, rot, J):
    """Flow exactly along the axis where the angles allow it."""
    sp = S.plane(props=[S.prop('p', pos=[.5, .4, -.2], orient=[el, he], rot=rot)])
    a, b = (-el, 0.) if he == 0. else (0., he)
    return menu.situation(sp, dict(V_mag=18., rho=1.1, alpha=a, beta=b), None, dict(J=J), aligned=True)


def spaces(tier):
    q = tier == 'quick'
    els = [-12., 0., 5., 40.] if q else [-60., -12., -3., 0., 5., 20., 40., 90.]
    hes = [-20., 0., 8.] if q else [-75., -20., -4., 0., 8., 35., 90.]
    pos = [[1., 0., 0.], [-2.5, 1.3, -.6], [0., -2., .4]]
    cgs = [(0., 0., 0.), (-.3, .2, .5)]
    m = menu.prop_menu(False) + menu.aero_menu()
    m += [('ps', 'static', lambda c: (c['aero'].update(V_mag=0.), c.update(prop=dict(J=0., rot_per_sec=28.))) and None),
          ('ps', 'rps 50', menu.PSET(dict(rot_per_sec=50.))), ('ps', 'J .85', menu.PSET(dict(J=.85))), ('ps', 'default', menu.PSET(None)),
          ('p3', 'third prop', menu.addprop(S.prop('third', pos=[-4., .3, .8], orient=[15., -10.], diameter=.9, nodes=9, blades=3))),
          ('cg', 'cg moved', menu.SPEC(cg=[-.8, .5, .3]))]

    def two():
        c = menu.prop_only()
        c['spec']['props'].append(S.prop('q', pos=[-1., -2., .3], orient=[4., 9.], rot='CW', diameter=1.1, nodes=12))
        return c
    return [engine.Product('installation', [('elevation', els), ('heading', hes), ('position', pos), ('cg', cgs), ('rotation', ['CCW', 'CW']),
                                            ('alpha', [0., 6., -10.]), ('beta', [0., -7.]), ('J', [.3, .7])], install),
            engine.Product('aligned', [('elevation', [-7., 0., 4., 15.]), ('heading', [0., -6., 12.]), ('rotation', ['CCW', 'CW', 'ccw', 'cw', 1, -1, 1., -1.]),
                                       ('J', [.3, .7])], lambda el, he, r, J: None if el and he else aligned(el, he, r, J)),
            engine.Deviations('several', [('one', menu.prop_only), ('two', two)], m, 2 if q else 3),
            engine.Deviations('extremes', [('one', menu.prop_only), ('two', two)], menu.extreme_menu(), 2),
            engine.Deviations('ladders', [('one', menu.prop_only), ('two', two)], menu.ladder_menu(), 1 if q else 2)] + (
               [engine.Deviations('pairs of ladders', [('one', menu.prop_only), ('two', two)], menu.ladder_menu(every=4), 2)] if q else [])


def fixed(aero, V=None):
    a = {k: v for k, v in aero.items()}
    return a


def reversed_(sp):
    s = copy.deepcopy(sp)
    for p in s['props']:
        p['rot'] = FLIP[p['rot']]
    return s


def check(c, ctx):
    sp, aero, prop = c['spec'], c['aero'], c['prop']
    if aero['V_mag'] == 0. and not (prop and prop.get('rot_per_sec')):
        raise engine.Degenerate('no rotation without airspeed')
    m = impl.model(sp)
    tot, parts = solve_parts(m, aero, None, prop)
    _, pd = impl.call(m, 'distributions', aero, None, prop)
    got = parts['prop_results']['total']
    pl = ref.props(sp)
    eis = ei_from(pd, [p.name for p in pl])
    want = ref.solve(sp, aero, None, prop, ei=eis, plist=pl)
    fs, ms = want['fs'], want['ms']
    compare_part(ctx, 'propellers', got, want['prop'], fs, ms, 1e-7)
    compare_part(ctx, 'total', tot, want['total'], fs, ms, 1e-7)
    ctx.traces += 2
    vec = lambda d, ks: np.array([d[k] for k in ks], float)
    F = vec(got, ('FX', 'FY', 'FZ'))
    # reversal: same force, opposite torque and yawing moment about the propeller
    r = solve_parts(impl.model(reversed_(sp)), aero, None, prop)[1]['prop_results']['total']
    ctx.traces += 1
    ctx.close('force with the rotation reversed', vec(r, ('FX', 'FY', 'FZ')), F, fs, 1e-8)
    ctx.close('thrust with the rotation reversed', r['Thrust'], got['Thrust'], fs, 1e-8)
    ctx.close('torque with the rotation reversed', r['Torque'], -got['Torque'], ms, 1e-8)
    off = np.zeros(3)
    singles = []
    for i, p in enumerate(pl):
        one = dict(sp, props=[sp['props'][i]])
        st = ref.prop_entry(prop, p.name)
        if len(pl) > 1:
            s1 = solve_parts(impl.model(one), aero, None, st)[1]['prop_results']['total']
            ctx.traces += 1
        else:
            s1 = got
        singles.append(s1)
        off += np.cross(p.pos - p.cg, vec(s1, ('FX', 'FY', 'FZ')))
        if len(pl) == 1:
            d = -ref.direction(aero.get('alpha', 0.), aero.get('beta', 0.))
            ang = np.arctan2(np.linalg.norm(np.cross(d, p.fwd)), d @ p.fwd)
            f1 = F
            # force in the plane of axis and flow, thrust along the axis
            nrm = np.cross(p.fwd, d)
            ctx.close('force out of the plane of axis and flow', f1 @ nrm, 0., fs, 1e-8)
            ctx.close('force along the axis', f1 @ p.fwd, got['Thrust'], fs, 1e-8)
            Mo = vec(got, ('MX', 'MY', 'MZ')) - np.cross(p.pos - p.cg, f1)
            ctx.close('moment along the axis', Mo @ p.fwd, got['Torque'], ms, 1e-8)
            ctx.close('moment out of the plane of axis and flow', Mo @ nrm, 0., ms, 1e-8)
            if ang < 1e-7 or c.get('aligned'):
                ctx.close('side force along the flow', np.linalg.norm(f1 - got['Thrust'] * p.fwd), 0., fs, 1e-6)
                ctx.close('angle', ang, 0., 1., 1e-7)
    Mr, M = vec(r, ('MX', 'MY', 'MZ')), vec(got, ('MX', 'MY', 'MZ'))
    ctx.close('moment with the rotation reversed', Mr - off, -(M - off), ms, 1e-8)
    if len(pl) > 1:
        for k in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ', 'Thrust', 'Torque'):
            ctx.close('sum over propellers %s' % k, got[k], sum(s[k] for s in singles), fs if k[0] == 'F' or k == 'Thrust' else ms, 1e-8)
    ctx.saw([round(float(got[k]), 7) for k in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')])
