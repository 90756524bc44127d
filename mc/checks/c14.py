"""C14: propeller slipstream changes exactly the wing sections it washes."""
import math
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import compare_part, compare_wing_dist, ei_from

ASSUMPTIONS = ['points within 1e-7 of the edge of a slipstream tube, of the blade tips or of the propeller disc are only '
               'required to be defined',
               'propellers extracting more than axial momentum theory allows (downstream velocity zero or reversed) are left out']

SHAPES = {
    'base': dict(),
    'big hub': dict(hub=.5, nodes=20, blades=3),
    'few nodes': dict(nodes=7, hub=.1, diameter=2.),
    'many nodes': dict(nodes=35, diameter=.9, hub=.08, chord=dict(type='elliptical', root=.09)),
    'fine pitch': dict(pitch=dict(type='ratio', value=.3), nodes=12),
    'coarse pitch': dict(pitch=dict(type='ratio', value=1.3), nodes=12, blades=4),
}
STATES = {'J .3': dict(J=.3), 'J .6': dict(J=.6), 'J .8': dict(J=.8), 'rps 30': dict(rot_per_sec=30.),
          'default': None, 'static': dict(J=0., rot_per_sec=30.)}


def lattice(shape, orient, rot, state, flow, pos):
    sp = S.plane(props=[S.prop('p', **dict(SHAPES[shape], pos=pos, orient=orient, rot=rot))])
    V = 0. if state == 'static' else 14.
    return menu.situation(sp, dict(V_mag=V, rho=1.1, alpha=flow[0], beta=flow[1]), None, STATES[state], points=1)


def points(p):
    """Points in front of, beside and behind the propeller, on and off its
    axis."""
    f = p.fwd
    a = np.cross(f, [0., 0., 1.])
    if np.linalg.norm(a) < .1:
        a = np.cross(f, [0., 1., 0.])
    a /= np.linalg.norm(a)
    b = np.cross(f, a)
    R, h = p.d / 2., p.r[0]
    out = []
    for s in (-2. * R, -.2 * R, -1e-3 * R, 1e-3 * R, .1 * R, .4 * R, R, 2.5 * R, 8. * R, 60. * R):
        out.append(p.pos - s * f)
        for r in (.4 * h, .97 * h, 1.03 * h, .3 * R, .55 * R, .7 * R, .83 * R, .93 * R, .97 * R, .998 * R, 1.002 * R, 1.6 * R):
            for t in (0., 50., 90., 135., 200., 275., 340.):
                c, d = math.cos(math.radians(t)), math.sin(math.radians(t))
                out.append(p.pos - s * f + r * (c * a + d * b))
    return np.array(out)


def spaces(tier):
    q = tier == 'quick'
    ax = [('shape', list(SHAPES)), ('orientation', [[0., 0.], [5., -8.], [-20., 30.]] + ([] if q else [[90., 0.], [0., 60.]])),
          ('rotation', ['CCW', 'CW']), ('state', list(STATES)), ('flow', [(0., 0.), (7., -5.)]),
          ('position', [[1., 0., 0.], [-.7, 1.2, -.4]])]
    wm = [t for t in menu.wing_menu() if t[0] in ('pos', 'span', 'sweep', 'dih', 'mount', 'side', 'w1', 'w2', 'w3')]
    am = [t for t in menu.aero_menu() if t[0] in ('alpha', 'beta', 'V', 'p')]
    pm = menu.prop_menu()
    pm += [('ppos', 'on the wing', menu.P(0, pos=[.2, 0., 0.])), ('ppos', 'axis through sections', menu.P(0, pos=[.6, 1.75, 0.], orient=[0., 0.])),
           ('ppos', 'far in front', menu.P(0, pos=[8., 2., 0.])), ('pd', 'huge', menu.P(0, diameter=9., hub=.5, chord=dict(type='linear', root=.4, tip=.2))),
           ('ps', 'own states', menu.PSET(dict(J=.6, right_p=dict(J=.3)))),
           ('p3', 'in front of the tail', menu.addprop(S.prop('mid', pos=[-2., .4, .1], orient=[3., 0.], diameter=1.3, nodes=10)))]

    def centre():
        c = menu.propped()
        c['spec']['props'] = [S.prop('nose', pos=[1.4, 0., -.1], diameter=3.2, hub=.3, nodes=22, blades=3)]
        c['spec']['wings'][0]['grid'] = 9
        return c
    return [engine.Product('lattice', ax, lattice),
            engine.Deviations('wings', [('propped', menu.propped), ('nose', centre)], wm + am + pm, 2 if q else 3),
            engine.Deviations('extremes', [('propped', menu.propped), ('nose', centre)], menu.extreme_menu(), 2),
            engine.Deviations('ladders', [('propped', menu.propped), ('nose', centre)], menu.ladder_menu(), 1),
            engine.Deviations('pairs of ladders', [('propped', menu.propped)], menu.ladder_menu(every=8 if q else 2), 2)]


def extracting(pl, cs, V, far=True):
    """Whether a propeller takes more out of the flow than momentum theory
    allows."""
    for p, c in zip(pl, cs):
        pair = c['Vx'][1:] + c['Vx'][:-1]
        if np.any(2. * V + 2. * pair <= 0.):
            return True
        kv = (2. * V + pair) / (2. * V + 2. * pair)
        if np.any(p.r[0] ** 2 + np.cumsum((p.r[1:] ** 2 - p.r[:-1] ** 2) * np.maximum(kv, 0.)) <= 0.):
            return True
    return False


def check(c, ctx):
    sp, aero, prop = c['spec'], c['aero'], c['prop']
    pl = ref.props(sp)
    V = aero['V_mag']
    if 'points' in c:
        p = pl[0]
        pts = points(p)
        plane = impl.airplane(sp)
        with impl.quiet():
            solver = impl.machup.PropsSolver(plane, pts.copy())
            res, vel = solver.solve(dict(aero), dict(prop) if prop else None)
        # the same propeller alone gives the induced angles
        _, pd = impl.call(impl.model(sp), 'distributions', aero, None, prop)
        ctx.traces += 2
        n, J = p.rotation(aero, prop)
        k = p.loads(aero, n, J, ei_from(pd, [p.name])[p.name])
        if extracting(pl, [k], V):
            raise engine.Degenerate('beyond momentum theory')
        w, inside, edge = p.wash(pts, k, V)
        ctx.equal('shape', tuple(vel.shape), (len(pts), 4))
        ctx.true('undefined velocity', np.all(np.isfinite(vel)))
        ctx.close('density', vel[:, 0], aero['rho'] + 0. * vel[:, 0], 1., 1e-12)
        free = V * ref.direction(aero['alpha'], aero['beta'])
        sc = V + np.max(np.abs(k['Vi']))
        ctx.close('velocity', vel[~edge, 1:], (free + w)[~edge], sc, 1e-7)
        out = ~inside & ~edge
        ctx.close('undisturbed velocity', vel[out, 1:], free + 0. * vel[out, 1:], sc, 1e-12)
        ctx.extra_states += len(pts)
        ctx.extra_edges += len(pts)
        ctx.true('no washed points', np.any(np.linalg.norm(w, axis=1) > 1e-3))
        ctx.saw([round(float(x), 7) for x in (k['Vx'][3], k['Vt'][3], w[200, 0], w[203, 1])])
        return
    m = impl.model(sp)
    wd, pd = impl.call(m, 'distributions', aero, c['ctrl'], prop)
    tot = impl.call(m, 'solve', aero, c['ctrl'], prop)
    ctx.traces += 2
    ei = ei_from(pd, [p.name for p in pl])
    want = ref.solve(sp, aero, c['ctrl'], prop, ei=ei, plist=pl)
    if extracting(pl, want['props'], V):
        raise engine.Degenerate('beyond momentum theory')
    for k in tot:
        ctx.true('%s undefined' % k, np.isfinite(tot[k]))
    for k in ('alpha', 'forces_xyz', 'section_CL', 'section_CD_parasitic'):
        ctx.true('section %s undefined' % k, np.all(np.isfinite(wd[k])))
    if np.any(want['edge']):
        raise engine.Degenerate('section on the edge of a slipstream')
    compare_wing_dist(ctx, wd, want['wing'], 1e-7)
    compare_part(ctx, 'total', tot, want['total'], want['fs'], want['ms'], 1e-7)
    ctx.saw([round(float(tot[k]), 7) for k in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')])
