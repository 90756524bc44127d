"""C09: control inputs act on exactly the covered sections with the right sign
and size."""
import itertools
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import compare_part, compare_wing_dist, ll_model

ASSUMPTIONS = ['control points exactly on the edge of a surface are left out']
MIXES = [{'aileron': 1.}, {'elevator': 1.}, {'rudder': 1.}, {'flap': 1.}, {'aileron': -.5, 'flap': .7},
         {'aileron': .8, 'elevator': 1.2, 'rudder': -.4, 'flap': .25}, {}]
CTRLS = [None, {}, {'aileron': 5.}, {'elevator': 5.}, {'rudder': 5.}, {'flap': 5.}, {'aileron': -8., 'elevator': 9.},
         {'aileron': 12, 'elevator': -30., 'rudder': 20., 'flap': 7.}, {'flap': 45.}, {'elevator': -11.},
         {'aileron': 6., 'flap': 6.}, {'rudder': -14., 'aileron': 14.}, {'elevator': 10.999}, {'elevator': 11.001}]
SPANS = [(.41, .93), (0., 1.), (.02, .33), (.73, 1.), (.48, .52)]
CHORDS = [(.25, .25), (.15, .4), (.4, .1), .3, (.05, .05), (.6, .9)]


def surface(side, span, chord, sealed, mix, ctrl, shape):
    w = S.wing('main', side=side, grid=7, control=S.control(span, chord, mix, sealed))
    aero = dict(V_mag=12., rho=.0023769, alpha=2.)
    if shape == 'tapered':
        w.update(sweep=15., dihedral=6., tip_chord=.5, washout=3., af=[S.AF_A, S.AF_C])
        aero.update(beta=3., roll_rate=.1)
    return menu.situation(S.plane(wings=[w], cg=(-.3, 0., .1)), aero, ctrl)


INPUTS = ('aileron', 'elevator', 'rudder', 'flap')
RATIO = dict(aileron=1., elevator=.9, rudder=-.7, flap=.5)
MIXED = [{'aileron': 5.}, {'elevator': -6.}, {'rudder': 7.}, {'flap': 8.}, {'aileron': -4., 'elevator': 3., 'rudder': 9., 'flap': -6.}]


def subsets():
    """Every set of inputs a surface can mix, written in either order."""
    out = []
    for n in range(1, 5):
        for keys in itertools.combinations(INPUTS, n):
            out.append({k: RATIO[k] for k in keys})
            if n > 1:
                out.append({k: RATIO[k] for k in reversed(keys)})
    return out


def mixing(mix, side, ctrl, dihedral):
    w = S.wing('main', side=side, grid=5, dihedral=dihedral, control=S.control((.15, .93), (.3, .2), mix, True))
    return menu.situation(S.plane(wings=[w], cg=(-.3, 0., .1)), dict(V_mag=12., rho=.0023769, alpha=2., beta=1.), ctrl)


def several(c1, c2, c3, ctrl, via):
    """Three wings with surfaces of their own."""
    return menu.situation(S.plane(wings=[
        S.wing('main', grid=5, tip_chord=.7, control=c1),
        S.wing('htail', pos=[-4., 0., .2], semispan=1.5, is_main=0, grid=4, af=[S.AF_B], control=c2),
        S.wing('fin', side='left', pos=[-4., 0., -.1], dihedral=89., semispan=1., is_main=0, grid=3, af=[S.AF_ZERO], control=c3)]),
        dict(V_mag=12., rho=.0023769, alpha=2., beta=1.), ctrl, via=via)


def spaces(tier):
    q = tier == 'quick'
    c1 = [None, S.control((.42, .93), (.25, .2), {'aileron': 1., 'flap': .5}), S.control((0., .6), .3, {'flap': 1.}, False)]
    c2 = [None, S.control((0., 1.), (.4, .4), {'elevator': 1.}), S.control((.05, .95), (.5, .3), {'elevator': .5, 'aileron': -.3}, False)]
    c3 = [None, S.control((.07, .91), (.3, .3), {'rudder': 1.})]
    pairs = [dict([(a, x), (b, y)]) for a, b in (('aileron', 'elevator'), ('aileron', 'rudder'), ('flap', 'elevator'), ('flap', 'rudder'))
             for x in (4., -13.) for y in (-7., 21.)]
    g = [-20., 0., 6.] if q else [-25., -11.5, -4., 0., 3., 11., 18.]
    grid4 = [dict(aileron=a, elevator=e, rudder=r, flap=f) for a in g for e in g for r in g for f in g]
    m = menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu()
    out = [engine.Product('surface', [('side', ['both', 'left', 'right']), ('span', SPANS), ('chord', CHORDS),
                                      ('sealed', [True, False, 1, 0] if not q else [True, False]), ('mix', MIXES),
                                      ('controls', CTRLS), ('shape', ['straight', 'tapered'])], surface),
           engine.Product('mixing', [('mix', subsets()), ('side', ['both', 'left']), ('controls', MIXED),
                                     ('dihedral', [0., 35., -20.])], mixing),
           engine.Product('several', [('c1', c1), ('c2', c2), ('c3', c3), ('controls', pairs + [None, {}]), ('via', ['auto', 'file'])], several),
           engine.Product('deflections', [('controls', grid4)],
                          lambda ctrl: surface('both', (.12, .93), (.3, .2), True,
                                               {'aileron': 1., 'elevator': .5, 'rudder': -.6, 'flap': .9}, ctrl, 'tapered')),
           engine.Deviations('extremes', [('rich', menu.rich), ('plain', menu.plain)], menu.extreme_menu(props=False), 2),
           engine.Deviations('ladders', [('rich', menu.rich)], menu.ladder_menu(props=False), 1 if q else 2)]
    if not q:
        out.append(engine.Deviations('situations', [('rich', menu.rich), ('plain', menu.plain)], m, 2))
    return out


def check(c, ctx):
    sp, aero, ctrl = c['spec'], c['aero'], c['ctrl']
    g = ref.grid(sp)
    u, v, rho = ref.wing_state(g, aero)
    want = ref.lifting_line(g, u, v, rho, ctrl)
    plane = impl.airplane(sp, c.get('via', 'auto'))
    with impl.quiet():
        lg = impl.machup.LLGrid(plane)
        m = impl.MU.MachUp(inputAirplane=plane)
    ctx.close('flap effectiveness', lg.get_flap_effectiveness(), g.eff, 1., 1e-10)
    ctx.close('moment per deflection', lg.get_moment_slopes()[2], g.cmd, 1., 1e-10)
    mixes = lg.get_control_mix()
    for i, name in enumerate(('aileron', 'elevator', 'rudder', 'flap')):
        ctx.close('mixing of ' + name, mixes[i], g.mix[:, i], 1., 1e-12)
    got = ll_model(plane).solve('linear', dict(aero), None if ctrl is None else dict(ctrl))
    for part in ('inviscid', 'viscous', 'total'):
        compare_part(ctx, part, got[part], want[part], want['force_scale'], want['moment_scale'], 1e-8)
    tot = impl.call(m, 'solve', aero, ctrl)
    compare_part(ctx, 'solve', tot, {k: want['total'][k] for k in tot}, want['force_scale'], want['moment_scale'], 1e-8)
    if g.lon is not None:
        wd, _ = impl.call(m, 'distributions', aero, ctrl)
        compare_wing_dist(ctx, wd, want, 1e-8)
        ctx.traces += 1
    ctx.traces += 2
    ctx.saw([round(float(want['total'][k]), 9) for k in ('FL', 'FD', 'FS', 'MX', 'MY', 'MZ')])
