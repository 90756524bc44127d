"""C05: wing loads are those of the numerical lifting-line equations."""
import numpy as np
from .. import engine, impl, menu, ref
from ..util import compare_part, compare_wing_dist, ll_model

ASSUMPTIONS = ['airplanes with at most five wings and nine sections per half; angles of the menus in mc/menu.py',
               'numpy.linalg.solve is trusted on both sides']


def spaces(tier):
    m = menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu()
    m.append(('grid spacing', 'linear spacing', lambda c: c.update(cosine=False)))
    bases = [('plain', menu.plain), ('rich', menu.rich), ('half', menu.half)]
    bound = 2 if tier == 'quick' else 3
    return [engine.Deviations('wings', bases, m, bound),
            engine.Deviations('extremes', bases, menu.extreme_menu(props=False), bound),
            engine.Deviations('ladders', bases, menu.ladder_menu(False), bound - 1)] + (
               [engine.Deviations('pairs of ladders', bases, menu.ladder_menu(False, every=4), 2)] if tier == 'quick' else [])


def check(c, ctx):
    cosine = c.get('cosine', True)
    plane = impl.airplane(c['spec'])
    g = ref.grid(c['spec'], cosine)
    u, v, rho = ref.wing_state(g, c['aero'])
    want = ref.lifting_line(g, u, v, rho, c['ctrl'])
    got = ll_model(plane, cosine).solve('linear', c['aero'], c['ctrl'])
    for part in ('inviscid', 'viscous', 'total'):
        compare_part(ctx, part, got[part], want[part], want['force_scale'], want['moment_scale'], 1e-8)
    ctx.traces += 1
    if cosine:
        m = impl.model(c['spec'])
        tot = impl.call(m, 'solve', c['aero'], c['ctrl'])
        compare_part(ctx, 'solve', tot, {k: want['total'][k] for k in tot}, want['force_scale'], want['moment_scale'], 1e-8)
        wd, pd = impl.call(m, 'distributions', c['aero'], c['ctrl'])
        compare_wing_dist(ctx, wd, want, 1e-8)
        ctx.traces += 2
    ctx.saw([round(float(want['total'][k]), 9) for k in ('FL', 'FD', 'FS', 'MX', 'MY', 'MZ')])
