"""C08: results scale with density, speed and size; translation changes nothing."""
import copy
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import FORCES, MOMENTS

ASSUMPTIONS = ['propeller powers scale with density, the cube of speed and the square of length; '
               'throttle settings are left out of the scaling (the motor does not scale)']
SCALINGS = [('rho x 1.7', 1.7, 1., 1.), ('rho x 100', 100., 1., 1.), ('V x 2', 1., 2., 1.), ('V x 0.3', 1., .3, 1.),
            ('L x 3', 1., 1., 3.), ('L x 0.4', 1., 1., .4), ('all', 515.4, 1.6, .3048)]
SHIFTS = [(2., 0., 0.), (-1., .5, 3.), (10., -20., 5.)]


def powered(kind, value):
    def f(c):
        if not c['spec']['props']:
            return False
        c['prop'] = {kind: value}
    return f


def analyses():
    c = menu.rich()
    c['analyses'] = True
    return c


def analyses_prop():
    c = menu.propped()
    c['analyses'] = True
    return c


def spaces(tier):
    q = tier == 'quick'
    wm = menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu()
    pm = menu.prop_menu() + [('ps', 'power', powered('brake_power', 3.)), ('ps', 'rps 55', powered('rot_per_sec', 55.))]
    out = [engine.Deviations('wings', [('plain', menu.plain), ('rich', menu.rich)], wm, 2),
           engine.Deviations('propellers', [('propped', menu.propped), ('prop only', menu.prop_only)],
                             pm + [t for t in wm if t[1] in ('alpha -6', 'beta -9', 'roll rate', 'cg all', 'V 45')], 1 if q else 2),
           engine.Deviations('analyses', [('rich', analyses), ('propped', analyses_prop)],
                             [t for t in wm + pm if t[1] in ('sweep 35', 'dihedral 12', 'tip chord .4', 'cg all', 'alpha -6', 'beta 4', 'rho 1.2',
                                                             'V 45', 'pitch rate', 'ref none', 'ref lat', 'second main wing', 'J .9',
                                                             'elevator 5', 'flap 10', 'no roll rate')], 1 if q else 2, chunk=1),
           engine.Deviations('extremes', [('plain', menu.plain), ('rich', menu.rich)], menu.extreme_menu(props=False), 2),
           engine.Deviations('propeller extremes', [('propped', menu.propped), ('prop only', menu.prop_only)], menu.extreme_menu(), 1 if q else 2),
           engine.Deviations('ladders', [('plain', menu.plain), ('rich', menu.rich), ('propped', menu.propped)], menu.ladder_menu(), 1)]
    return out


def scaled(c, fr, fv, fl):
    sp = S.scale(c['spec'], fl)
    a = dict(c['aero'])
    a['rho'] = a['rho'] * fr
    a['V_mag'] = a['V_mag'] * fv
    for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
        if k in a:
            a[k] = a[k] * fv / fl
    ps = c['prop']
    if ps:
        ps = dict(ps)
        if 'rot_per_sec' in ps:
            ps['rot_per_sec'] = ps['rot_per_sec'] * fv / fl
        if 'brake_power' in ps:
            ps['brake_power'] = ps['brake_power'] * fr * fv ** 3 * fl ** 2
    return sp, a, ps


def check(c, ctx):
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'], c['prop']
    if sp['wings']:
        g = ref.grid(sp)
        u, v, rho = ref.wing_state(g, aero)
        ref.lifting_line(g, u, v, rho, ctrl)
        if sp['props'] and not (prop and 'brake_power' in prop):
            for p in ref.props(sp):
                n, J = p.rotation(aero, ref.prop_entry(prop, p.name))
                if np.any(p.wash(g.r, p.loads(aero, n, J), aero['V_mag'])[2]):
                    raise engine.Degenerate('section on the edge of a slipstream')
    m1 = impl.model(sp)
    if c.get('analyses'):
        return analyse(c, ctx, m1)
    t1 = impl.call(m1, 'solve', aero, ctrl, prop)
    d1, p1 = impl.call(m1, 'distributions', aero, ctrl, prop)
    fs = float(np.linalg.norm([t1[k] for k in ('FX', 'FY', 'FZ')]))
    ms = float(np.linalg.norm([t1[k] for k in MOMENTS]))
    if d1:
        F = np.linalg.norm(d1['forces_xyz'], axis=1)
        fs += float(np.sum(F))
        ms += float(np.sum(F * np.linalg.norm(d1['control_points'] - np.array(sp['cg'], float), axis=1))) + fs
    tol = 1e-7 if sp['props'] else 1e-9
    ctx.traces += 1

    def compare(name, sp2, a2, ps2, ff, fm, fl, shift=None):
        m2 = impl.model(sp2)
        t2 = impl.call(m2, 'solve', a2, ctrl, ps2)
        d2, p2 = impl.call(m2, 'distributions', a2, ctrl, ps2)
        ctx.traces += 1
        for k in FORCES:
            ctx.close('%s: %s' % (name, k), t2[k] / ff, t1[k], fs, tol)
        for k in MOMENTS:
            ctx.close('%s: %s' % (name, k), t2[k] / fm, t1[k], ms, tol)
        for k in d1:
            if k == 'name':
                ctx.equal(name + ': names', [str(x) for x in d2[k]], [str(x) for x in d1[k]])
                continue
            a = np.asarray(d1[k], float)
            b = np.asarray(d2[k], float)
            if not np.all(np.isfinite(a)):
                continue
            f = {'control_points': fl, 'chord': fl, 'area': fl ** 2, 'forces_xyz': ff}.get(k, 1.)
            if k == 'control_points' and shift is not None:
                b = b - np.array(shift)
            ctx.close('%s: section %s' % (name, k), b / f, a, np.max(np.abs(a)) + (0. if k in ('forces_xyz',) else 1.), tol)
        for k in p1:
            if k not in ('name',):
                a, b = np.asarray(p1[k], float), np.asarray(p2[k], float)
                f = {'radial_position': fl, 'chord': fl}.get(k, 1.)
                if k in ('Vi', 'Vi_x', 'Vi_t'):
                    f = a2['V_mag'] / aero['V_mag']
                ctx.close('%s: blade %s' % (name, k), b / f, a, np.max(np.abs(a)), tol)

    for name, fr, fv, fl in SCALINGS:
        sp2, a2, ps2 = scaled(c, fr, fv, fl)
        compare(name, sp2, a2, ps2, fr * fv ** 2 * fl ** 2, fr * fv ** 2 * fl ** 3, fl)
    for sh in SHIFTS:
        compare('moved by %s' % (sh,), S.translate(sp, sh), aero, prop, 1., 1., 1., sh)
    ctx.saw([round(float(t1[k]), 8) for k in FORCES + MOMENTS])


def analyse(c, ctx, m1):
    """Dimensionless answers of the analyses under the same scalings."""
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'] or {'elevator': 0.}, c['prop']
    if ref.grid(sp).lon is None:
        raise engine.Degenerate('no main wing')
    lift = 1.1 * impl.call(m1, 'solve', dict(aero, alpha=4.), ctrl, prop)['FL']
    kw = dict(aero_state=aero, control_state=ctrl, prop_state=prop)
    d1 = impl.call(m1, 'derivatives', **kw)
    a1 = impl.call(m1, 'target_lift', lift, **kw)['alpha']
    s1 = impl.call(m1, 'stall_onset', **kw)
    ctx.traces += 3
    tol = 1e-5 if sp['props'] else 1e-7
    variants = [(n,) + scaled(c, fr, fv, fl) + (fr * fv ** 2 * fl ** 2,) for n, fr, fv, fl in SCALINGS]
    variants += [('moved by %s' % (sh,), S.translate(sp, sh), aero, prop, 1.) for sh in SHIFTS]
    for name, sp2, a2, ps2, ff in variants:
        m2 = impl.model(sp2)
        kw2 = dict(aero_state=a2, control_state=ctrl, prop_state=ps2)
        d2 = impl.call(m2, 'derivatives', **kw2)
        for grp in d1:
            ctx.equal(name + ': keys of ' + grp, sorted(d2[grp]), sorted(d1[grp]))
            sc = 1. + max(abs(x) for k, x in d1[grp].items() if k != 'static_margin')
            for k in d1[grp]:
                ctx.close('%s: %s' % (name, k), d2[grp][k], d1[grp][k], sc + abs(d1[grp][k]), tol)
        ctx.close('%s: angle for the target lift' % name, impl.call(m2, 'target_lift', lift * ff, **kw2)['alpha'], a1, 1., 1e-6)
        ctx.traces += 2
        if name in ('all', 'V x 2', 'moved by %s' % (SHIFTS[-1],)):
            s2 = impl.call(m2, 'stall_onset', **kw2)
            ctx.equal('%s: stall' % name, (str(s2['stalled_wing']), s2['alpha']), (str(s1['stalled_wing']), s1['alpha']))
            ctx.close('%s: stall lift' % name, s2['lift'] / ff, s1['lift'], abs(s1['lift']), 1e-6)
            ctx.traces += 1
    ctx.saw([round(d1['stability_derivatives']['CL_a'], 8), round(a1, 6), s1['alpha']])
