"""C07: mirror-image airplanes in mirrored flight give mirror-image results."""
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S

ASSUMPTIONS = ['slipstream: situations with a section within 1e-7 of the edge of a slipstream tube are left out']
EVEN = ('FL', 'FD', 'FX', 'FZ', 'MY')
ODD = ('FS', 'FY', 'MX', 'MZ')


def level():
    """A symmetric airplane in symmetric flight."""
    c = menu.rich()
    c['spec']['wings'][3] = S.wing('vtail', pos=[-4., 0., .2], yoffset=.4, dihedral=40., semispan=1., is_main=0, grid=3,
                                   af=[S.AF_ZERO], control=S.control((.1, .9), (.3, .3), {'elevator': .7, 'flap': -.2}))
    c['spec']['cg'] = [-.3, 0., .1]
    c['aero'] = dict(V_mag=25., rho=.002, alpha=3., pitch_rate=.2)
    c['ctrl'] = dict(elevator=5., flap=8.)
    c['symmetric'] = True
    return c


def twin():
    c = level()
    c['spec']['props'] = [S.prop('pr', pos=[.8, 1.5, .1], orient=[2., 3.]),
                          S.prop('pl', pos=[.8, -1.5, .1], orient=[2., -3.], rot='CW')]
    c['prop'] = dict(J=.4)
    return c


def symmetric_menu():
    names = ('yoffset', 'span 2.5', 'sweep 35', 'dihedral 12', 'dihedral -25', 'mount 4', 'washout 5', 'tip chord .4',
             'grid 1', 'grid 2', 'grid 9', 'airfoils B to C', 'not main', 'second wing', 'attached wing')
    m = menu.sub(menu.wing_menu(), *names)
    m += menu.sub(menu.frame_menu(), 'cg 0', 'cg aft')
    m += menu.sub(menu.aero_menu(), 'no alpha', 'alpha -6', 'alpha 12 (int)', 'V 45', 'rho 1.2', 'pitch rate', 'no pitch rate')
    cs = [t for t in menu.ctrl_menu() if t[1] in ('control surface', 'tapered unsealed surface', 'full-span elevon', 'no surface',
                                                  'elevator 5', 'elevator -20', 'flap 10', 'flap 30', 'controls None')]
    return m + cs


def spaces(tier):
    m = menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu()
    pm = menu.prop_menu()
    bases = [('plain', menu.plain), ('rich', menu.rich), ('half', menu.half)]
    pb = [('propped', menu.propped), ('prop only', menu.prop_only)]
    few = [t for t in m if t[1] in ('left only', 'dihedral -25', 'sweep 35', 'cg all', 'alpha -6', 'beta -9', 'roll rate', 'yaw rate',
                                    'aileron -15', 'rudder 25 (int)', 'control surface', 'pitch rate', 'alpha 0', 'no beta')]
    q = tier == 'quick'
    return [engine.Deviations('symmetric', [('level', level), ('twin', twin)], symmetric_menu(), 2 if q else 3),
            engine.Deviations('wings', bases, m, 2 if q else 3),
            engine.Deviations('propellers', pb, (pm + few) if q else (pm + m), 2),
            engine.Deviations('extremes', bases + pb, menu.extreme_menu(), 2),
            engine.Deviations('ladders', bases + pb, menu.ladder_menu(), 1)] + (
               [engine.Deviations('pairs of ladders', bases, menu.ladder_menu(False, every=6), 2)] if q else [
                engine.Deviations('pairs of ladders', bases + pb, menu.ladder_menu(every=4), 2)])


def check(c, ctx):
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'], c['prop']
    if sp['wings']:
        g = ref.grid(sp)
        u, v, rho = ref.wing_state(g, aero)
        ref.lifting_line(g, u, v, rho, ctrl)
        if sp['props']:
            for p in ref.props(sp):
                n, J = p.rotation(aero, ref.prop_entry(prop, p.name))
                w, inside, edge = p.wash(g.r, p.loads(aero, n, J), aero['V_mag'])
                if np.any(edge):
                    raise engine.Degenerate('section on the edge of a slipstream')
    m1 = impl.model(sp)
    t1 = impl.call(m1, 'solve', aero, ctrl, prop)
    d1, p1 = impl.call(m1, 'distributions', aero, ctrl, prop)
    a2 = dict(aero)
    for k in ('beta', 'roll_rate', 'yaw_rate'):
        if k in a2:
            a2[k] = -a2[k]
    c2 = None if ctrl is None else dict(ctrl)
    for k in ('aileron', 'rudder'):
        if c2 and k in c2:
            c2[k] = -c2[k]
    m2 = impl.model(S.mirror(sp))
    t2 = impl.call(m2, 'solve', a2, c2, prop)
    d2, p2 = impl.call(m2, 'distributions', a2, c2, prop)
    ctx.traces += 2
    fs = ms = 0.
    if sp['wings']:
        F = np.linalg.norm(d1['forces_xyz'], axis=1)
        fs = float(np.sum(F)) + 1e-300
        ms = float(np.sum(F * np.linalg.norm(d1['control_points'] - np.array(sp['cg'], float), axis=1)))
        arm = np.max(np.abs(d1['chord']))
        ms += arm * fs
    fs += float(np.linalg.norm([t1[k] for k in ('FX', 'FY', 'FZ')]))
    ms += float(np.linalg.norm([t1[k] for k in ('MX', 'MY', 'MZ')]))
    tol = 1e-8 if sp['props'] else 1e-9
    for k in EVEN + ODD:
        s = 1. if k in EVEN else -1.
        ctx.close('mirrored %s' % k, t2[k], s * t1[k], fs if k[0] == 'F' else ms, tol)
    if sp['wings']:
        n1, n2 = [str(x) for x in d1['name']], [str(x) for x in d2['name']]
        flip = lambda s: ('right' + s[4:]) if s.startswith('left') else ('left' + s[5:])
        for seg in dict.fromkeys(n1):
            i = [j for j, x in enumerate(n1) if x == seg]
            k = [j for j, x in enumerate(n2) if x == flip(seg)][::-1]
            if not ctx.equal('sections of ' + flip(seg), len(k), len(i)):
                continue
            for key in d1:
                if key == 'name':
                    continue
                a, b = np.array(d1[key])[i], np.array(d2[key])[k]
                if key in ('control_points', 'forces_xyz'):
                    a = a * [1., -1., 1.]
                sc = fs if key == 'forces_xyz' else 1. + np.max(np.abs(a)) if np.all(np.isfinite(a)) else 1.
                if np.all(np.isfinite(a)):
                    ctx.close('mirrored %s of %s' % (key, seg), b, a, sc, tol)
    if sp['props']:
        for key in p1:
            if key != 'name':
                a = np.array(p1[key], float)
                ctx.close('mirrored blade %s' % key, p2[key], a, 1. + np.max(np.abs(a)), tol)
    if c.get('symmetric'):
        for k in ODD:
            ctx.close('symmetric flight %s' % k, t1[k], 0., fs if k[0] == 'F' else ms, tol)
    ctx.saw([round(float(t1[k]), 8) for k in EVEN + ODD])
