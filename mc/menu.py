"""Base situations and deviations from them."""
from . import spec as S


def situation(spec, aero=None, ctrl=None, prop=None, **kw):
    d = dict(spec=spec, aero=aero if aero is not None else dict(V_mag=10., rho=0.0023769, alpha=3.),
             ctrl=ctrl, prop=prop)
    d.update(kw)
    return d


# ------------------------------------------------------------------- bases

def plain():
    """One straight wing."""
    return situation(S.plane(wings=[S.wing('main')]))


def rich():
    """Swept, twisted, tapered wing with two airfoils and a control surface,
    a winglet, a tail and a fin; sideslip, rates and deflections."""
    return situation(
        S.plane(wings=[
            S.wing('main', sweep=18., dihedral=5., mount=2., washout=3., tip_chord=.55, yoffset=.2,
                   af=[S.AF_A, S.AF_C], control=S.control((.45, .92), (.2, .3), {'aileron': 1., 'flap': .4}), grid=5),
            S.wing('tip', parent=0, semispan=.9, sweep=30., dihedral=60., root_chord=.5, tip_chord=.3, grid=3,
                   is_main=0, af=[S.AF_B]),
            S.wing('htail', pos=[-4., 0., .25], semispan=1.6, is_main=0, root_chord=.6, tip_chord=.4, mount=-1.,
                   af=[S.AF_B], control=S.control((.1, .95), (.4, .4), {'elevator': 1.}, False), grid=4),
            S.wing('fin', side='left', pos=[-4.1, 0., -.1], dihedral=88., semispan=1.1, is_main=0, root_chord=.6,
                   tip_chord=.35, sweep=25., af=[S.AF_ZERO], control=S.control((.05, .9), (.3, .45), {'rudder': 1.}),
                   grid=3)],
            cg=(-.35, .08, .05), lat=8.6, lon=.8),
        dict(V_mag=32., rho=.0021, alpha=4.5, beta=-3., roll_rate=.25, pitch_rate=.15, yaw_rate=-.2),
        dict(aileron=4., elevator=-6., rudder=5., flap=9.))


def half():
    """A single left wing half."""
    return situation(S.plane(wings=[S.wing('main', side='left', sweep=-10., dihedral=-4., tip_chord=.8, grid=4)],
                             cg=(.1, 0., 0.)),
                     dict(V_mag=20., rho=.0023769, alpha=-2., beta=5.))


def propped():
    """Wing with two propellers of opposite rotation in front of it."""
    return situation(
        S.plane(wings=[S.wing('main', sweep=8., dihedral=3., mount=1., tip_chord=.7, af=[S.AF_A, S.AF_B],
                              control=S.control((.3, .95), (.25, .25), {'aileron': 1., 'flap': 1.}), grid=7),
                       S.wing('htail', pos=[-4., 0., 0.1], semispan=1.5, is_main=0, af=[S.AF_B],
                              control=S.control((0., 1.), (.4, .4), {'elevator': 1.}), grid=3)],
                props=[S.prop('right_p', pos=[.6, 1.7, .1], orient=[2., -3.]),
                       S.prop('left_p', pos=[.6, -1.6, .05], orient=[-1., 4.], rot='CW', blades=3, diameter=1.8,
                              pitch=dict(type='value', value=1.1), chord=dict(type='elliptical', root=.13))],
                cg=(-.2, .05, .1)),
        dict(V_mag=30., rho=.0022, alpha=3., beta=2., pitch_rate=.1),
        dict(aileron=3., elevator=-4.), dict(J=.4))


def prop_only():
    return situation(S.plane(props=[S.prop('p')], cg=(.2, 0., -.1)),
                     dict(V_mag=15., rho=1.2, alpha=4., beta=-3.), None, dict(J=.45))


# -------------------------------------------------------------- deviations

def W(i, **kw):
    """Change wing i."""
    def f(c):
        ws = c['spec']['wings']
        if len(ws) <= i:
            return False
        ws[i].update(kw)
    return f


def SIDE(i, side):
    """Give wing i one side only; the wings attached to it must be there."""
    def f(c):
        ws = c['spec']['wings']
        if len(ws) <= i or any(w['parent'] == i and w['side'] != side for w in ws):
            return False
        ws[i]['side'] = side
    return f


def P(i, **kw):
    """Change propeller i."""
    def f(c):
        ps = c['spec']['props']
        if len(ps) <= i:
            return False
        ps[i].update(kw)
    return f


def SPEC(**kw):
    def f(c):
        c['spec'].update(kw)
    return f


def A(**kw):
    """Change the flight state; None removes a key."""
    def f(c):
        for k, v in kw.items():
            if v is None:
                c['aero'].pop(k, None)
            else:
                c['aero'][k] = v
    return f


def C(**kw):
    def f(c):
        c['ctrl'] = dict(c['ctrl'] or {})
        c['ctrl'].update(kw)
    return f


def CSET(v):
    def f(c):
        c['ctrl'] = v
    return f


def PSET(v):
    def f(c):
        if not c['spec']['props']:
            return False
        c['prop'] = dict(v) if isinstance(v, dict) else v
    return f


def addwing(w):
    def f(c):
        if not c['spec']['wings']:
            return False
        ws = c['spec']['wings']
        v = dict(w)
        if v['parent'] is not None and len(ws) <= v['parent']:
            return False
        if v['parent'] is not None and ws[v['parent']]['side'] != 'both':
            v['side'] = ws[v['parent']]['side']
        if any(x['name'] == v['name'] for x in ws):
            return False
        ws.append(v)
    return f


def addprop(p):
    def f(c):
        c['spec']['props'].append(dict(p))
    return f


def wing_menu():
    """Shape of the wings."""
    m = []
    d = lambda g, n, f: m.append((g, n, f))
    d('side', 'left only', SIDE(0, 'left'))
    d('side', 'right only', SIDE(0, 'right'))
    d('pos', 'wing moved', W(0, pos=[.7, .3, -.4]))
    d('pos', 'wing moved (int)', W(0, pos=[1, 0, 1]))
    d('yoff', 'yoffset', W(0, yoffset=.6))
    d('span', 'span 2.5', W(0, semispan=2.5))
    d('span', 'span 9 (int)', W(0, semispan=9))
    d('sweep', 'sweep 35', W(0, sweep=35.))
    d('sweep', 'sweep -20', W(0, sweep=-20.))
    d('dih', 'dihedral 12', W(0, dihedral=12.))
    d('dih', 'dihedral -25', W(0, dihedral=-25.))
    d('dih', 'dihedral 70', W(0, dihedral=70.))
    d('mount', 'mount 4', W(0, mount=4.))
    d('mount', 'mount -3', W(0, mount=-3.))
    d('wash', 'washout 5', W(0, washout=5.))
    d('wash', 'washout -2', W(0, washout=-2.))
    d('rootc', 'root chord 1.7', W(0, root_chord=1.7))
    d('tipc', 'tip chord .4', W(0, tip_chord=.4))
    d('tipc', 'pointed tip', W(0, tip_chord=0.))
    d('tipc', 'tip chord wider', W(0, tip_chord=1.9))
    d('grid', 'grid 1', W(0, grid=1))
    d('grid', 'grid 2', W(0, grid=2))
    d('grid', 'grid 9', W(0, grid=9))
    d('grid', 'grid 40', W(0, grid=40))
    d('af', 'no airfoil', W(0, af=[]))
    d('af', 'airfoil C', W(0, af=[S.AF_C]))
    d('af', 'airfoils B to C', W(0, af=[S.AF_B, S.AF_C]))
    d('main', 'not main', W(0, is_main=0))
    d('w1', 'second wing', addwing(S.wing('wing2', pos=[-3., 0., -.6], semispan=2., sweep=5., is_main=0, grid=3, af=[S.AF_B])))
    d('w1', 'second main wing', addwing(S.wing('canard', pos=[3., 0., .2], semispan=1.5, mount=2., is_main=1, grid=3)))
    d('w2', 'attached wing', addwing(S.wing('outer', parent=0, pos=[.1, 0., -.05], semispan=1.2, sweep=15., dihedral=20.,
                                            yoffset=.05, grid=3, is_main=1, af=[S.AF_C, S.AF_B])))
    d('w3', 'fin', addwing(S.wing('vtail', side='right', pos=[-4., 0., 0.], dihedral=90., semispan=1., is_main=0, grid=3,
                                  af=[S.AF_ZERO], control=S.control((0., 1.), (.3, .3), {'rudder': 1.}))))
    return m


def frame_menu():
    """Centre of gravity and reference lengths."""
    m = []
    d = lambda g, n, f: m.append((g, n, f))
    d('cg', 'cg 0', SPEC(cg=[0., 0., 0.]))
    d('cg', 'cg aft', SPEC(cg=[-.6, 0., 0.]))
    d('cg', 'cg all', SPEC(cg=[.4, -.25, .3]))
    d('cg', 'cg int', SPEC(cg=[1, 0, -1]))
    d('ref', 'ref none', SPEC(lat=None, lon=None))
    d('ref', 'ref lat', SPEC(lat=7.5, lon=None))
    d('ref', 'ref lon', SPEC(lat=None, lon=.9))
    d('ref', 'ref both', SPEC(lat=8., lon=1.1))
    return m


def aero_menu():
    m = []
    d = lambda g, n, f: m.append((g, n, f))
    d('alpha', 'no alpha', A(alpha=None))
    d('alpha', 'alpha 0', A(alpha=0.))
    d('alpha', 'alpha -6', A(alpha=-6.))
    d('alpha', 'alpha 12 (int)', A(alpha=12))
    d('beta', 'beta 4', A(beta=4.))
    d('beta', 'beta -9', A(beta=-9.))
    d('beta', 'no beta', A(beta=None))
    d('V', 'V 45', A(V_mag=45.))
    d('V', 'V 8 (int)', A(V_mag=8))
    d('rho', 'rho 1.2', A(rho=1.2))
    d('p', 'roll rate', A(roll_rate=.8))
    d('p', 'no roll rate', A(roll_rate=None))
    d('q', 'pitch rate', A(pitch_rate=.5))
    d('q', 'no pitch rate', A(pitch_rate=None))
    d('rr', 'yaw rate', A(yaw_rate=-.6))
    d('rr', 'no yaw rate', A(yaw_rate=None))
    return m


def ctrl_menu():
    m = []
    d = lambda g, n, f: m.append((g, n, f))
    mix = {'aileron': 1., 'elevator': .6, 'rudder': -.3, 'flap': .8}
    d('cs', 'control surface', W(0, control=S.control((.42, .93), (.25, .25), mix)))
    d('cs', 'tapered unsealed surface', W(0, control=S.control((.12, .77), (.15, .4), mix, False)))
    d('cs', 'full-span elevon', W(0, control=S.control((0., 1.), (.3, .2), {'aileron': 1., 'elevator': 1.})))
    d('cs', 'no surface', W(0, control=None))
    d('ctrl', 'controls None', CSET(None))
    d('ctrl', 'controls {}', CSET({}))
    d('da', 'aileron 6', C(aileron=6.))
    d('da', 'aileron -15', C(aileron=-15.))
    d('de', 'elevator 5', C(elevator=5.))
    d('de', 'elevator -20', C(elevator=-20.))
    d('dr', 'rudder 8', C(rudder=8.))
    d('dr', 'rudder 25 (int)', C(rudder=25))
    d('df', 'flap 10', C(flap=10.))
    d('df', 'flap 30', C(flap=30.))
    return m


def prop_menu(state=True):
    m = []
    d = lambda g, n, f: m.append((g, n, f))
    d('ppos', 'prop moved', P(0, pos=[1.2, .4, -.3]))
    d('ppos', 'prop behind', P(0, pos=[-3., .8, .2]))
    d('por', 'prop pitched', P(0, orient=[6., 0.]))
    d('por', 'prop yawed', P(0, orient=[0., -8.]))
    d('por', 'prop tilted', P(0, orient=[-5., 7.]))
    d('por', 'prop straight', P(0, orient=[0., 0.]))
    d('prot', 'prop CW', P(0, rot='CW'))
    d('prot', 'prop -1', P(0, rot=-1))
    d('pd', 'prop diameter', P(0, diameter=2.2))
    d('phub', 'prop hub', P(0, hub=.4))
    d('pbl', 'prop 1 blade', P(0, blades=1))
    d('pbl', 'prop 4 blades', P(0, blades=4))
    d('pn', 'prop 8 nodes', P(0, nodes=8))
    d('pn', 'prop 32 nodes', P(0, nodes=32))
    d('ppitch', 'pitch default', P(0, pitch=dict(type='default')))
    d('ppitch', 'pitch .8', P(0, pitch=dict(type='ratio', value=.8)))
    d('ppitch', 'pitch value', P(0, pitch=dict(type='value', value=.9)))
    d('ppitch', 'pitch increment', P(0, pitch=dict(type='ratio', value=.5, pitch_increment=4.)))
    d('pch', 'chord default', P(0, chord=dict(type='default')))
    d('pch', 'chord constant', P(0, chord=dict(type='linear', root=.1)))
    d('pch', 'chord elliptical', P(0, chord=dict(type='elliptical', root=.15)))
    d('paf', 'prop default airfoil', P(0, af=[]))
    d('paf', 'prop two airfoils', P(0, af=[dict(S.AF_B, span_position='root'), dict(S.AF_C, span_position='tip')]))
    d('paf', 'prop three airfoils', P(0, af=[dict(S.AF_C, span_position=.3), dict(S.AF_B, span_position='tip'),
                                            dict(S.AF_A, span_position=.7)]))
    d('p2', 'another prop', addprop(S.prop('extra', pos=[.9, -.2, .3], rot='CW', diameter=1.1, orient=[1., 2.], nodes=11)))
    if state:
        d('ps', 'prop None', PSET(None))
        d('ps', 'J .25', PSET(dict(J=.25)))
        d('ps', 'J .9', PSET(dict(J=.9)))
        d('ps', 'rps 40 (int)', PSET(dict(rot_per_sec=40)))
    return m


def extreme_menu(props=True, aero=True):
    """Values far from the usual ones, and many of a thing."""
    m = []
    d = lambda g, n, f: m.append((g, n, f))
    if aero:
        d('alpha', 'alpha 25', A(alpha=25.))
        d('alpha', 'alpha -20', A(alpha=-20.))
        d('beta', 'beta 35', A(beta=35.))
        d('beta', 'beta -50', A(beta=-50.))
        d('V', 'V .4', A(V_mag=.4))
        d('V', 'V 300', A(V_mag=300.))
        d('rho', 'rho 1e-6', A(rho=1e-6))
        d('rho', 'rho 900', A(rho=900.))
        d('p', 'roll rate -4', A(roll_rate=-4.))
        d('q', 'pitch rate 3', A(pitch_rate=3.))
        d('rr', 'yaw rate 5', A(yaw_rate=5.))
    d('cg', 'cg far away', SPEC(cg=[30., -20., 15.]))
    d('ref', 'ref tiny', SPEC(lat=.01, lon=.002))
    d('ref', 'ref huge', SPEC(lat=400., lon=90.))
    d('pos', 'wing far away', W(0, pos=[-25., 12., 30.]))
    d('yoff', 'yoffset 15', W(0, yoffset=15.))
    d('span', 'span .1', W(0, semispan=.1))
    d('span', 'span 60', W(0, semispan=60.))
    d('sweep', 'sweep 65', W(0, sweep=65.))
    d('sweep', 'sweep -55', W(0, sweep=-55.))
    d('dih', 'dihedral 115', W(0, dihedral=115.))
    d('dih', 'dihedral -90', W(0, dihedral=-90.))
    d('mount', 'mount 30', W(0, mount=30.))
    d('wash', 'washout 25', W(0, washout=25.))
    d('wash', 'washout -18', W(0, washout=-18.))
    d('rootc', 'root chord .02', W(0, root_chord=.02))
    d('rootc', 'root chord 12', W(0, root_chord=12.))
    d('grid', 'grid 60', W(0, grid=60))
    d('af', 'weak airfoil', W(0, af=[dict(S.AF_A, name='weak', CL_alpha=.5, alpha_L0=.2)]))
    d('af', 'strong airfoil', W(0, af=[dict(S.AF_C, name='strong', CL_alpha=14., alpha_L0=-.3, CD0=.2, CD0_L=.1, CD0_L2=.3, Cm_L0=-.8, Cm_alpha=1.2)]))
    d('da', 'aileron 50', C(aileron=50.))
    d('de', 'elevator -60', C(elevator=-60.))
    d('dr', 'rudder -45', C(rudder=-45.))
    d('df', 'flap 80', C(flap=80.))

    def chain(c):
        ws = c['spec']['wings']
        if not ws:
            return False
        for i in range(3):
            if addwing(S.wing('part%d' % i, parent=0 if i == 0 else len(ws) - 1, pos=[-.1, 0., .04 * i], yoffset=.03 * i, semispan=.8 - .1 * i,
                              sweep=8. * i, dihedral=15. * i - 5., grid=2, is_main=i % 2, root_chord=.8, tip_chord=.6,
                              af=[(S.AF_A, S.AF_B, S.AF_C)[i]]))(c) is False:
                return False
    d('chain', 'chain of wings', chain)

    def many(c):
        if not c['spec']['wings']:
            return False
        for i in range(5):
            c['spec']['wings'].append(S.wing('extra%d' % i, side=('both', 'left', 'right')[i % 3], pos=[-2. - i, .1 * i, .5 * i], semispan=1. + .3 * i,
                                             dihedral=10. * i, grid=2, is_main=i % 2, af=[(S.AF_A, S.AF_B, S.AF_C)[i % 3]]))
    d('many', 'many wings', many)
    # whole numbers in place of decimals
    if aero:
        d('ints', 'state in whole numbers', A(V_mag=30, rho=2, alpha=3, beta=-2, roll_rate=1, pitch_rate=-1, yaw_rate=2))
        d('ints', 'controls in whole numbers', C(aileron=3, elevator=-2, rudder=1, flap=12))
    d('ints', 'frame in whole numbers', SPEC(cg=[-1, 0, 1], lat=8, lon=1))
    for i in (0, 1):
        d('ints', 'wing %d in whole numbers' % i, W(i, pos=[-1, 0, 1], yoffset=1, semispan=3, sweep=10, dihedral=5, mount=2, washout=1, root_chord=2, tip_chord=1,
                                                   af=[dict(name='whole', alpha_L0=0, CL_alpha=6, CL_max=1, Cm_L0=0, Cm_alpha=-1, CD0=0, CD0_L=0, CD0_L2=1),
                                                       dict(name='other', alpha_L0=-.04, CL_alpha=5.5, CL_max=1.3, Cm_L0=-.02, Cm_alpha=.1, CD0=.01, CD0_L=.004, CD0_L2=.02)]))
    if props:
        d('ints', 'prop in whole numbers', P(0, pos=[1, 2, 0], orient=[2, -3], diameter=2, pitch=dict(type='ratio', value=1)))
        d('ints', 'J 1 (int)', PSET(dict(J=1)))
        d('ppos', 'prop far away', P(0, pos=[40., -15., 22.]))
        d('por', 'prop across', P(0, orient=[0., 75.]))
        d('por', 'prop up', P(0, orient=[70., -20.]))
        d('pd', 'prop tiny', P(0, diameter=.05, hub=.006, chord=dict(type='linear', root=.004, tip=.003)))
        d('pd', 'prop large', P(0, diameter=25., hub=1.5, chord=dict(type='linear', root=1.4, tip=.9)))
        d('pbl', 'prop 8 blades', P(0, blades=8))
        d('pn', 'prop 70 nodes', P(0, nodes=70))
        d('pn', 'prop 3 nodes', P(0, nodes=3))
        d('phub', 'prop hub .9', P(0, hub=.9))
        d('ppitch', 'pitch 1.6', P(0, pitch=dict(type='ratio', value=1.6)))
        d('ps', 'J .08', PSET(dict(J=.08)))
        d('ps', 'J 1.4', PSET(dict(J=1.4)))
        d('ps', 'rps 300', PSET(dict(rot_per_sec=300.)))

        def fleet(c):
            for i in range(4):
                c['spec']['props'].append(S.prop('fleet%d' % i, pos=[.3 * i, 1.1 * i - 2., .2 * i], orient=[2. * i, -i], rot=('CCW', 'CW')[i % 2],
                                                 diameter=.6 + .2 * i, hub=.1, nodes=7 + i, blades=2 + i % 3))
        d('fleet', 'many props', fleet)
    return m


def sub(menu, *names):
    """The named deviations of a menu."""
    out = [t for t in menu if t[1] in names]
    assert len(out) == len(names), [n for n in names if n not in [t[1] for t in menu]]
    return out


ANGLES = (-70., -44., -31., -22., -15., -11., -8., -4., -2., -.6, -.05, .05, .4, 1.3, 2.6, 5., 7., 10., 11.5, 16., 20., 30.5, 50., 75.)
RATES = (-9., -3., -1.1, -.3, -.04, .007, .1, .6, 1.7, 5.)
SIZES = (.06, .2, .35, .7, 1.3, 1.9, 3.3, 6., 11., 20., 45.)
SHIFTS = (-20., -7., -2.2, -.9, -.15, -.02, .03, .2, .6, 1.5, 4., 9.)


def ladder_menu(props=True, aero=True, wings=(0, 2), every=1):
    """Every parameter on its own along a ladder of values, so that no range
    of a value is left out."""
    m = []

    def ladder(name, values, make):
        for i, v in enumerate(values):
            if i % every == 0:
                m.append(('l %s' % name, '%s = %s' % (name, v), make(v)))

    def vec(get, j):
        def make(v):
            def f(c):
                p = get(c)
                if p is None:
                    return False
                k, d = p
                d[k] = list(d[k])
                d[k][j] = v
            return f
        return make

    def item(get, key, rel=None):
        def make(v):
            def f(c):
                d = get(c)
                if d is None:
                    return False
                d[key] = v if rel is None else v * rel(c)
            return f
        return make

    if aero:
        a = lambda c: c['aero']
        ladder('alpha', ANGLES, item(a, 'alpha'))
        ladder('beta', ANGLES, item(a, 'beta'))
        ladder('V', (.1, 1., 2.5, 4.5, 7., 13., 18., 24., 40., 55., 80., 110., 150., 220.), item(a, 'V_mag'))
        ladder('rho', (1e-4, .0005, .001, .0017, .0030, .006, .02, .1, .4, .9, 1.225, 2., 30.), item(a, 'rho'))
        for r in ('roll_rate', 'pitch_rate', 'yaw_rate'):
            ladder(r, RATES, item(a, r))
        for k in ('aileron', 'elevator', 'rudder', 'flap'):
            def ctrl(c):
                c['ctrl'] = dict(c['ctrl'] or {})
                return c['ctrl']
            ladder(k, [x for x in ANGLES if abs(x) < 40.], item(ctrl, k))
    for j, x in enumerate('xyz'):
        ladder('cg ' + x, SHIFTS, vec(lambda c: ('cg', c['spec']), j))
    ladder('lat', (.05, .5, 1., 2., 5., 12., 30.), item(lambda c: c['spec'], 'lat'))
    ladder('lon', (.05, .2, .5, 1., 1.6, 3., 10.), item(lambda c: c['spec'], 'lon'))
    for i in wings:
        w = lambda c, i=i: c['spec']['wings'][i] if len(c['spec']['wings']) > i else None
        n = 'wing %d ' % i
        for j, x in enumerate('xyz'):
            ladder(n + x, SHIFTS, vec(lambda c, w=w: None if w(c) is None else ('pos', w(c)), j))
        ladder(n + 'yoffset', (.01, .1, .3, .8, 2., 5.), item(w, 'yoffset'))
        for k in ('semispan', 'root_chord', 'tip_chord'):
            ladder(n + k, SIZES, item(w, k))
        ladder(n + 'sweep', [x for x in ANGLES if abs(x) < 60.], item(w, 'sweep'))
        ladder(n + 'dihedral', ANGLES + (90., 120.), item(w, 'dihedral'))
        for k in ('mount', 'washout'):
            ladder(n + k, [x for x in ANGLES if abs(x) < 35.], item(w, k))
        ladder(n + 'grid', (3, 4, 6, 7, 8, 10, 11, 13, 16, 17, 20, 25, 32), item(w, 'grid'))
        for k, vs in (('alpha_L0', (-.3, -.1, -.02, .01, .06, .2)), ('CL_alpha', (.4, 2., 4.5, 5.5, 6.9, 8., 12.)), ('CL_max', (.2, .7, 1., 1.9, 3.)),
                      ('Cm_L0', (-.5, -.2, -.03, .01, .08, .4)), ('Cm_alpha', (-1., -.3, -.02, .1, .5)), ('CD0', (0., .001, .02, .1)),
                      ('CD0_L', (-.05, 0., .004, .05)), ('CD0_L2', (0., .003, .05, .2))):
            for one in (0, 1):
                def af(v, i=i, k=k, one=one):
                    def f(c):
                        ws = c['spec']['wings']
                        if len(ws) <= i or len(ws[i]['af']) <= one:
                            return False
                        ws[i]['af'] = [dict(a) for a in ws[i]['af']]
                        ws[i]['af'][one].update({k: v, 'name': 'foil%d%d' % (i, one)})
                    return f
                ladder(n + '%s %d' % (k, one), vs, af)

        def surface(v, i=i):
            def f(c):
                ws = c['spec']['wings']
                if len(ws) <= i or not ws[i]['control']:
                    return False
                k, x = v
                d = dict(ws[i]['control'], mix=dict(ws[i]['control']['mix']), span=list(ws[i]['control']['span']), chord=list(ws[i]['control']['chord']))
                if k in ('s0', 's1'):
                    d['span'][int(k[1])] = x
                    if not d['span'][0] < d['span'][1]:
                        return False
                elif k in ('c0', 'c1'):
                    d['chord'][int(k[1])] = x
                else:
                    d['mix'][k] = x
                ws[i]['control'] = d
            return f
        for k in ('s0', 's1'):
            ladder(n + k, [(k, x) for x in (0., .03, .1, .22, .36, .5, .61, .74, .86, .97, 1.)], surface)
        for k in ('c0', 'c1'):
            ladder(n + k, [(k, x) for x in (.02, .08, .14, .22, .33, .5, .66, .8, .95)], surface)
        for k in ('aileron', 'elevator', 'rudder', 'flap'):
            ladder(n + 'mix ' + k, [(k, x) for x in (-2.5, -1., -.4, -.05, 0., .1, .7, 1.4, 3.)], surface)
    if props:
        for i in (0, 1):
            p = lambda c, i=i: c['spec']['props'][i] if len(c['spec']['props']) > i else None
            n = 'prop %d ' % i
            for j, x in enumerate('xyz'):
                ladder(n + x, SHIFTS, vec(lambda c, p=p: None if p(c) is None else ('pos', p(c)), j))
            for j, x in enumerate(('elevation', 'heading')):
                ladder(n + x, [x for x in ANGLES if abs(x) < 40.], vec(lambda c, p=p: None if p(c) is None else ('orient', p(c)), j))
            ladder(n + 'nodes', (4, 5, 6, 7, 9, 10, 13, 17, 20, 24, 28, 40), item(p, 'nodes'))
            ladder(n + 'blades', (1, 2, 3, 4, 5, 6, 7), item(p, 'blades'))

            def size(v, p=p):
                def f(c):
                    q = p(c)
                    if q is None:
                        return False
                    q['hub'] *= v
                    q['diameter'] *= v
                    q['chord'] = {k: x * v if k != 'type' else x for k, x in q['chord'].items()}
                    if q['pitch'].get('type') == 'value':
                        q['pitch'] = dict(q['pitch'], value=q['pitch']['value'] * v)
                return f
            ladder(n + 'size', (.1, .3, .6, .85, 1.2, 1.6, 2.5, 5., 10.), size)
            ladder(n + 'hub', (.02, .05, .2, .3, .45, .6), item(p, 'hub', lambda c, p=p: p(c)['diameter'] if p(c) else 1.))

            def pitch(v, p=p):
                def f(c):
                    q = p(c)
                    if q is None:
                        return False
                    q['pitch'] = dict(q['pitch'], **v)
                return f
            ladder(n + 'pitch', [dict(type='ratio', value=x) for x in (.2, .35, .6, .75, .95, 1.15, 1.4)], pitch)
            ladder(n + 'pitch increment', [dict(pitch_increment=x) for x in (-6., -2., -.5, .5, 2., 6., 11.)], pitch)
        state = lambda k: (lambda v: PSET({k: v}))
        ladder('J', (.02, .06, .12, .18, .24, .3, .36, .43, .5, .57, .64, .71, .78, .86, .95, 1.05, 1.2), state('J'))
        ladder('rps', (12., 17., 23., 31., 42., 55., 75., 100., 140., 200., 400.), state('rot_per_sec'))
    return m
