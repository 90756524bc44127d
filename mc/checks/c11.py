"""C11: every way of setting a propeller reaches the operating point it names."""
import math
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import compare_part, ei_from, rows, solve_parts

ASSUMPTIONS = ['the rotation rate reached is read from the blade distributions (advance angle, or induced velocity without airspeed)',
               'power and throttle large enough to turn the propeller']

MOTOR2 = dict(S.MOTOR, motor_kv=420., motor_resistance=.06, motor_no_load_current=1.1, gear_reduction=2.2,
              battery_resistance=.035, battery_voltage=30., speed_control_resistance=.01)
SHAPES = {
    'base': dict(),
    'wide': dict(blades=3, diameter=2.2, hub=.3, nodes=18, pitch=dict(type='ratio', value=.9), chord=dict(type='elliptical', root=.2),
                 af=[dict(S.AF_C, span_position='root'), dict(S.AF_B, span_position='tip')]),
    'small': dict(blades=2, diameter=.8, hub=.08, nodes=11, pitch=dict(type='value', value=.35), chord=dict(type='linear', root=.07, tip=.04),
                  orient=[3., -4.], rot='CW'),
}


def P(n0, f=.04):
    return ('power', n0, f)


def entry(e, p, rho, V):
    """A propeller state; powers are given by the rotation rate they roughly
    correspond to."""
    if isinstance(e, tuple):
        return dict(brake_power=e[2] * rho * p['diameter'] ** 5 * e[1] ** 3)
    return e


def single(shape, motor, units, V, alpha, rho, state, rot):
    p = S.prop('p', **dict(SHAPES[shape], motor=dict(motor) if motor else {}))
    p['rot'] = rot
    if units is not None and len(p['af']) != 1:
        p['af'] = [dict(S.AF_C)]          # a file names airfoils without stations
    if isinstance(state, dict) and 'J' in state and V == 0. and 'rot_per_sec' not in state:
        return None
    if isinstance(state, dict) and 'J' in state and V == 0. and state['J'] != 0.:
        return None                       # no such flight
    if isinstance(state, dict) and state.get('J') == 0. and V != 0.:
        return None
    if state is None and V == 0.:
        return None
    if isinstance(state, dict) and 'electric_throttle' in state and (units is None or not motor):
        return None
    sp = S.plane(props=[p], cg=(.2, 0., -.1), units=units)
    return menu.situation(sp, dict(V_mag=V, rho=rho, alpha=alpha, beta=-2.), None, entry(state, p, rho, V))


def several(first, second, common, V, wing):
    sp = S.plane(wings=[S.wing('main', grid=3)] if wing else [],
                 props=[S.prop('one', pos=[.8, 1.5, 0.], motor=dict(S.MOTOR), nodes=12),
                        S.prop('two', pos=[.7, -1.4, .1], rot='CW', motor=MOTOR2, nodes=14, diameter=1.9),
                        S.prop('three', pos=[-2., .1, .3], motor=dict(S.MOTOR), nodes=10, diameter=1.)],
                 units='English')
    rho = .0021
    st = {}
    if common is not None:
        st.update(entry(common, sp['props'][2], rho, V))
    if first is not None:
        st['one'] = entry(first, sp['props'][0], rho, V)
    if second is not None:
        st['two'] = entry(second, sp['props'][1], rho, V)
    if common is None:
        if first is None and second is None:
            st = None
        else:
            st['three'] = dict(J=.55)
            for n in ('one', 'two'):
                st.setdefault(n, dict(rot_per_sec=33.))
    return menu.situation(sp, dict(V_mag=V, rho=rho, alpha=2.), None, st)


def spaces(tier):
    q = tier == 'quick'
    states = [None, dict(J=.2), dict(J=.5), dict(J=.85), dict(J=0., rot_per_sec=25.), dict(J=.5, rot_per_sec=99.),
              dict(rot_per_sec=20.), dict(rot_per_sec=75)]
    powers = [P(10.), P(30.), P(90., .02), P(200.)]
    thr = [dict(electric_throttle=t) for t in (.35, .6, .8, 1., 1)]
    if not q:
        states += [dict(J=j) for j in (.05, .1, .35, .65, 1.1)] + [dict(rot_per_sec=r) for r in (6., 12., 150.)]
        powers += [P(n, f) for n in (15., 22., 45., 65., 130.) for f in (.01, .08)]
        thr += [dict(electric_throttle=t) for t in (.45, .52, .7, .9, .95)]
    Vs = [0., 6., 15., 40.] if q else [0., 3., 6., 10., 15., 25., 40., 70.]
    ax = [('shape', list(SHAPES)), ('motor', [None, S.MOTOR, MOTOR2]), ('units', [None, 'English', 'SI']),
          ('V', Vs), ('alpha', [0., 5.]), ('rho', [.0023769] if q else [.0023769, .0015]), ('state', states + powers + thr),
          ('rot', ['CCW', 'CW'] if not q else ['CCW'])]
    e = [None, dict(J=.3), dict(rot_per_sec=40.), P(45.), dict(electric_throttle=.7)]
    return [engine.Product('one propeller', ax, single),
            engine.Product('several propellers', [('first', e), ('second', e), ('common', e), ('V', [0., 18.] if q else [0., 9., 18., 35.]),
                                                  ('wing', [False, True])], several_ok)] + [
            engine.Product('ladder of %s' % w, [('base', LBASES), ('shape', list(SHAPES)), ('what', [w]), ('value', list(vs))], ladder) for w, vs in LADDERS]


def scaled_size(p, k):
    for key in ('diameter', 'hub'):
        p[key] *= k
    p['chord'] = {n: v * k if n != 'type' else v for n, v in p['chord'].items()}
    if p['pitch'].get('type') == 'value':
        p['pitch'] = dict(p['pitch'], value=p['pitch']['value'] * k)


def ladder(base, shape, what, value):
    """One quantity of the propeller, its motor, its state or the flight far
    from the usual values."""
    kind, state, V = base
    c = single(shape, MOTOR2 if kind == 'SI' else S.MOTOR, kind, V, 2., .0023769, state, 'CCW')
    if c is None:
        return None
    p = c['spec']['props'][0]
    if what == 'V':
        c['aero']['V_mag'] = value
    elif what == 'rho':
        c['aero']['rho'] = value
    elif what in ('alpha', 'beta'):
        c['aero'][what] = value
    elif what == 'size':
        scaled_size(p, value)
    elif what == 'pitch':
        p['pitch'] = dict(type='ratio', value=value)
    elif what in ('blades', 'nodes'):
        p[what] = value
    elif what == 'J':
        if V == 0.:
            return None
        c['prop'] = dict(J=value)
    elif what == 'rps':
        c['prop'] = dict(rot_per_sec=value)
    elif what == 'power':
        c['prop'] = entry(P(value), p, c['aero']['rho'], V)
    elif what == 'electric_throttle':
        c['prop'] = {what: value}
    else:
        p['motor'] = dict(p['motor'])
        p['motor'][what] *= value
    if isinstance(state, tuple) and what in ('V', 'rho', 'size', 'blades', 'pitch'):
        c['prop'] = entry(state, p, c['aero']['rho'], V)
    return c


LADDERS = [('V', (.3, 1., 2.5, 4.5, 9., 12., 20., 30., 55., 90., 140.)), ('rho', (1e-5, .0004, .001, .004, .02, .2, 1.2, 5.)),
           ('alpha', (-60., -20., -3., 8., 30., 70.)), ('beta', (-60., -20., -6., 1., 12., 40.)),
           ('size', (.15, .4, .7, 1.3, 2., 4.)), ('pitch', (.3, .4, .6, .7, .8, 1., 1.2)), ('blades', (1, 2, 3, 4, 5, 6)), ('nodes', (5, 8, 10, 13, 19, 25, 40)),
           ('J', (.03, .08, .13, .17, .22, .27, .33, .39, .44, .48, .53, .58, .63, .68, .74, .8, .9, 1.)),
           ('rps', (3., 8., 13., 18., 24., 35., 45., 55., 65., 80., 110., 160., 250., 400.)),
           ('power', (7., 12., 18., 27., 38., 55., 75., 110., 160., 260.)),
           ('electric_throttle', (.3, .33, .38, .42, .47, .55, .63, .67, .73, .77, .83, .87, .93, .97, .99)),
           ('motor_kv', (.5, .7, .9, 1.2, 1.6)), ('motor_resistance', (.1, .5, 2., 5.)), ('motor_no_load_current', (0., .3, 2., 4.)),
           ('gear_reduction', (.5, .7, 1.5, 3., 6.)), ('battery_resistance', (0., .3, 3., 8.)), ('battery_voltage', (.6, .8, 1.3, 2.)),
           ('speed_control_resistance', (0., .3, 5., 20.))]
LBASES = [('English', dict(J=.5), 15.), ('English', dict(rot_per_sec=40.), 15.), ('English', P(60.), 15.), ('SI', P(60.), 12.), ('SI', dict(electric_throttle=.8), 12.),
          ('English', dict(electric_throttle=.8), 15.), ('English', dict(electric_throttle=.9), 0.), ('SI', P(40.), 0.), ('SI', dict(rot_per_sec=30.), 0.)]


def several_ok(first, second, common, V, wing):
    c = several(first, second, common, V, wing)
    if V == 0.:
        st = c['prop']
        es = [st] + ([] if st is None else [st.get(n) for n in ('one', 'two', 'three') if n in st])
        if st is None or any(isinstance(x, dict) and 'J' in x for x in es):
            return None
    if V == 0. and wing:
        return None
    return c


def check(c, ctx):
    sp, aero, prop = c['spec'], c['aero'], c['prop']
    m = impl.model(sp)
    tot, parts = solve_parts(m, aero, None, prop)
    _, pd = impl.call(m, 'distributions', aero, None, prop)
    ctx.traces += 2
    pl = ref.props(sp)
    eis = ei_from(pd, [p.name for p in pl])
    V, rho = aero['V_mag'], aero['rho']
    rot, explicit = {}, {}
    for p in pl:
        i = rows(pd, p.name)
        if not ctx.equal('nodes', len(i), p.n_nodes):
            return
        st = ref.prop_entry(prop, p.name)
        einf = np.radians(np.asarray(pd['advance_angle'], float)[i])
        Jz = np.tan(einf) * math.pi * p.z
        if V == 0.:
            ctx.close('advance angle without airspeed', einf, 0. * einf, 1., 1e-12)
            e = eis[p.name]
            vi = np.asarray(pd['Vi'], float)[i]
            k = int(np.argmax(np.abs(np.sin(e))))
            n, J = float(vi[k] / (2. * math.pi * p.r[k] * math.sin(e[k]))), 0.
        else:
            ctx.close('one advance ratio along the blade', Jz, Jz[0] + 0. * Jz, Jz[0], 1e-9)
            J = float(Jz[0])
            n = V / (J * p.d)
        rot[p.name] = n
        explicit[p.name] = dict(rot_per_sec=n)
        wn, wJ = p.rotation(aero, st)
        if wn is not None:
            ctx.close('%s rotation rate' % p.name, n, wn, wn, 1e-9)
            ctx.close('%s advance ratio' % p.name, J, wJ, 1., 1e-9)
        k = p.loads(aero, n, J, eis[p.name])
        # the induced velocities carry the rotation rate as well
        s = np.max(np.abs(k['Vi'])) + 1e-9
        ctx.close('%s induced velocity' % p.name, np.asarray(pd['Vi'], float)[i], k['Vi'], s, 1e-7)
        if wn is None and 'brake_power' in st:
            ctx.close('%s shaft power' % p.name, 2. * math.pi * n * k['Q'], st['brake_power'], st['brake_power'], 1e-6)
        elif wn is None:
            want = p.motor_torque(n, st['electric_throttle'])
            ctx.close('%s shaft torque' % p.name, k['Q'], want, abs(want) + abs(k['Q']), 1e-6)
            ctx.true('%s turns backwards' % p.name, n > 0.)
    want = ref.solve(sp, aero, None, prop, ei=eis, rot={k: rot[k] for k in rot}, plist=pl)
    got = parts['prop_results']['total']
    compare_part(ctx, 'propellers', got, want['prop'], want['fs'], want['ms'], 1e-6)
    # the same rotation rates given explicitly
    ex = explicit[pl[0].name] if len(pl) == 1 else explicit
    t2, parts2 = solve_parts(impl.model(sp), aero, None, ex)
    ctx.traces += 1
    compare_part(ctx, 'with the rotation rate given', parts2['prop_results']['total'], {k: got[k] for k in want['prop']},
                 want['fs'], want['ms'], 1e-6)
    compare_part(ctx, 'total with the rotation rate given', t2, {k: tot[k] for k in tot}, want['fs'], want['ms'], 1e-6)
    ctx.saw([round(float(x), 7) for x in list(rot.values()) + [tot['FX'], tot['MX']]])
