"""C23: an airplane is what the construction calls made so far say, each call
changing what it names and nothing else.

The state is the description (plain data) and the airplane object; a
transition is one construction call. Every sequence of calls up to a length is
made on the object and on the description, and then everything the airplane
reports and everything computed from it is compared with an airplane built
anew from the description.
"""
import copy
import itertools
import numpy as np
from .. import engine, impl, menu, ref, session
from .. import spec as S

ASSUMPTIONS = ['models are made from the airplane after the calls; models made before a construction call are not asked again afterwards',
               'results are compared with a relative tolerance of 1e-9, derivatives 1e-6']
CASE_LIMIT = 120


def af_call(obj, a, end=None):
    kw = {k: a[k] for k in S.AFKEYS}
    if end is None:
        obj.airfoil(a['name'], **kw)
    else:
        obj.airfoil(a['name'], end, **kw)


def both(w):
    a = w['af'] or [dict(S.AF_DEFAULT, name='NACA2412')]
    return [a[0], a[-1]]


def set_af(i, a, end):
    def f(sp, objs):
        ws = sp['wings']
        if len(ws) <= i:
            return False
        r, t = both(ws[i])
        ws[i]['af'] = [a if end in (None, 'both', 'root') else r, a if end in (None, 'both', 'tip') else t]
        af_call(objs['wings'][i], a, end)
    return f


def set_control(i, **kw):
    def f(sp, objs):
        if len(sp['wings']) <= i:
            return False
        sp['wings'][i]['control'] = S.control(kw['percent_span'], kw['percent_chord'], kw['mix'], bool(kw.get('sealed', True)))
        objs['wings'][i].control_surface(**copy.deepcopy(kw))
    return f


def cg(**kw):
    def f(sp, objs):
        for k, j in (('x_coord', 0), ('y_coord', 1), ('z_coord', 2)):
            if kw.get(k) is not None:
                sp['cg'][j] = kw[k]
        objs['plane'].cg_location(**kw)
    return f


def lengths(**kw):
    def f(sp, objs):
        sp['lat'], sp['lon'] = kw.get('lateral'), kw.get('longitudinal')
        objs['plane'].set_reference_lengths(**kw)
    return f


def more_wing(parent=None, **kw):
    def f(sp, objs):
        n = len(sp['wings'])
        if n > 6:
            return False
        if parent is not None:
            if len(sp['wings']) <= parent or not ref_ok(sp, parent, kw.get('side', 'both')):
                return False
        w = S.wing('new%d' % n, parent=parent, **copy.deepcopy(kw))
        sp['wings'].append(w)
        objs['wings'].append(objs['plane'].add_wing(w['name'], **S.wing_args(sp, w)))
        for a, end in zip(w['af'][:1], ['both']):
            af_call(objs['wings'][-1], a, end)
    return f


def ref_ok(sp, parent, side):
    return sp['wings'][parent]['side'] in ('both', side)


def more_prop(**kw):
    def f(sp, objs):
        n = len(sp['props'])
        if n > 3:
            return False
        p = S.prop('newp%d' % n, nodes=5, **copy.deepcopy(kw))
        sp['props'].append(p)
        objs['props'].append(objs['plane'].add_prop(p['name'], **S.prop_args(p)))
        for a in p['af']:
            af_call(objs['props'][-1], a)
    return f


def prop_af(i, a, station=None):
    """An airfoil of a known name replaces the earlier one."""
    def f(sp, objs):
        if len(sp['props']) <= i:
            return False
        d = dict(a) if station is None else dict(a, span_position=station)
        p = sp['props'][i]
        names = [x['name'] for x in p['af']]
        p['af'] = list(p['af'])
        if a['name'] in names:
            p['af'][names.index(a['name'])] = d
        else:
            p['af'].append(d)
        if len(p['af']) > 1 and any('span_position' not in x for x in p['af']):
            return False
        kw = {k: a[k] for k in S.AFKEYS}
        if station is not None:
            kw['span_position'] = station
        objs['props'][i].airfoil(a['name'], **kw)
    return f


def fly(sp, objs):
    """Make a model and use it: the airplane stays as it is."""
    if not any(w['is_main'] for w in sp['wings']) and (sp['wings'] or not sp['props']):
        return False
    m = impl.MU.MachUp(inputAirplane=objs['plane'])
    m.solve(dict(V_mag=20., rho=.002, alpha=3., roll_rate=.2), dict(flap=12., aileron=3.), dict(J=.4))
    if sp['wings']:
        m.derivatives(dict(V_mag=20., rho=.002), dict(flap=12.), dict(J=.4))


def look(sp, objs):
    """Ask for everything the airplane reports."""
    reported(objs['plane'])


OPS = {
    'cg x': cg(x_coord=-.3), 'cg x 0': cg(x_coord=0.), 'cg y z': cg(y_coord=.2, z_coord=-.15), 'cg z 0': cg(z_coord=0), 'cg': cg(x_coord=.1, y_coord=-.1, z_coord=.3), 'cg none': cg(),
    'lateral': lengths(lateral=7.), 'longitudinal': lengths(longitudinal=.9), 'both lengths': lengths(lateral=6., longitudinal=1.1), 'no lengths': lengths(),
    'airfoil B': set_af(0, S.AF_B, None), 'airfoil A both': set_af(0, S.AF_A, 'both'), 'root C': set_af(0, S.AF_C, 'root'), 'tip B': set_af(0, S.AF_B, 'tip'), 'second wing C': set_af(1, S.AF_C, 'both'),
    'second wing tip A': set_af(1, S.AF_A, 'tip'),
    'surface': set_control(0, percent_span=(.3, .8), percent_chord=.25, mix={'aileron': 1., 'flap': .5}),
    'unsealed surface': set_control(0, percent_span=[.1, .95], percent_chord=(.2, .35), mix={'elevator': 1.}, sealed=False),
    'second wing surface': set_control(1, percent_span=(0., 1.), percent_chord=.3, mix={'rudder': -1., 'flap': 1.}, sealed=1),
    'winglet': more_wing(0, semispan=.8, dihedral=50., sweep=10., root_chord=.6, is_main=0, grid=2, pos=[-.1, .02, 0.]),
    'tail': more_wing(pos=[-4., 0., .3], semispan=1.4, grid=2, is_main=0, mount=-1.), 'second main wing': more_wing(pos=[2., .1, -.4], side='right', semispan=2., grid=2, sweep=6.),
    'no airfoil wing': more_wing(pos=[-2., 0., .9], semispan=1.2, grid=2, af=[], yoffset=.2),
    'propeller': more_prop(pos=[.9, .4, .1], rot='CW'), 'far propeller': more_prop(pos=[-3., -2., 0.], orient=[4., 3.], af=[S.AF_B]),
    'propeller airfoil again': prop_af(0, dict(S.AF_C, name='NACA2412')), 'propeller root': prop_af(0, dict(S.AF_B, name='NACA2412'), 'root'), 'propeller tip': prop_af(0, dict(S.AF_C, name='tip foil'), 'tip'),
    'fly': fly, 'look': look}


def empty():
    return menu.situation(S.plane(), dict(V_mag=24., rho=.0021, alpha=4., beta=2., pitch_rate=.2), dict(aileron=4., elevator=-5., rudder=3., flap=8.), dict(J=.45))


def one_wing():
    c = empty()
    c['spec']['wings'].append(S.wing('main', grid=3, sweep=8., tip_chord=.7, dihedral=4.))
    return c


def two_wings_and_propeller():
    c = one_wing()
    c['spec']['wings'].append(S.wing('aft', side='left', grid=2, pos=[-3., .2, .4], semispan=1.5, is_main=0, af=[S.AF_B]))
    c['spec']['props'].append(S.prop('p', pos=[.7, 1.2, .1], nodes=5))
    c['spec']['cg'] = [-.1, 0., .05]
    return c


BASES = {'nothing': empty, 'one wing': one_wing, 'wings and propeller': two_wings_and_propeller}
SHORT = ['cg x', 'cg x 0', 'cg y z', 'both lengths', 'lateral', 'airfoil B', 'root C', 'tip B', 'surface', 'unsealed surface', 'winglet', 'second main wing', 'propeller', 'propeller airfoil again', 'fly']


def spaces(tier):
    q = tier == 'quick'
    bases = list(BASES)

    def seq(base, *names):
        return dict(base=base, calls=[n for n in names])
    out = [engine.Product('no call', [('airplane', bases[1:])], lambda b: seq(b)),
           engine.Product('one call', [('airplane', bases), ('call', list(OPS))], seq),
           engine.Product('two calls', [('airplane', bases)] + [('call %d' % i, list(OPS)) for i in (1, 2)], seq),
           engine.Product('three calls', [('airplane', bases[2:] if q else bases)] + [('call %d' % i, SHORT if q else list(OPS)) for i in (1, 2, 3)], seq)]
    if not q:
        out.append(engine.Product('four calls', [('airplane', bases[2:])] + [('call %d' % i, SHORT) for i in (1, 2, 3, 4)], seq))
    return out


# -------------------------------------------------------------- observation

def reported(a):
    """What the airplane says about itself."""
    out = dict(cg=[float(x) for x in a.get_cg_location()], lat=a.get_lat_ref(), lon=a.get_long_ref(), units=a.get_units(), sections=a.get_num_sections(), segments=[], props=[])
    for s in a.get_wingsegments():
        d = dict(name=s.name, side=s.get_side(), sections=s.get_num_sections(), span=s.get_span(), chord=list(s.get_chord()), mount=s.get_mounting_angle(), washout=s.get_washout(),
                 dihedral=s.get_dihedral(), sweep=s.get_sweep(), mix=list(s.get_control_mix()), cspan=list(s.get_control_surface_span()), cchord=list(s.get_control_surface_chord()),
                 sealed=bool(s.is_control_surface_sealed()), tip=[float(x) for x in s.get_position(s.get_side() + '_tip')])
        d['airfoils'] = [airfoil_reported(x) for x in s.get_airfoils()]
        out['segments'].append(d)
    ps = a.get_props()
    for p in (ps.values() if isinstance(ps, dict) else ps):
        out['props'].append(dict(name=p.name, pos=[float(x) for x in p.get_position()], orient=[float(x) for x in p.get_orientation()], nodes=p.get_number_of_nodes(), diameter=p.get_diameter(),
                                 hub=p.get_hub_diameter(), blades=p.get_num_of_blades(), rot=p.get_rot_dir(), pitch=p.get_pitch_info(), chord=p.get_chord_info(), motor=p.get_motor_info(),
                                 airfoils=[airfoil_reported(x) for x in p.get_airfoils().values()]))
    return out


def airfoil_reported(x):
    return dict(name=x.get_name(), alpha_L0=x.get_zero_lift_alpha(), CL_alpha=x.get_lift_slope(), CL_max=x.get_max_lift(), Cm_L0=x.get_zero_lift_moment(), Cm_alpha=x.get_moment_slope(),
                CD=list(x.get_drag_coefficients()), station=x.get_span_position())


def said(sp):
    """The same from the description."""
    def af(a, station=True):
        return dict(name=a['name'], alpha_L0=a['alpha_L0'], CL_alpha=a['CL_alpha'], CL_max=a['CL_max'], Cm_L0=a['Cm_L0'], Cm_alpha=a['Cm_alpha'], CD=[a['CD0'], a['CD0_L'], a['CD0_L2']],
                    station=a.get('span_position') if station else None)
    out = dict(cg=list(sp['cg']), lat=sp['lat'], lon=sp['lon'], units=sp['units'], sections=0, segments=[], props=[])
    for i, w in enumerate(sp['wings']):
        for side in (('left', 'right') if w['side'] == 'both' else (w['side'],)):
            c = w['control'] or dict(span=[0., 1.], chord=[0., 0.], mix={}, sealed=True)
            ch = [c['chord']] * 2 if isinstance(c['chord'], float) else list(c['chord'])
            mix = [c['mix'].get(k, 0.) for k in ('aileron', 'elevator', 'rudder', 'flap')]
            span = list(c['span'])
            if side == 'left':
                mix = [-mix[0], mix[1], -mix[2], mix[3]]
                span, ch = [1. - span[1], 1. - span[0]], ch[::-1]
            out['segments'].append(dict(name=side + '_' + w['name'], side=side, sections=w['grid'], span=w['semispan'], chord=[w['root_chord'], w['tip_chord']], mount=w['mount'], washout=w['washout'],
                                        dihedral=w['dihedral'], sweep=w['sweep'], mix=mix, cspan=span, cchord=ch, sealed=c['sealed'], tip=[float(x) for x in ref.tip_of(sp, i, side)],
                                        airfoils=[af(a, False) for a in both(w)]))
            out['sections'] += w['grid']
    for p in sp['props']:
        out['props'].append(dict(name=p['name'], pos=list(p['pos']), orient=list(p['orient']), nodes=p['nodes'], diameter=p['diameter'], hub=p['hub'], blades=p['blades'],
                                 rot=1. if p['rot'] in ('CCW', 'ccw', 1) else -1., pitch=p['pitch'], chord=p['chord'], motor=p['motor'], airfoils=[af(a) for a in p['af']]))
    return out


def flown(plane, c, sp):
    if not sp['wings'] and not sp['props']:
        return 'nothing to fly'
    a, k, p = copy.deepcopy([c['aero'], c['ctrl'], c['prop']])
    out = {}
    try:
        m = impl.MU.MachUp(inputAirplane=plane)
        out['solve'] = m.solve(a, k, p)
        if sp['wings']:
            out['derivatives'] = m.stability_derivatives(a, k, p)
            out['wing'] = m.distributions(a, k, p)[0]
            out['rates'] = m.damping_derivatives(a, k, p) if len(sp['props']) == 0 else None
    except (RuntimeError, ZeroDivisionError, ValueError) as e:
        out['error'] = type(e).__name__
    return out


_want = {}


def check(c, ctx):
    b = BASES[c['base']]()
    sp = b['spec']
    with impl.quiet():
        plane = S.build_api(dict(sp, wings=[], props=[]))
        objs = dict(plane=plane, wings=[], props=[])
        for w in sp['wings']:
            objs['wings'].append(plane.add_wing(w['name'], **S.wing_args(sp, w)))
            af_call(objs['wings'][-1], w['af'][0], 'both')
        for p in sp['props']:
            objs['props'].append(plane.add_prop(p['name'], **S.prop_args(p)))
            af_call(objs['props'][-1], p['af'][0])
        for n in c['calls']:
            if OPS[n](sp, objs) is False:
                raise engine.Degenerate('not possible here')
    if sp['wings'] and not any(w['is_main'] for w in sp['wings']):
        raise engine.Degenerate('no reference area')
    with impl.quiet():
        got = reported(plane)
    d = session.differs(got, said(sp), 1e-12, 'reported')
    if d:
        ctx.fail(d)
    with impl.quiet():
        got = flown(plane, b, sp)
        key = engine.canon(sp)
        if key not in _want:
            _want[key] = flown(S.build_api(sp), b, sp)
    want = _want[key]
    if 'error' in want:
        ctx.fail('raised %s' % want['error'])
    for k in (want if isinstance(want, dict) else ()):
        d = session.differs(got.get(k), want[k], 1e-6 if k in ('derivatives', 'rates') else 1e-9, k)
        if d:
            ctx.fail(d)
    ctx.traces += 2
    ctx.saw([str(want)[:1500]])
