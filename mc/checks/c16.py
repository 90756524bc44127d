"""C16: trim and target-lift answers achieve what was asked, or failure is
reported."""
import math
import os
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import load_json, scales

ASSUMPTIONS = ['a returned answer is flown on a model of its own; C05 to C14 decide whether those forces are right',
               'targets produced by an ordinary attitude (angle of attack within 10 degrees, elevator within 9) must be reached; '
               'other targets may be reported as failures',
               'the tolerance of target_lift is in degrees, that of pitch_trim in force and moment, as the code and its documentation have it']
CASE_LIMIT = 180


def trimmer():
    c = menu.rich()
    c['aero'] = dict(V_mag=32., rho=.0021, beta=-1.)
    c['ctrl'] = dict(aileron=2., flap=3.)
    return c


def elevon():
    c = menu.plain()
    c['spec'] = S.plane(wings=[S.wing('main', sweep=25., washout=2., tip_chord=.6, grid=7,
                                      control=S.control((.45, .95), (.3, .3), {'elevator': 1., 'aileron': 1.}))], cg=(-.6, 0., .1))
    c['aero'] = dict(V_mag=25., rho=.0023)
    c['ctrl'] = dict(aileron=1.)
    return c


def propelled():
    c = menu.propped()
    c['ctrl'] = dict(aileron=2.)
    return c


BASES = {'plain': menu.plain, 'half': menu.half, 'conventional': trimmer, 'flying wing': elevon, 'propelled': propelled}


def lift(base, goal, how, rates, dev):
    start, error = how
    c = BASES[base]()
    c['aero'].pop('alpha', None)
    if start is not None:
        c['aero']['alpha'] = start
    c['aero'].update(rates)
    return apply(c, dev, dict(kind='lift', goal=goal, error=error))


def trim(base, goal, how, rates, dev):
    start, error = how
    c = BASES[base]()
    c['aero'].pop('alpha', None)
    if start is not None:
        c['aero']['alpha'] = start
        c['ctrl'] = dict(c['ctrl'] or {}, elevator=7.)
    c['aero'].update(rates)
    return apply(c, dev, dict(kind='trim', goal=goal, error=error))


def apply(c, dev, extra):
    f = dict(DEVS, **LOADS)[dev]
    if f is not None and f(c) is False:
        return None
    c.update(extra)
    return c


DEVS = {'as is': None, 'cg aft': menu.SPEC(cg=[-.9, 0., .1]), 'fast': menu.A(V_mag=60.), 'slip': menu.A(beta=5.), 'thin air': menu.A(rho=.0011),
        'heavy air': menu.A(rho=.02), 'flaps': menu.C(flap=12.), 'twist': menu.W(0, washout=4.), 'mount': menu.W(0, mount=5.),
        'dihedral': menu.W(0, dihedral=20.), 'sweep': menu.W(0, sweep=35.), 'one surface': menu.W(0, control=None), 'power': menu.PSET(dict(rot_per_sec=35.)),
        'more power': menu.PSET(dict(J=.3)), 'oblique props': menu.P(0, orient=[12., 9.]), 'airfoil C': menu.W(0, af=[S.AF_C]),
        'symmetric airfoil': menu.W(0, af=[S.AF_ZERO])}
LOADS = {'large loads': lambda c: c['aero'].update(rho=4., V_mag=110.), 'small loads': lambda c: c['aero'].update(rho=1e-4, V_mag=6.)}


def spaces(tier):
    q = tier == 'quick'
    rates = [{}, {'pitch_rate': .3}, {'roll_rate': .4, 'pitch_rate': -.2, 'yaw_rate': .3}]
    devs = list(DEVS)
    lg = [('at', a) for a in (-6., 0., 3., 9.)] + [('zero',), ('times', 40.), ('times', -40.)]
    if not q:
        lg = [('at', a) for a in (-9., -6., -2., -.2, -.1, 0., .1, 1., 3., 6., 9.)] + [('zero',)] + [('times', t) for t in (6., 15., 40., -15., -40.)]
    tg = [('at', a, e) for a, e in ((0., 0.), (4., -5.), (-3., 6.))] + [('moment', 2., 2., .1), ('times', 40.), ('zero',)]
    if not q:
        tg += [('at', a, e) for a in (-6., 1., 8.) for e in (-8., -1., 4., 9.)] + [('times', 8.), ('times', -40.), ('moment', 5., -3., -.4), ('moment', 0., 0., .05)]
    # start of the search and tolerance
    how = [(None, None), (-.2, 1e-5)] if q else [(None, None), (None, 1e-3), (None, 1e-6), (2., None), (-.2, None), (-.2, 1e-5), (0., 1e-8), (-7., 1e-3), (11., None)]
    hot = how if q else how[:6]
    return [engine.Product('target lift', [('base', list(BASES)), ('goal', lg), ('how', how), ('rates', rates[:2] if q else rates), ('change', devs)], lift),
            engine.Product('pitch trim', [('base', list(BASES)), ('goal', tg), ('how', hot), ('rates', rates[::2] if q else rates), ('change', devs)], trim),
            engine.Product('far lift', [('kind', ['lift']), ('base', ['conventional', 'propelled']), ('goal', [('at', 3.)] if q else [('at', 3.), ('at', -7.), ('times', 40.)]),
                                        ('error', [None] if q else [None, 1e-2, 1e-6]), ('change', list(FAR))], far),
            engine.Product('far trim', [('kind', ['trim']), ('base', ['conventional', 'propelled']), ('goal', [('at', 3., -4.)] if q else [('at', 3., -4.), ('at', -2., 5.), ('times', 40.)]),
                                        ('error', [1e-7] if q else list(ERRORS)), ('change', list(FAR))], far),
            engine.Product('tolerances of trim', [('base', [b for b in BASES if b not in ('plain', 'half')]), ('goal', [('at', 3., -4.), ('at', -5., 6.), ('moment', 2., 2., .1)]),
                                                  ('error', TRIM_ERRORS), ('change', ['as is', 'heavy air'] + list(LOADS) if q else devs + list(LOADS))], tolerance('trim')),
            engine.Product('tolerances of lift', [('base', list(BASES)), ('goal', [('at', 4.), ('at', -7.), ('zero',)]), ('error', LIFT_ERRORS),
                                                  ('change', ['as is'] + list(LOADS) if q else devs + list(LOADS))], tolerance('lift'))]


TRIM_ERRORS = [x * 10. ** k for k in range(-7, 4) for x in (1., 2., 5.)]
LIFT_ERRORS = [x * 10. ** k for k in range(-8, 0) for x in (1., 3.)]


def tolerance(kind):
    def make(base, goal, error, dev):
        c = BASES[base]()
        c['aero'].pop('alpha', None)
        return apply(c, dev, dict(kind=kind, goal=goal, error=error))
    return make


ERRORS = (1., .1, 1e-2, 1e-4, 1e-6)


def far(kind, base, goal, error, dev):
    """Flight conditions and shapes far from the usual ones. The tolerance of
    a trim is given as a fraction of the dynamic pressure."""
    c = BASES[base]()
    c['aero'].pop('alpha', None)
    f = FAR[dev]
    if f(c) is False:
        return None
    if error is not None and kind == 'trim':
        error = error * .5 * c['aero']['rho'] * c['aero']['V_mag'] ** 2
    c.update(kind=kind, goal=goal, error=error)
    return c


FAR = {}
for _t in [t for t in menu.extreme_menu() if t[0] not in ('alpha',)] + menu.ladder_menu(every=5):
    if _t[0] not in ('l alpha', 'l elevator', 'l grid', 'l prop 0 nodes', 'l prop 1 nodes'):
        FAR[_t[1]] = _t[2]


def attempt(m, name, *args):
    try:
        return impl.call(m, name, *args), None
    except (RuntimeError, ArithmeticError, np.linalg.LinAlgError) as e:
        return None, '%s: %s' % (type(e).__name__, e)


def check(c, ctx):
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'], c['prop']
    g = ref.grid(sp)
    goal, error = c['goal'], c['error']
    u, v, rho = ref.wing_state(g, dict(aero, alpha=2.))
    ref.lifting_line(g, u, v, rho, ctrl)        # refuses degenerate geometry
    judge = impl.model(sp)

    def fly(alpha, elevator=None):
        a, k = dict(aero, alpha=alpha), dict(ctrl or {})
        if elevator is not None:
            k['elevator'] = elevator
        return impl.call(judge, 'solve', a, k, prop)

    has_elevator = any(w['control'] and w['control']['mix'].get('elevator') for w in sp['wings'])
    probe = fly(5.)
    fs, ms = scales(probe)
    ordinary = goal[0] == 'at'
    if goal[0] == 'at':
        t = fly(*goal[1:])
        L, mt = t['FL'], t['MY']
    elif goal[0] == 'moment':
        t = fly(goal[1], goal[2])
        L, mt = t['FL'], t['MY'] + goal[3] * g.sref * .5 * aero['rho'] * aero['V_mag'] ** 2 * .1
    elif goal[0] == 'zero':
        L, mt = 0., 0.
    else:
        L, mt = goal[1] * fs, 0.
    kw = () if error is None else (error,)
    err = 1e-9 if error is None else error
    m = impl.model(sp)
    path = S.scratch_file('.json')
    ctx.traces += 4
    if c['kind'] == 'lift':
        res, why = attempt(m, 'target_lift', L, aero, ctrl, prop, None, *kw)
        res_f, why_f = attempt(m, 'target_lift', L, aero, ctrl, prop, path, *kw)
        ctx.true('failed in spite of a file name: %s' % why_f, res_f is not None)
        data = load_json(path) if os.path.exists(path) else None
        if res is None:
            ctx.true('no failure in the file', data is not None and 'error' in data)
            if ordinary and abs(probe['FL'] - fly(4.)['FL']) > 1e-3 * fs:
                ctx.fail('reachable lift %g (%s) was not found: %s' % (L, goal, why))
            ctx.saw(['none'])
        else:
            if not ctx.equal('file', data, engine.jsonable(res)):
                return
            x = res['alpha']
            ctx.equal('answer with a file name', engine.jsonable(res_f), engine.jsonable(res))
            if not np.isfinite(x):
                ctx.fail('angle of attack is %s' % x)
                return
            h = max(10. * err, 1e-4)
            got = fly(x)['FL']
            slope = max(abs(fly(x + h)['FL'] - got), abs(got - fly(x - h)['FL'])) / h
            ctx.close('lift at the answer', got, L, slope * err + 1e-9 * (fs + abs(L)), 1.)
            ctx.saw([round(x, 6)])
    else:
        # the moment target is tested as a keyword by C03
        res, why = attempt(m, 'pitch_trim', L, mt, aero, ctrl, prop, None, *kw)
        res_f, why_f = attempt(m, 'pitch_trim', L, mt, aero, ctrl, prop, path, *kw)
        data = load_json(path) if os.path.exists(path) else None
        if res is None:
            ctx.true('no failure reported', why is not None)
            singular = why is not None and 'LinAlg' in why
            ctx.true('no failure in the file', singular or (data is not None and 'error' in data))
            if ordinary and has_elevator and reachable(fly, goal, fs, ms, err):
                ctx.fail('reachable trim %s was not found: %s' % (goal, why))
            ctx.saw(['none'])
        else:
            ctx.equal('file', data, engine.jsonable(res))
            ctx.equal('answer with a file name', engine.jsonable(res_f), engine.jsonable(res))
            got = fly(res['alpha'], res['elevator'])
            f2, m2 = scales(got)
            ctx.close('lift at the answer', got['FL'], L, err + 1e-10 * (fs + f2), 1.)
            ctx.close('pitching moment at the answer', got['MY'], mt, err + 1e-10 * (ms + m2 + f2), 1.)
            if not has_elevator:
                o = fly(0., 0.)
                ctx.true('an airplane without an elevator was trimmed', abs(o['FL'] - L) <= err and abs(o['MY'] - mt) <= err)
            ctx.saw([round(res['alpha'], 6), round(res['elevator'], 6)])


def reachable(fly, goal, fs, ms, err):
    """Ordinary targets on airplanes whose elevator is effective and whose
    forces are large compared with rounding."""
    a, e = goal[1], goal[2]
    d = 1.
    fa, fb = fly(a - d, e), fly(a + d, e)
    ga, gb = fly(a, e - d), fly(a, e + d)
    J = np.array([[fb['FL'] - fa['FL'], gb['FL'] - ga['FL']], [fb['MY'] - fa['MY'], gb['MY'] - ga['MY']]]) / (2. * d)
    return np.linalg.cond(J) < 300. and err > 1e-11 * (fs + ms)
