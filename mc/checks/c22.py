"""C22: invalid requests are rejected and never silently answered."""
import copy
import json
import os
from .. import engine, impl, menu, session
from .. import spec as S

ASSUMPTIONS = ['rejecting means raising an exception or, where a file was asked for, writing only an error into it']
CASE_LIMIT = 120

ANALYSES = ['solve', 'distributions', 'derivatives', 'stability_derivatives', 'damping_derivatives', 'control_derivatives', 'target_lift', 'pitch_trim',
            'stall_onset', 'stall_airspeed', 'find_aero_center']
NOFILE = ('stability_derivatives', 'damping_derivatives', 'control_derivatives')
LEAD = {'target_lift': [3.], 'pitch_trim': [3.], 'stall_airspeed': [40.]}


def motors():
    """Motors, but no units."""
    c = menu.propped()
    for p in c['spec']['props']:
        p['motor'] = dict(S.MOTOR)
    return c


def one_motor():
    """Units, but the second propeller has no motor."""
    c = menu.propped()
    c['spec']['units'] = 'English'
    c['spec']['props'][0]['motor'] = dict(S.MOTOR)
    return c


def unpowered():
    """Units, but no motors."""
    c = menu.propped()
    c['spec']['units'] = 'SI'
    return c


def prop_motor():
    c = menu.prop_only()
    c['spec']['props'][0]['motor'] = dict(S.MOTOR)
    return c


BASES = {'rich': menu.rich, 'half': menu.half, 'propped': menu.propped, 'prop only': menu.prop_only, 'motors': motors, 'one motor': one_motor,
         'unpowered': unpowered, 'prop motor': prop_motor}


def without(*keys):
    def f(c):
        for k in keys:
            c['aero'].pop(k, None)
        if not c['aero']:
            return False
    return f


def prop(state, on=None):
    def f(c):
        names = [p['name'] for p in c['spec']['props']]
        if not names or (on and on != sorted(names)):
            return False
        c['prop'] = copy.deepcopy(state)
    return f


def throttle(state):
    """A throttle setting that at least one propeller cannot follow."""
    def f(c):
        ps = c['spec']['props']
        if not ps or (c['spec']['units'] is not None and all(p['motor'] for p in ps)):
            return False
        c['prop'] = copy.deepcopy(state)
    return f


def still(f):
    def g(c):
        c['aero']['V_mag'] = 0.
        return f(c)
    return g


TWO = ['left_p', 'right_p']
REQUESTS = [
    ('no airspeed', without('V_mag')), ('no density', without('rho')), ('neither', without('V_mag', 'rho')),
    ('no airspeed, alpha only', lambda c: c.update(aero=dict(alpha=2.))), ('density only', lambda c: c.update(aero=dict(rho=.002))),
    ('airspeed only', lambda c: c.update(aero=dict(V_mag=20.))),
    ('unknown propeller key', prop(dict(rpm=2000.))), ('misspelt key', prop(dict(j=.4))), ('misspelt power', prop(dict(break_power=10.))),
    ('unknown propeller', prop(dict(nobody=dict(J=.3)))), ('other propeller missing', prop(dict(right_p=dict(J=.3)), TWO)),
    ('other propeller missing 2', prop(dict(left_p=dict(rot_per_sec=30.)), TWO)), ('one entry unusable', prop(dict(left_p=dict(speed=3.), J=.4), TWO)),
    ('first entry unusable', prop(dict(right_p=dict(speed=3.), J=.4), TWO)),
    ('J 0', prop(dict(J=0.))), ('J 0 (int)', prop(dict(J=0))), ('J 0 for one', prop(dict(left_p=dict(J=0.), J=.4), TWO)), ('J 0 and power', prop(dict(J=0., brake_power=5.))),
    ('J without airspeed', still(prop(dict(J=.4)))), ('J for one without airspeed', still(prop(dict(right_p=dict(J=.4), left_p=dict(rot_per_sec=20.)), TWO))),
    ('throttle', throttle(dict(electric_throttle=.6))), ('throttle for both', lambda c: throttle(dict(right_p=dict(electric_throttle=.5), left_p=dict(electric_throttle=.7)))(c) if len(c['spec']['props']) == 2 else False),
    ('throttle and no airspeed', still(throttle(dict(electric_throttle=.6)))),
]

for _k, _s in (('rotation rate', dict(rot_per_sec=30.)), ('power', dict(brake_power=20.)), ('J and rotation rate', dict(J=.4, rot_per_sec=30.)),
               ('own entries', dict(left_p=dict(J=.5), right_p=dict(rot_per_sec=25.), p=dict(J=.6))), ('no propeller state', None)):
    def _f(c, s=_s, keys=()):
        if not c['spec']['props']:
            return False
        for k in keys:
            c['aero'].pop(k, None)
        c['prop'] = copy.deepcopy(s)
    for _m in (('V_mag',), ('rho',)):
        REQUESTS.append(('no %s with %s' % (_m[0], _k), lambda c, f=_f, m=_m: f(c, keys=m)))
REQUESTS += [('no %s, no controls' % k, lambda c, k=k: (c['aero'].pop(k), c.update(ctrl=None))[1]) for k in ('V_mag', 'rho')]


def request(base, what, analysis, file, before):
    c = session.small(BASES[base](), 5, 3)
    if dict(REQUESTS)[what](c) is False:
        return None
    if file and analysis in NOFILE:
        return None
    c.update(mode='request', base=base, what=what, analysis=analysis, file=file, before=before)
    return c


def no_wings(analysis, aero, ctrl, prop, file):
    c = session.small(menu.prop_only(), 5, 3)
    if file and analysis in NOFILE:
        return None
    c['aero'] = {'none': None, 'given': c['aero']}[aero]
    c.update(ctrl=ctrl, prop=prop, mode='request', base='prop only', what='no wings', analysis=analysis, file=file, before=True)
    return c


# ----------------------------------------------------------- building models

def build_cases():
    out = {}
    for s in ('middle', '', 'Left', 'BOTH', 'right ', 'left_right', None, 1):
        out['side %r' % (s,)] = ('rich', lambda sp, s=s: sp['wings'][0].update(side=s))
        out['side %r of a later wing' % (s,)] = ('rich', lambda sp, s=s: sp['wings'][2].update(side=s))
    for p in ('constant', '', 'Ratio', 'linear', None):
        out['pitch %r' % (p,)] = ('propped', lambda sp, p=p: sp['props'][1]['pitch'].update(type=p))
    for p in ('value', '', 'Linear', 'ratio', None):
        out['chord %r' % (p,)] = ('propped', lambda sp, p=p: sp['props'][0]['chord'].update(type=p))
    out['pitch without type'] = ('prop only', lambda sp: sp['props'][0].update(pitch={'value': .5}))
    out['pitch ratio without value'] = ('prop only', lambda sp: sp['props'][0].update(pitch={'type': 'ratio'}))
    out['chord without type'] = ('prop only', lambda sp: sp['props'][0].update(chord={'root': .5}))
    out['pitch file missing'] = ('prop only', lambda sp: sp['props'][0].update(pitch={'type': 'from_file', 'filename': '/nonexistent/pitch.txt'}))
    out['chord file missing'] = ('prop only', lambda sp: sp['props'][0].update(chord={'type': 'from_file', 'filename': '/nonexistent/chord.txt'}))
    out['attached to nothing there'] = ('rich', lambda sp: sp['wings'][0].update(side='left') or sp['wings'][1].update(side='right'))
    out['attached to one half'] = ('rich', lambda sp: sp['wings'][0].update(side='right'))
    return out


def bad_location(where, both):
    def f(a):
        a.add_wing('parent', semispan=3., grid=2)
        a.add_wing('child', connect_to=('parent', where), side='both' if both else 'left', semispan=1., grid=2)
    return f


CONNECT = {}
for _w in ('root', 'middle', '', 'Tip', 'left_tip', 'right_tip', 'tips'):
    CONNECT['at %r' % _w] = bad_location(_w, True)
    CONNECT['at %r one side' % _w] = bad_location(_w, False)
CONNECT['unknown wing'] = lambda a: a.add_wing('w', connect_to=('nobody', 'tip'), semispan=3., grid=2)
CONNECT['unknown wing beside'] = lambda a: (a.add_wing('v', semispan=3., grid=2), a.add_wing('w', connect_to=('u', 'tip'), semispan=3., grid=2))

FILES = {
    'missing file': None, 'folder': 'folder', 'empty file': '', 'not JSON': 'plane: x', 'cut off': 'cut', 'a list': '[1, 2]', 'no plane': ('plane',), 'no reference': ('reference',),
}
UNITS = ('metric', '', 'ENGLISH', 'imperial', 'SI ', 'feet', 5)


def spaces(tier):
    q = tier == 'quick'
    out = [engine.Product('requests', [('base', list(BASES)), ('request', [r[0] for r in REQUESTS]), ('analysis', ANALYSES), ('file', [False, True]), ('earlier calls', [True] if q else [False, True])], request),
           engine.Product('no wings', [('analysis', [a for a in ANALYSES if a not in ('solve', 'distributions', 'target_lift')]), ('aero', ['none', 'given']), ('controls', [None, dict(elevator=2.)]),
                                       ('propellers', [None, dict(J=.4)]), ('file', [False, True])], no_wings)]
    bc = build_cases()

    def build(n, via):
        base, f = bc[n]
        c = session.small(BASES[base](), 5, 3)
        f(c['spec'])
        c.update(mode='build', via=via, change=n)
        return c
    out.append(engine.Product('building', [('wrong', list(bc)), ('built', ['api', 'file'])], build))
    out.append(engine.Product('connection point', [('wrong', list(CONNECT))], lambda n: dict(mode='connect', which=n)))
    out.append(engine.Product('connection in a file', [('location', ['root', 'middle', '', 'Tip', 'left_tip', None]), ('ID', [None, 77])], lambda loc, i: dict(mode='connect file', location=loc, id=i)))
    out.append(engine.Product('input file', [('wrong', list(FILES)), ('given to', ['MachUp', 'Airplane'])], lambda n, to: dict(mode='file', which=n, to=to)))
    out.append(engine.Product('units', [('units', list(UNITS)), ('base', ['rich', 'propped', 'prop only', 'motors'])], lambda u, b: dict(mode='units', units=u, base=b)))
    out.append(engine.Product('solver type', [('type', ['nonlinear', 'Linear', '', None, 'linear ', 1]), ('base', ['rich', 'half']), ('states', ['given', 'none'])], lambda t, b, s: dict(mode='solver', type=t, base=b, states=s)))
    out.append(engine.Product('blade airfoils', [('stations', [[None, None], ['root', None], [None, 'tip'], [.3, None, 'tip']]), ('units', [None])], lambda s, u: dict(mode='stations', stations=s)))

    def repair(n, good):
        return dict(mode='repair', which=n, good=good)
    out.append(engine.Product('rejected building steps', [('step', list(STEPS)), ('again', [False, True])], repair))
    return out


STEPS = {
    'unknown side': lambda a: a.add_wing('new', side='top', semispan=2., grid=2),
    'unknown parent': lambda a: a.add_wing('new', connect_to=('nobody', 'tip'), semispan=2., grid=2),
    'unknown side attached': lambda a: a.add_wing('new', connect_to=('main', 'tip'), side='Left', semispan=2., grid=2),
    'bad position': lambda a: a.add_wing('new', position=3., semispan=2., grid=2),
    'airfoil without data': lambda a: a.wings['main'].airfoil('short', alpha_L0=0.),
    'airfoil without data at the tip': lambda a: a.wings['main'].airfoil('short', 'tip', alpha_L0=0., CL_alpha=6.),
    'control surface without mix': lambda a: a.wings['main'].control_surface(percent_span=(.2, .4), percent_chord=(.2, .2)),
    'control surface without span': lambda a: a.wings['main'].control_surface(percent_chord=(.2, .2), mix={'flap': 1.}),
    'cg in words': lambda a: a.cg_location('aft'),
    'cg in words last': lambda a: a.cg_location(z_coord='low'),
}


# --------------------------------------------------------------------- check

def rejected(fn, path=None):
    """None if the request was rejected, else what was answered."""
    try:
        with impl.quiet():
            r = fn()
    except Exception:
        return None
    if path and os.path.exists(path):
        try:
            d = json.load(open(path))
        except ValueError:
            d = None
        if isinstance(d, dict) and list(d) == ['error'] and (r is None or (isinstance(r, dict) and list(r) == ['error'])):
            return None
    return 'answered %s' % str(r)[:200]


VALID = [(dict(V_mag=25., rho=.002, alpha=2., beta=-1.), dict(elevator=3., flap=5.), dict(J=.45)), (None, None, None),
         (dict(V_mag=14., rho=.001, roll_rate=.1), None, dict(rot_per_sec=30.))]


def valid(ctx, what, m, fresh, with_derivatives=True):
    """Valid requests on the model are answered as by a fresh one."""
    for i, (a, k, p) in enumerate(VALID):
        for name in ('solve', 'distributions') + (('stability_derivatives',) if with_derivatives and i == 0 else ()):
            got = impl.call(m, name, a, k, p)
            want = impl.call(fresh(), name, a, k, p)
            d = session.differs(got, want, 1e-9 if 'deriv' not in name else 1e-6, name)
            if d:
                ctx.fail('%s: valid request %d: %s' % (what, i + 1, d))
                return


def check(c, ctx):
    ctx.traces += 1
    globals()['check_' + c['mode'].replace(' ', '_')](c, ctx)
    ctx.saw([c['mode'], str(c.get('what') or c.get('which') or c.get('change') or c.get('units') or c.get('type') or c.get('location') or c.get('stations')), c.get('analysis'), c.get('base')])


def check_request(c, ctx):
    sp = c['spec']
    m = impl.model(sp)
    if c['before']:
        impl.call(m, 'solve', *VALID[2])
    path = S.scratch_file('.json') if c['file'] else None
    args = LEAD.get(c['analysis'], []) + [c['aero'], c['ctrl'], c['prop']] + ([path] if path else [])
    ans = rejected(lambda: getattr(m, c['analysis'])(*copy.deepcopy(args)), path)
    if ans:
        ctx.fail('%s with %s: %s' % (c['analysis'], c['what'], ans))
    if path and os.path.exists(path):
        os.remove(path)
    valid(ctx, 'after %s with %s' % (c['analysis'], c['what']), m, lambda: impl.model(sp), bool(sp['wings']))


def use(m):
    m.solve()
    return m.distributions(dict(V_mag=10., rho=1., alpha=1.))


def check_build(c, ctx):
    path = None
    if c['via'] == 'file':
        path = S.write_file(c['spec'], S.scratch_file())
    ans = rejected(lambda: use(impl.MU.MachUp(path) if path else impl.MU.MachUp(inputAirplane=S.build_api(c['spec']))))
    if ans:
        ctx.fail('%s: %s' % (c['change'], ans))
    if path:
        os.remove(path)


def check_connect(c, ctx):
    def fn():
        a = impl.machup.Airplane('x')
        CONNECT[c['which']](a)
        return use(impl.MU.MachUp(inputAirplane=a))
    ans = rejected(fn)
    if ans:
        ctx.fail('connection %s: %s' % (c['which'], ans))


def check_connect_file(c, ctx):
    sp = session.small(menu.rich())['spec']
    d = json.loads(json.dumps(S.file_data(sp)))
    d['wings']['tip']['connect']['location'] = c['location'] if c['location'] is not None else 'tip'
    if c['id'] is not None:
        d['wings']['tip']['connect']['ID'] = c['id']
    if c['location'] is None and c['id'] is None:
        raise engine.Degenerate('valid')
    path = S.scratch_file()
    with open(path, 'w') as f:
        json.dump(d, f)
    ans = rejected(lambda: use(impl.MU.MachUp(path)))
    os.remove(path)
    if ans:
        ctx.fail('location %r, ID %r: %s' % (c['location'], c['id'], ans))


def check_file(c, ctx):
    kind = FILES[c['which']]
    path = S.scratch_file()
    if kind == 'folder':
        os.mkdir(path)
    elif kind == 'cut':
        S.write_file(menu.rich()['spec'], path)
        text = open(path).read()
        with open(path, 'w') as f:
            f.write(text[:len(text) // 2])
    elif isinstance(kind, tuple):
        d = S.file_data(menu.rich()['spec'])
        for k in kind:
            del d[k]
        with open(path, 'w') as f:
            json.dump(d, f)
    elif kind is not None:
        with open(path, 'w') as f:
            f.write(kind)
    ans = rejected(lambda: impl.MU.MachUp(path) if c['to'] == 'MachUp' else impl.machup.Airplane(inputfile=path))
    if ans:
        ctx.fail('%s: %s' % (c['which'], ans))
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.remove(path)


def check_units(c, ctx):
    d = S.file_data(session.small(BASES[c['base']]())['spec'])
    d['condition']['units'] = c['units']
    path = S.scratch_file()
    with open(path, 'w') as f:
        json.dump(d, f)
    ans = rejected(lambda: use(impl.MU.MachUp(path)))
    os.remove(path)
    if ans:
        ctx.fail('units %r: %s' % (c['units'], ans))


def check_solver(c, ctx):
    sp = session.small(BASES[c['base']]())['spec']
    with impl.quiet():
        m = impl.machup.LLModel(S.build(sp))
    a, k = (VALID[0][0], VALID[0][1]) if c['states'] == 'given' else (None, None)
    impl.call(m, 'solve', 'linear', VALID[2][0], VALID[2][1])
    ans = rejected(lambda: m.solve(c['type'], a, k))
    if ans:
        ctx.fail('solver type %r: %s' % (c['type'], ans))
    for a, k, _ in VALID:
        with impl.quiet():
            f = impl.machup.LLModel(S.build(sp))
        d = session.differs(impl.call(m, 'solve', 'linear', a, k), impl.call(f, 'solve', 'linear', a, k), 1e-9)
        if d:
            ctx.fail('after solver type %r: %s' % (c['type'], d))


def check_stations(c, ctx):
    sp = session.small(menu.prop_only())['spec']
    afs = [S.AF_A, S.AF_B, S.AF_C]
    sp['props'][0]['af'] = [dict(a, span_position=s) if s is not None else dict(a) for a, s in zip(afs, c['stations'])]
    ans = rejected(lambda: use(impl.MU.MachUp(inputAirplane=S.build_api(sp))))
    if ans:
        ctx.fail('stations %s: %s' % (c['stations'], ans))


class Building(object):
    """An airplane under construction that remembers its wings."""

    def __init__(self):
        self.plane = impl.machup.Airplane('x')
        self.wings = {}
        self.plane.cg_location(-.1, 0., .1)
        for n, kw in (('main', dict(semispan=3., sweep=10., grid=2)), ('tail', dict(semispan=1., position=[-3., 0., 0.], is_main=0, grid=2))):
            self.wings[n] = self.plane.add_wing(n, **kw)
        self.wings['main'].control_surface(percent_span=(.3, .9), percent_chord=.2, mix={'aileron': 1.})

    def add_wing(self, *a, **kw):
        return self.plane.add_wing(*a, **kw)

    def cg_location(self, *a, **kw):
        self.plane.cg_location(*a, **kw)

    def model(self):
        with impl.quiet():
            return impl.MU.MachUp(inputAirplane=self.plane)


def check_repair(c, ctx):
    b = Building()
    ans = rejected(lambda: STEPS[c['which']](b))
    if ans:
        ctx.fail('%s: %s' % (c['which'], ans))
        return
    f = Building()
    if c['good']:
        for x in (b, f):
            x.add_wing('new', connect_to=('main', 'tip'), semispan=1., grid=2, dihedral=20.)
            x.cg_location(z_coord=.3)
    valid(ctx, 'after ' + c['which'], b.model(), f.model)
