"""Sessions: several models alive at once and calls on them.

A session is described by a world (which models exist) and a list of
operations (object, method, arguments, whether a file is asked for). The
functions here run operations, compare their outcomes and take a digest of
everything a session remembers, so that sessions can be explored like the
state graph of a protocol.
"""
import copy
import hashlib
import json
import os
import pickle
import struct
import sys
import traceback
import types
import numpy as np
from . import impl, menu, ref
from . import spec as S


# ------------------------------------------------------------------- worlds

def small(c, nodes=5, grid=3):
    for w in c['spec']['wings']:
        w['grid'] = min(w['grid'], grid)
    for p in c['spec']['props']:
        p['nodes'] = nodes
    return c


def motor_plane():
    c = menu.propped()
    c['spec']['units'] = 'English'
    for p in c['spec']['props']:
        p['motor'] = dict(S.MOTOR)
    return c


def no_tail():
    c = menu.plain()
    c['spec']['wings'][0]['control'] = S.control((.3, .9), (.2, .3), {'aileron': 1., 'flap': .6})
    return c


def another(make):
    """An airplane of the same layout and with the same names, but other
    numbers."""
    def f():
        c = make()
        sp = c['spec']
        sp['cg'] = [x + .11 for x in sp['cg']]
        for i, w in enumerate(sp['wings']):
            w['semispan'] *= 1.3
            w['sweep'] += 4.
            w['mount'] -= 1.5
            w['root_chord'] *= .8
            w['af'] = [dict(a, CL_alpha=a['CL_alpha'] * .9, alpha_L0=a['alpha_L0'] - .02, CD0=.02) for a in w['af']]
        for p in sp['props']:
            p['diameter'] *= .85
            p['pos'] = [p['pos'][0] + .2, p['pos'][1] * .9, p['pos'][2] - .1]
            p['af'] = [dict(a, CL_alpha=a['CL_alpha'] * .9, CD0=.02) for a in p['af']]
        return c
    return f


MAKE = {'wings': menu.rich, 'left half': menu.half, 'propped': menu.propped, 'motors': motor_plane, 'props': menu.prop_only,
        'no tail': no_tail, 'plain': menu.plain, 'other wings': another(menu.rich), 'other propped': another(menu.propped),
        'other props': another(menu.prop_only), 'other motors': another(motor_plane)}


def specs():
    return {k: small(f())['spec'] for k, f in MAKE.items()}


def world(kinds):
    """The objects of a session. 'x' is a MachUp model of airplane x, 'x&' a
    second model of the same Airplane object, 'x!' a wing model and 'x^' a
    propeller model used directly."""
    sp = specs()
    planes, objs = {}, []
    with impl.quiet():
        for k in kinds:
            base = k.rstrip('&!^')
            if k[-1] not in '&!^' or base not in planes:
                planes[base] = S.build(sp[base])
            if k.endswith('!'):
                objs.append(impl.machup.LLModel(planes[base]))
            elif k.endswith('^'):
                pts = ref.grid(sp[base]).r if sp[base]['wings'] else None
                objs.append(impl.machup.PropsSolver(planes[base], pts))
            else:
                objs.append(impl.MU.MachUp(inputAirplane=planes[base]))
    return objs


# --------------------------------------------------------------- arguments

def local_field(n):
    f = np.empty((n, 4))
    f[:, 0] = .0019 + .0001 * np.arange(n)
    f[:, 1:] = [-25., 1., -2.]
    f[:, 1] -= np.arange(n)
    return f


AERO = {
    'none': None,
    'a': dict(V_mag=30., rho=.0022, alpha=3.),
    'b': dict(V_mag=21., rho=.0011, alpha=-2., beta=5., roll_rate=.4, pitch_rate=.2, yaw_rate=-.3),
    'b+': dict(V_mag=21.004, rho=.0011002, alpha=-2.0004, beta=5.001, roll_rate=.40008, pitch_rate=.20004, yaw_rate=-.30006),
    'b-': dict(V_mag=21., rho=.0011, alpha=-2.00000003, beta=5., roll_rate=.4, pitch_rate=.20000001, yaw_rate=-.3),
    'still': dict(V_mag=30., rho=.0022, beta=-4.),
    'no rho': dict(V_mag=30., alpha=1.),
    'no V': dict(rho=.0022, alpha=1., beta=2.),
    'words': dict(V_mag='fast', rho=.0022, alpha=1.),
}
CTRL = {'none': None, 'c': dict(aileron=4., elevator=-6., rudder=5., flap=15.), 'd': dict(elevator=3.), 'e': dict(flap=-12., rudder=2.),
        'e+': dict(flap=-12.003, rudder=2.), 'c-': dict(aileron=4., elevator=-6.0000001, rudder=5., flap=15.)}
PROP = {'none': None, 'J': dict(J=.3), 'J+': dict(J=.30004), 'J-': dict(J=.300000004), 'rps': dict(rot_per_sec=38.), 'own': {'right_p': dict(J=.6), 'p': dict(J=.7), 'left_p': dict(rot_per_sec=25.)},
        'power': dict(brake_power=900.), 'throttle': dict(electric_throttle=.6), 'bad': dict(speed=3.), 'J0': dict(J=0.),
        'huge': dict(brake_power=-1e30), 'one bad': {'right_p': dict(J=.2), 'left_p': dict(nothing=1.), 'p': {'x': 1}}}


def stated(table, key):
    """A state by its name; 'a@5' is the fifth of many states like 'a'."""
    if '@' not in key:
        return copy.deepcopy(table.get(key))
    base, k = key.split('@')
    k = int(k)

    def vary(d, i=1):
        return {n: vary(v, i + 2) if isinstance(v, dict) else v * (1. + .013 * k * (1 + i % 2)) for i, (n, v) in enumerate(d.items(), i)}
    return vary(table[base])


def every_run(n, k):
    """A sequence of 0..n-1 in which every k-tuple occurs exactly once as a
    run of neighbours (n ** k + k - 1 entries): a circuit along all edges of
    the graph whose nodes are the tuples of k - 1."""
    left, out = {}, []
    stack = [(0,) * (k - 1)]
    while stack:
        a = stack[-1]
        todo = left.setdefault(a, list(range(n)))
        if todo:
            stack.append((a + (todo.pop(),))[1:])
        else:
            out.append(stack.pop())
    out.reverse()
    return list(out[0]) + [a[-1] for a in out[1:]]


def arguments(kind, op):
    """The caller's states for one operation, newly made."""
    aero = stated(AERO, op['aero'])
    if op['aero'] == 'field':
        n = 2 * sum(w['grid'] if w['side'] == 'both' else w['grid'] / 2. for w in specs()[kind.rstrip('&!^')]['wings'])
        aero = dict(local_state=local_field(int(n)), V_mag=24., rho=.002, alpha=2., pitch_rate=.1)
    if op['aero'] == 'field mean':
        n = 2 * sum(w['grid'] if w['side'] == 'both' else w['grid'] / 2. for w in specs()[kind.rstrip('&!^')]['wings'])
        aero = dict(local_state=local_field(int(n)))
    return [aero, stated(CTRL, op['ctrl']), stated(PROP, op['prop'])]


LEAD = {'target_lift': [3.], 'target_lift~': [.2], 'target_lift!': [1e7], 'pitch_trim': [3., 0.], 'pitch_trim~': [.25, 0.], 'pitch_trim!': [1e7, 0.],
        'stall_airspeed': [60.]}


class Faults:
    """Watches the lines of the package that a call passes and makes the n-th
    of these steps fail. Without n it only notes the place of every step."""

    def __init__(self, n=None):
        self.n, self.seen, self.count = n, [], 0

    def __enter__(self):
        sys.settrace(self.enter)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)

    def enter(self, frame, event, arg):
        if impl.inside(frame.f_code.co_filename):
            return self.step

    def step(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.n is None:
                self.seen.append((frame.f_code.co_filename, frame.f_lineno))
            elif self.count == self.n:
                sys.settrace(None)
                raise Interrupted()
        return self.step


def fault_points(seen, most):
    """Numbers of the steps to fail: of every line of the package the first
    `most` times it is passed and the last."""
    at = {}
    for i, place in enumerate(seen):
        at.setdefault(place, []).append(i + 1)
    return sorted({i for v in at.values() for i in v[:most] + v[-1:]})


def op(obj, method, aero='none', ctrl='none', prop='none', file=None, stop=None):
    """One call. With `stop` the k-th solution made on the way fails."""
    d = dict(obj=obj, method=method, aero=aero, ctrl=ctrl, prop=prop, file=file)
    if stop:
        d['stop'] = stop
    return d


class Interrupted(Exception):
    """A failure put in the way of an analysis."""


def interrupt(obj, k):
    """Make the k-th solution from now on fail."""
    left = [k]
    real = obj.solve

    def solve(*args, **kw):
        left[0] -= 1
        if left[0] == 0:
            raise Interrupted()
        return real(*args, **kw)
    obj.solve = solve


def failing(objs, kinds, o, k=None, args=None):
    """Run one call whose k-th step fails. Without k it runs through and the
    steps are returned."""
    path = S.scratch_file('.stl' if o['method'] == 'create_stl' else o['file']) if o['file'] else None
    try:
        with Faults(k) as f:
            perform(objs[o['obj']], kinds[o['obj']], o, args, path)
    finally:
        if path and os.path.exists(path):
            os.remove(path)
    return f.seen


def name(o):
    s = '%s.%s(%s,%s,%s)' % (o['obj'], o['method'], o['aero'], o['ctrl'], o['prop'])
    return s + ('>file' if o['file'] else '') + (' stopped at solution %d' % o['stop'] if o.get('stop') else '')


def perform(obj, kind, o, args=None, path=None):
    """Run one operation: its outcome and the raw value returned."""
    a = arguments(kind, o) if args is None else args
    method = o['method'].rstrip('!~')
    if o['file'] and path is None:
        path = S.scratch_file('.stl' if method == 'create_stl' else o['file'])
    if o.get('stop'):
        interrupt(obj, o['stop'])
    try:
        if kind.endswith('!'):
            raw = impl.call_raw(obj, 'solve', 'linear' if o['method'] == 'solve' else 'nonlinear', a[0], a[1])
        elif kind.endswith('^'):
            raw = impl.call_raw(obj, 'solve', a[0], a[2])
        elif method == 'create_stl':
            raw = impl.call_raw(obj, method, path)
        elif method in ('stability_derivatives', 'damping_derivatives', 'control_derivatives'):
            raw = impl.call_raw(obj, method, *a)
        else:
            raw = impl.call_raw(obj, method, *(LEAD.get(o['method'], []) + a + ([path] if path else [])))
        out = ['value', copy.deepcopy(raw)]
    except Exception as e:
        raw = None
        out = ['error', type(e).__name__]
    finally:
        if o.get('stop'):
            obj.__dict__.pop('solve', None)
    if path:
        text = None
        if os.path.exists(path):
            body = open(path, 'rb').read()
            if method == 'create_stl':
                text = np.frombuffer(body[84:len(body) - (len(body) - 84) % 50], dtype=np.uint8).reshape(-1, 50)[:, 12:48].copy().view('<f4').astype(float)
            else:
                text = parse(body.decode('utf8', 'replace'))
            os.remove(path)
        out.append(text)
    return out, raw


def parse(text):
    try:
        d = json.loads(text)
        if isinstance(d, dict) and set(d) == {'data'}:
            return words(d['data'].replace('newline', '\n'))
        return d
    except ValueError:
        return words(text)


def words(text):
    out = []
    for w in text.split():
        try:
            out.append(float(w))
        except ValueError:
            out.append(w)
    return out


# --------------------------------------------------------------- comparison

TOL = {'solve': 1e-9, 'distributions': 1e-9, 'create_stl': 1e-6}


def differs(got, want, tol, what='result'):
    """None or where two outcomes differ. Numbers are compared on the scale
    of the container they are in."""
    if isinstance(want, dict):
        if not isinstance(got, dict) or list(map(str, sorted(got, key=str))) != list(map(str, sorted(want, key=str))):
            return '%s has entries %s instead of %s' % (what, _keys(got), _keys(want))
        num = [k for k in want if isinstance(want[k], (int, float, np.floating, np.integer)) and not isinstance(want[k], bool)]
        fin = [abs(float(want[k])) for k in num if np.isfinite(float(want[k]))]
        scale = max(fin + [1e-6])
        for k in want:
            if k in num:
                r = number(got[k], want[k], tol * scale, '%s %s' % (what, k))
            else:
                r = differs(got[k], want[k], tol, '%s %s' % (what, k))
            if r:
                return r
        return None
    if isinstance(want, np.ndarray) and want.dtype.kind in 'fiu':
        g = np.asarray(got)
        if g.shape != want.shape or g.dtype.kind not in 'fiu':
            return '%s has shape %s instead of %s' % (what, g.shape, want.shape)
        if not want.size:
            return None
        fin = np.abs(want[np.isfinite(want)])
        t = tol * max(float(np.max(fin)) if fin.size else 0., 1e-6)
        with np.errstate(all='ignore'):
            bad = ~((np.abs(g - want) <= t) | (g == want) | (np.isnan(g) & np.isnan(want)))
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(bad)), bad.shape)
            return '%s%s is %.15g instead of %.15g' % (what, list(map(int, i)), g[i], want[i])
        return None
    if isinstance(want, np.ndarray):
        return differs(np.asarray(got).tolist(), want.tolist(), tol, what)
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple, np.ndarray)) or len(got) != len(want):
            return '%s has %s entries instead of %d' % (what, len(got) if hasattr(got, '__len__') else 'no', len(want))
        nums = [abs(float(x)) for x in want if isinstance(x, (float, int, np.floating)) and np.isfinite(x)]
        scale = max(nums + [1e-6])
        for i, (g, w) in enumerate(zip(got, want)):
            if isinstance(w, (int, float, np.floating, np.integer)) and not isinstance(w, bool):
                r = number(g, w, tol * scale, '%s[%d]' % (what, i))
            else:
                r = differs(g, w, tol, '%s[%d]' % (what, i))
            if r:
                return r
        return None
    if isinstance(want, (float, np.floating)):
        return number(got, want, tol * max(abs(float(want)), 1e-6), what)
    if type(got) is not type(want) or got != want:
        return '%s is %.200r instead of %.200r' % (what, got, want)
    return None


def _keys(d):
    return sorted(map(str, d)) if isinstance(d, dict) else type(d).__name__


def number(g, w, tol, what):
    try:
        g, w = float(g), float(w)
    except (TypeError, ValueError):
        return '%s is %r instead of %r' % (what, g, w)
    if g == w or abs(g - w) <= tol or (np.isnan(g) and np.isnan(w)):
        return None
    return '%s is %.15g instead of %.15g' % (what, g, w)


def tolerance(o):
    return TOL.get(o['method'], 1e-6)


# ------------------------------------------------------------------- digest

def digest(roots):
    """Digest of everything reachable from the given objects and of the
    module level state of the package."""
    h = hashlib.sha1()
    seen = {}
    stack = list(reversed(roots))
    pkg = sorted(k for k in sys.modules if k == 'machup' or k.startswith('machup.'))
    mods = [sys.modules[k] for k in pkg]

    def put(x):
        h.update(x if isinstance(x, bytes) else str(x).encode('utf8', 'replace'))
        h.update(b'\0')

    def walk(x, depth=0):
        if x is None or isinstance(x, (bool, int, str, bytes, complex)):
            put(type(x).__name__ + ':' + repr(x))
            return
        if isinstance(x, float):
            put(b'f' + struct.pack('<d', x))
            return
        if id(x) in seen:
            put('ref%d' % seen[id(x)][0])
            return
        if isinstance(x, np.generic):
            put(b'g' + x.tobytes())
            return
        seen[id(x)] = (len(seen), x)
        if isinstance(x, np.ndarray):
            if x.dtype.kind == 'O':
                put('objs%s' % (x.shape,))
                for y in x.ravel().tolist():
                    walk(y, depth + 1)
            else:
                put('array%s%s' % (x.shape, x.dtype))
                put(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, dict):
            put('dict%d' % len(x))
            for k in x:
                walk(k, depth + 1)
                walk(x[k], depth + 1)
        elif isinstance(x, (list, tuple)):
            put('%s%d' % (type(x).__name__, len(x)))
            for y in x:
                walk(y, depth + 1)
        elif isinstance(x, (set, frozenset)):
            put('set%d' % len(x))
            for y in sorted(x, key=repr):
                walk(y, depth + 1)
        elif isinstance(x, types.MethodType):
            put('method ' + x.__name__)
            walk(x.__self__, depth + 1)
        elif isinstance(x, types.FunctionType):
            put('function ' + x.__qualname__)
            if (x.__module__ or '').startswith('machup'):
                walk(x.__defaults__, depth + 1)
                walk(x.__kwdefaults__, depth + 1)
                walk({k: v for k, v in x.__dict__.items() if k != '__wrapped__'}, depth + 1)
            for c in x.__closure__ or ():
                try:
                    walk(c.cell_contents, depth + 1)
                except ValueError:
                    put('empty cell')
        elif isinstance(x, type):
            put('class ' + x.__qualname__)
            if (x.__module__ or '').startswith('machup'):
                for k in sorted(x.__dict__):
                    if not k.startswith('__'):
                        put(k)
                        walk(x.__dict__[k], depth + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            walk(x.__func__, depth + 1)
        elif isinstance(x, property):
            walk([x.fget, x.fset], depth + 1)
        elif isinstance(x, types.ModuleType):
            put('module ' + x.__name__)
        elif hasattr(x, '__dict__'):
            put('object ' + type(x).__qualname__)
            if type(x).__module__.startswith(('machup', 'scipy.interpolate', 'collections')) or True:
                for k in sorted(x.__dict__):
                    put(k)
                    walk(x.__dict__[k], depth + 1)
                for cls in type(x).__mro__:
                    for k in getattr(cls, '__slots__', ()) if isinstance(getattr(cls, '__slots__', ()), (list, tuple)) else ():
                        if hasattr(x, k):
                            walk(getattr(x, k), depth + 1)
        else:
            put('other ' + type(x).__qualname__)

    sys.setrecursionlimit(20000)
    for r in stack:
        walk(r)
    for m in mods:
        put('module ' + m.__name__)
        for k in sorted(m.__dict__):
            v = m.__dict__[k]
            if k.startswith('__') or isinstance(v, types.ModuleType):
                continue
            if isinstance(v, (type, types.FunctionType)) and not (v.__module__ or '').startswith('machup'):
                continue
            if not isinstance(v, (type, types.FunctionType, dict, list, tuple, set, np.ndarray, int, float, str, bool, type(None))) \
                    and not type(v).__module__.startswith('machup'):
                continue
            put(k)
            walk(v)
    return h.digest()


# ------------------------------------------------------------------ forking

def start(fn):
    """Begin computing fn() in a child process that is thrown away, so that
    nothing it does is remembered here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn()))
            except BaseException as e:
                data = pickle.dumps(('bad', traceback.format_exc() + '\n' + repr(e)))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def finish(job):
    pid, r = job
    try:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
    except BaseException:
        try:
            os.kill(pid, 9)
        finally:
            os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('a child process died')
    tag, value = pickle.loads(data)
    if tag != 'ok':
        raise RuntimeError(value)
    return value


def forked(fn):
    return finish(start(fn))


def forked_each(fns, width):
    """Values of the functions in order, at most `width` at a time."""
    jobs, fns = [], list(fns)
    try:
        for fn in fns[:width]:
            jobs.append(start(fn))
        for fn in fns[width:] + [None] * min(width, len(fns)):
            yield finish(jobs.pop(0))
            if fn is not None:
                jobs.append(start(fn))
    finally:
        for pid, r in jobs:
            os.close(r)
            os.kill(pid, 9)
            os.waitpid(pid, 0)


def expectation(kinds, o):
    """Outcome of one operation on newly made objects, in a process of its
    own. Only the object concerned is made."""
    def fn():
        return perform(world([kinds[o['obj']]])[0], kinds[o['obj']], o)[0]
    return forked(fn)
