"""C02: callers' data is never modified and returned results are snapshots.

The caller keeps one dictionary per flight, control and propeller state and
uses it for every call of a session; the results of all calls are kept, and
optionally scribbled on. Every sequence of calls is run; after every call the
dictionaries and the results kept so far must be what they were, and results
obtained after scribbling must be those of newly made models.
"""
import copy
import os
from .. import engine, session
from ..session import op

ASSUMPTIONS = ['failures inside an analysis are put in its way by letting one of its solutions fail',
               'scribbling overwrites every number and array and removes and adds entries of returned dictionaries and lists']
CASE_LIMIT = 200


def everything(q):
    """Calls of every kind on object 0."""
    A = ['solve', 'distributions', 'derivatives', 'stability_derivatives', 'damping_derivatives', 'control_derivatives', 'target_lift', 'pitch_trim']
    out = []
    for i, m in enumerate(A):
        out += [op(0, m, 'b' if m != 'pitch_trim' else 'a', 'c'), op(0, m, 'a', 'd'), op(0, m, 'still', 'none'), op(0, m, 'none', 'e')]
        out += [op(0, m, 'no rho', 'c'), op(0, m, 'no V', 'd')]
        if 'derivatives' not in m or m == 'derivatives':
            out.append(op(0, m, 'a', 'c', file='.txt' if m == 'distributions' else '.json'))
    out += [op(0, 'target_lift!', 'b', 'c'), op(0, 'pitch_trim!', 'a', 'c'), op(0, 'target_lift!', 'still', 'd', file='.json'), op(0, 'solve'),
            op(0, 'solve', 'words', 'c'), op(0, 'derivatives', 'words', 'c'), op(0, 'create_stl', file='.stl'), op(0, 'distributions', 'none', 'none', file='.json')]
    out += [op(0, 'stall_onset', 'b', 'c'), op(0, 'stall_onset', 'no rho', 'd'), op(0, 'find_aero_center', 'no V', 'c')]
    for k in range(1, 13):
        out.append(op(0, 'damping_derivatives' if k < 7 else 'derivatives', 'b', 'c', stop=k))
    for k in (1, 2, 3, 4, 5, 6, 7, 8):
        out.append(op(0, 'control_derivatives', 'a', 'd', stop=k))
    for k in (1, 2, 3, 4):
        out += [op(0, 'stability_derivatives', 'still', 'c', stop=k), op(0, 'target_lift', 'b', 'd', stop=k)]
    for k in (1, 2, 4, 6, 9, 11):
        out.append(op(0, 'pitch_trim', 'a', 'c', stop=k))
    for k in (2, 5):
        out += [op(0, 'stall_onset', 'b', 'd', stop=k), op(0, 'find_aero_center', 'a', 'c', stop=k), op(0, 'stall_airspeed', 'b', 'c', stop=k)]
    if not q:
        out += [op(0, 'find_aero_center', 'b', 'c'), op(0, 'stall_airspeed', 'a', 'd'), op(0, 'stall_onset', 'still', 'none', file='.json'),
                op(0, 'find_aero_center', 'still', 'none', file='.json')]
    return out


def propellers():
    out = []
    for p in ('J', 'own', 'rps', 'one bad', 'bad', 'power', 'throttle', 'J0'):
        out.append(op(0, 'solve', 'a', 'c', p))
    out += [op(0, 'distributions', 'b', 'd', 'own'), op(0, 'derivatives', 'a', 'c', 'own'), op(0, 'target_lift', 'a', 'd', 'J'),
            op(0, 'distributions', 'still', 'none', 'rps', file='.txt'), op(0, 'derivatives', 'still', 'd', 'one bad'), op(0, 'solve', 'no rho', 'c', 'own'),
            op(0, 'solve', 'still'), op(0, 'solve', 'b', 'e', 'own', file='.json'), op(0, 'damping_derivatives', 'b', 'd', 'own', stop=3), op(0, 'solve'),
            op(0, 'create_stl', file='.stl')]
    return out


AFTER = [op(0, 'solve', 'a', 'c'), op(0, 'solve', 'still', 'd'), op(0, 'distributions', 'b', 'none'), op(0, 'stability_derivatives', 'still', 'c'), op(0, 'solve')]


def long_ones():
    return {
        'wings': (['wings'], [op(0, 'solve', 'a', 'c'), op(0, 'solve'), op(0, 'distributions', 'b', 'd'), op(0, 'distributions', 'a', 'c', file='.json'), op(0, 'solve', 'still', 'none', file='.json'),
                              op(0, 'derivatives', 'b', 'c'), op(0, 'target_lift', 'still', 'd'), op(0, 'pitch_trim', 'a', 'c'), op(0, 'solve', 'no V', 'c'), op(0, 'control_derivatives')]),
        'propellers': (['propped'], [op(0, 'solve', 'a', 'c', 'own'), op(0, 'solve'), op(0, 'distributions', 'b', 'd', 'own'), op(0, 'distributions', 'a', 'c', 'J'),
                                     op(0, 'solve', 'still', 'd', 'one bad'), op(0, 'stability_derivatives', 'a', 'none', 'rps')]),
        'propeller only': (['props'], [op(0, 'solve', 'a', 'none', 'own'), op(0, 'solve'), op(0, 'distributions', 'b', 'none', 'J'), op(0, 'distributions', 'a', 'none', 'own'), op(0, 'solve', 'no V'),
                                       op(0, 'solve', 'still', 'none', 'power')]),
        'wing model': (['wings!'], [op(0, 'solve', a, c) for a, c in (('a', 'c'), ('none', 'none'), ('field', 'd'), ('field mean', 'c'), ('b', 'none'), ('no rho', 'd'))]),
        'propeller model': (['propped^'], [op(0, 'solve', a, 'none', p) for a, p in (('a', 'own'), ('none', 'none'), ('b', 'J'), ('still', 'rps'), ('no V', 'J'), ('a', 'one bad'))]),
        'two airplanes': (['wings', 'propped'], [op(i, m, a, c, p) for i in (0, 1) for m, a, c, p in (
            ('solve', 'a', 'c', 'own'), ('distributions', 'b', 'd', 'J'), ('solve', 'none', 'none', 'none'), ('stability_derivatives', 'still', 'c', 'own'))]),
        'one airplane twice': (['propped', 'propped&'], [op(i, m, a, c, p) for i in (0, 1) for m, a, c, p in (
            ('solve', 'a', 'c', 'own'), ('distributions', 'b', 'd', 'J'), ('solve', 'none', 'none', 'none'))]),
        'wing model beside': (['wings', 'wings!'], [op(i, m, a, c) for i in (0, 1) for m, a, c in (('solve', 'a', 'c'), ('solve', 'b', 'd'), ('solve', 'none', 'none'))]),
    }


def spaces(tier):
    q = tier == 'quick'
    out = []

    def two(kinds, first):
        def make(i, j, scribble):
            return dict(kinds=kinds, ops=[first[i], AFTER[j]], scribble=scribble)
        return [('first', list(range(len(first)))), ('then', list(range(len(AFTER)))), ('scribbling', [False, True])], make
    out.append(engine.Product('every call', *two(['wings'], everything(q)), chunk=8))
    out.append(engine.Product('every call with propellers', *two(['propped'], propellers() + ([] if q else everything(True))), chunk=4))
    out.append(engine.Product('every call without a tail', *two(['no tail'], [op(0, 'pitch_trim', 'a', 'c'), op(0, 'pitch_trim', 'b', 'd', file='.json'), op(0, 'pitch_trim', 'still')]), chunk=4))
    for n, (kinds, ops) in long_ones().items():
        depth = 3 if q else 4 if len(ops) < 9 else 3

        def make(*ix, kinds=kinds, ops=ops):
            return dict(kinds=kinds, ops=[ops[i] for i in ix[:-1]], scribble=ix[-1])
        out.append(engine.Product('sequences: ' + n, [('call %d' % (i + 1), list(range(len(ops)))) for i in range(depth)] + [('scribbling', [False, True])], make))
    lo = long_ones()
    out.append(engine.Product('long sessions', [('world', list(lo)), ('scribbling', [False, True])], lambda n, s: dict(
        kinds=lo[n][0], ops=[lo[n][1][i] for i in session.every_run(len(lo[n][1]), 2)], scribble=s), chunk=1))

    def pair(kinds, first):
        def make(i, j):
            return dict(kinds=kinds, ops=[AFTER[1], first[i]], part=j, most=1 if q else 3)
        return [('call', list(range(len(first)))), ('part', list(range(2)))], make
    calls = [op(0, m, 'b' if m != 'pitch_trim' else 'a', 'c', file=f) for m, f in (
        ('solve', None), ('distributions', None), ('solve', '.json'), ('distributions', '.txt'), ('stability_derivatives', None), ('damping_derivatives', None),
        ('control_derivatives', None), ('target_lift', None), ('pitch_trim', None))]
    more = [op(0, m, 'b', 'c', file=f) for m, f in (('derivatives', '.json'), ('stall_onset', None), ('find_aero_center', None), ('stall_airspeed', None), ('target_lift', '.json'))]
    out.append(engine.Product('failing at any step', *pair(['wings'], calls + ([] if q else more)), chunk=1))
    calls = [op(0, 'solve', 'b', 'c', p) for p in ('J', 'own', 'one bad', 'rps')] + [op(0, 'distributions', 'b', 'c', 'own'), op(0, 'damping_derivatives', 'b', 'none', 'own')]
    out.append(engine.Product('failing at any step with propellers', *pair(['propped'], calls), chunk=1))
    return out


def faults(c, ctx):
    """The second call is made to fail at every line of the package it
    passes: the caller's states and the result of the first call stay."""
    kinds, (first, bad) = c['kinds'], c['ops']

    def child():
        objs = session.world(kinds)
        _, kept = session.perform(objs[first['obj']], kinds[first['obj']], first)
        was = copy.deepcopy(kept)
        steps = session.forked(lambda: session.failing(objs, kinds, bad))
        out = []

        def one(k):
            def fn():
                args = session.arguments(kinds[bad['obj']], bad)
                before = copy.deepcopy(args)
                session.failing(objs, kinds, bad, k, args)
                return [exact(a, b) for a, b in zip(args, before)] + [exact(kept, was)]
            return fn
        points = session.fault_points(steps, c['most'])[c['part']::2]
        for k, r in zip(points, session.forked_each([one(k) for k in points], 2)):
            out.append((k, steps[k - 1], r))
            if any(r) and len([x for x in out if any(x[2])]) > 2:
                break
        return out
    for k, (f, line), r in session.forked(child):
        for what, d in zip(('aero state', 'control state', 'propeller state', 'earlier result'), r):
            if d:
                ctx.fail('after %s failed at step %d (%s, line %d) the %s: %s' % (session.name(bad), k, os.path.basename(f), line, what, d))
        ctx.traces += 1
        ctx.extra_states += 1
        ctx.note('calls_failed_at_a_step')
    ctx.saw([kinds, bad, c['part']])


def scribble(x, deep=0):
    """Overwrite everything in a returned result."""
    import numpy as np
    if isinstance(x, np.ndarray):
        try:
            if x.dtype.kind in 'fiu':
                x[...] = 12345.
            else:
                x[...] = 'zzz'
        except ValueError:
            pass                    # read only
    elif isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, tuple, np.ndarray)):
                scribble(x[k], deep + 1)
            else:
                x[k] = 12345.
        if x:
            del x[sorted(x, key=str)[0]]
        x['scribble'] = -1.
    elif isinstance(x, list):
        for y in x:
            scribble(y, deep + 1)
        x.append(-1.)
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, deep + 1)


def strip(o):
    return dict(o)


def run(c):
    """The session, in a process of its own: (texts of what went wrong,
    outcomes to be compared)."""
    kinds, ops = c['kinds'], c['ops']
    objs = session.world(kinds)
    states = {}                 # the caller's dictionaries
    kept = []
    bad, outs = [], []
    for n, o in enumerate(ops):
        args = session.arguments(kinds[o['obj']], o)
        for i, key in enumerate((('aero', o['aero'], kinds[o['obj']] if 'field' in o['aero'] else ''), ('ctrl', o['ctrl'], ''), ('prop', o['prop'], ''))):
            if key not in states:
                states[key] = (args[i], copy.deepcopy(args[i]))
            args[i] = states[key][0]
        out, raw = session.perform(objs[o['obj']], kinds[o['obj']], o, args)
        outs.append(out)
        for key, (now, was) in states.items():
            d = exact(now, was)
            if d:
                bad.append('after %s the caller\'s %s state: %s' % (session.name(o), key[0], d))
        for k, (r, was) in enumerate(kept):
            d = exact(r, was)
            if d:
                bad.append('after %s the result of %s: %s' % (session.name(o), session.name(ops[k]), d))
        if bad:
            return bad, outs
        if c['scribble']:
            scribble(raw)
            for k, (r, was) in enumerate(kept):
                d = exact(r, was)
                if d:
                    bad.append('editing the result of %s changed that of %s: %s' % (session.name(o), session.name(ops[k]), d))
            for key, (now, was) in states.items():
                d = exact(now, was)
                if d:
                    bad.append('editing the result of %s changed the caller\'s %s state: %s' % (session.name(o), key[0], d))
        kept.append((raw, copy.deepcopy(raw)))
    return bad, outs


def exact(now, was):
    """None or where something is not exactly what it was."""
    return session.differs(now, was, 0.) if type(now) is type(was) else 'it is now a %s' % type(now).__name__


_expected = {}


def expect(kinds, o):
    key = engine.canon([kinds[o['obj']], dict(o, obj=0)])
    if key not in _expected:
        _expected[key] = session.expectation(kinds, o)
    return _expected[key]


def check(c, ctx):
    if 'part' in c:
        return faults(c, ctx)
    bad, outs = session.forked(lambda: run(c))
    for b in bad:
        ctx.fail(b)
    ctx.traces += len(outs)
    if c['scribble'] and not bad:
        for n, (o, out) in enumerate(zip(c['ops'], outs)):
            if n == 0:
                continue
            d = session.differs(out, expect(c['kinds'], o), session.tolerance(o), 'result')
            if d:
                ctx.fail('after editing earlier results %s: %s' % (session.name(o), d))
    ctx.saw([c['scribble'], [o[0] for o in outs], str(outs[-1])[:2000]])
