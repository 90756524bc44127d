"""C01: results depend only on the model and the call, never on session
history.

The state graph of a session is explored until no new state appears: a state
is everything the models and the package remember (a digest of all objects
reachable from them), a transition is one call. Every transition is compared
with the same call on newly made models in a process of its own. When the
graph closes, the comparison holds for call sequences of any length over the
alphabet. Separately every sequence of a given length is run as it is.
"""
import os
import time
from .. import engine, session
from ..session import op

ASSUMPTIONS = ['what a session remembers is reachable from the model objects, the modules, classes and function defaults of the package; '
               'the plain sequences do not rely on it',
               'outcomes are compared with a relative tolerance of 1e-9 (solutions, distributions) or 1e-6 (analyses built on differences or iterations); '
               'of a failing call the kind of error is compared']
CASE_LIMIT = 800


def cross(obj, method, aeros, ctrls, props, file=None):
    return [op(obj, method, a, c, p, file) for a in aeros for c in ctrls for p in props]


def alphabets(q):
    """Session name, world, calls, most states. The quick tier leaves out the
    calls marked with thorough()."""
    out = []
    thorough = (lambda ops: []) if q else (lambda ops: ops)
    out.append(('wings', ['wings'], [
        op(0, 'solve', 'a', 'c'), op(0, 'solve'), op(0, 'solve', 'b', 'e'), op(0, 'solve', 'still'), op(0, 'solve', 'none', 'c'),
        op(0, 'solve', 'no rho', 'd'), op(0, 'solve', 'words', 'd'), op(0, 'solve', 'a', 'd', file='.json'), op(0, 'distributions', 'b', 'c'),
        op(0, 'distributions', 'none', 'none', file='.txt'), op(0, 'derivatives', 'b', 'e'), op(0, 'target_lift', 'b', 'd'),
        op(0, 'pitch_trim', 'a', 'c'), op(0, 'target_lift!', 'still', 'c'), op(0, 'derivatives', 'b', 'c', stop=3),
        op(0, 'solve', 'b+', 'e'), op(0, 'solve', 'b', 'e+')] + thorough(
        [op(0, 'solve', 'b-', 'e'), op(0, 'solve', 'b', 'c'), op(0, 'solve', 'b', 'c-'), op(0, 'distributions', 'b+', 'c')] +
        [op(0, 'derivatives', 'b', 'd', stop=k) for k in (1, 2, 7, 12)] + [op(0, 'pitch_trim', 'b', 'c', stop=4), op(0, 'stall_onset', 'a', 'e', stop=5)] +
        cross(0, 'solve', ['none', 'a', 'b', 'still'], ['d', 'e'], ['none']) + [
            op(0, 'solve', 'no V', 'c'), op(0, 'solve', 'field', 'd'), op(0, 'distributions', 'still', 'e'), op(0, 'distributions', 'no rho', 'c'),
            op(0, 'create_stl', file='.stl'), op(0, 'stability_derivatives', 'b', 'c'), op(0, 'damping_derivatives', 'a', 'd'),
            op(0, 'control_derivatives', 'b', 'c'), op(0, 'control_derivatives'), op(0, 'damping_derivatives', 'no rho', 'c'),
            op(0, 'derivatives', 'none', 'none', file='.json'), op(0, 'target_lift!', 'a', 'none', file='.json'), op(0, 'target_lift~', file='.json'),
            op(0, 'pitch_trim~', 'none', 'none', file='.json'), op(0, 'pitch_trim!', 'a', 'd')]), 4000))
    out.append(('long analyses', ['plain'], [
        op(0, 'stall_onset', 'b', 'c'), op(0, 'stall_onset', 'none', 'none', file='.json'), op(0, 'find_aero_center', 'b', 'c'),
        op(0, 'solve', 'a', 'e'), op(0, 'solve'), op(0, 'solve', 'no V', 'c')] + thorough([
            op(0, 'find_aero_center', 'none', 'none', file='.json'), op(0, 'stall_airspeed', 'a', 'd'), op(0, 'distributions', 'b', 'd')]), 400))
    if not q:
        out.append(('long analyses of a half', ['left half'], [
            op(0, 'stall_onset', 'b', 'c'), op(0, 'stall_onset', file='.json'), op(0, 'find_aero_center', 'b'), op(0, 'stall_airspeed', 'a', 'd'),
            op(0, 'derivatives', 'a', 'none'), op(0, 'solve', 'b', 'd'), op(0, 'solve')], 400))
        out.append(('long analyses with propellers', ['propped'], [
            op(0, 'stall_onset', 'b', 'c', 'J'), op(0, 'find_aero_center', 'a', 'd', 'rps'), op(0, 'derivatives', 'b', 'c', 'own'), op(0, 'solve', 'a', 'c', 'own'),
            op(0, 'solve'), op(0, 'solve', 'a', 'none', 'bad')], 60))
    out.append(('nothing to trim with', ['no tail'], [
        op(0, 'pitch_trim', 'a', 'c'), op(0, 'pitch_trim', 'a', 'c', file='.json'), op(0, 'solve', 'b', 'c'), op(0, 'solve', 'b'),
        op(0, 'distributions', 'a', 'c'), op(0, 'target_lift!', 'still', 'c', file='.json'), op(0, 'solve', 'none', 'c')], 400))
    out.append(('propellers', ['propped'], [
        op(0, 'solve', 'a', 'c', 'own'), op(0, 'solve', 'b'), op(0, 'solve', 'a', 'none', 'J'), op(0, 'solve'), op(0, 'solve', 'b', 'c', 'one bad'),
        op(0, 'solve', 'a', 'd', 'bad'), op(0, 'distributions', 'still', 'd', 'rps'), op(0, 'target_lift', 'a', 'd', 'own'), op(0, 'damping_derivatives', 'b', 'd', 'J', stop=4), op(0, 'solve', 'a', 'none', 'J+')] + thorough([
            op(0, 'solve', 'a', 'none', 'J-'), op(0, 'solve', 'b+', 'none', 'J0'), op(0, 'solve', 'b-', 'none', 'J0'),
            op(0, 'solve', 'b', 'none', 'J0'), op(0, 'solve', 'no rho', 'c', 'rps'), op(0, 'solve', 'words', 'none', 'J'),
            op(0, 'damping_derivatives', 'b', 'c', 'rps'), op(0, 'pitch_trim', 'a', 'c', 'J')]), 1200))
    if not q:
        out.append(('propellers in other calls', ['propped'], [
            op(0, 'solve', 'still', 'd', 'rps', file='.json'), op(0, 'distributions', 'b', 'c', 'J', file='.json'), op(0, 'create_stl', file='.stl'),
            op(0, 'solve', 'a', 'none', 'power'), op(0, 'solve', 'b', 'd', 'throttle'), op(0, 'control_derivatives', 'a', 'none', 'own'),
            op(0, 'stability_derivatives', 'none', 'c', 'bad'), op(0, 'solve')], 1200))
    out.append(('motors', ['motors'], [
        op(0, 'solve', 'a', 'none', 'throttle'), op(0, 'solve', 'a', 'c', 'power'), op(0, 'solve', 'a', 'd', 'huge'), op(0, 'solve', 'b', 'none', 'J')] + thorough([
            op(0, 'solve', 'b', 'c', 'power'), op(0, 'distributions', 'still', 'none', 'throttle'), op(0, 'solve'), op(0, 'solve', 'no rho', 'none', 'power')]), 1200))
    out.append(('propeller only', ['props'], cross(0, 'solve', ['a', 'b'], ['none'], ['none', 'own', 'bad', 'power']) + [
        op(0, 'solve'), op(0, 'distributions', 'a', 'none', 'J', file='.txt')] + thorough(
        cross(0, 'solve', ['none', 'no rho', 'still'], ['none'], ['own', 'bad', 'rps', 'J0']) + [
            op(0, 'create_stl', file='.stl'), op(0, 'stall_onset', 'a'), op(0, 'derivatives', 'a', file='.json')]), 1200))
    out.append(('small steps', ['wings'], [op(0, 'solve', x, y) for x, y in (('b', 'e'), ('b+', 'e'), ('b-', 'e'), ('b', 'e+'), ('b', 'c'), ('b', 'c-'))], 400))
    out.append(('wing model', ['wings!'], cross(0, 'solve', ['none', 'b', 'field', 'field mean'], ['none', 'c'], ['none']) + [
        op(0, 'solve', 'no rho', 'd'), op(0, 'unknown type', 'a', 'c')] + thorough(cross(0, 'solve', ['a', 'b', 'no V'], ['d', 'e'], ['none'])), 2000))
    out.append(('propeller model', ['propped^'], cross(0, 'solve', ['none', 'b'], ['none'], ['none', 'J', 'own', 'bad']) + thorough(
        cross(0, 'solve', ['a', 'no rho', 'no V'], ['none'], ['none', 'own', 'rps', 'power'])), 1200))
    two = []
    for i in (0, 1):
        two += [op(i, 'solve', 'a', 'c', 'own'), op(i, 'solve'), op(i, 'solve', 'no rho', 'd', 'J')] + thorough([op(i, 'solve', 'no V', 'c', 'J'), op(i, 'distributions', 'still', 'd', 'rps')])
    out.append(('two airplanes', ['wings', 'propped'], two + thorough([op(0, 'pitch_trim', 'a', 'c'), op(1, 'damping_derivatives', 'b', 'd', 'J')]), 1000))
    same = [op(i, 'solve', a, c, p) for i in (0, 1) for a, c, p in (('a', 'c', 'own'), ('b', 'none', 'J'), ('none', 'none', 'none'))]
    out.append(('airplanes of one layout', ['wings', 'other wings'], same + [op(i, 'distributions', 'a', 'c') for i in (0, 1)], 1000))
    out.append(('airplanes of one layout with propellers', ['propped', 'other propped'], same, 300 if q else 1000))
    out.append(('one airplane twice', ['propped', 'propped&'], two + thorough([op(0, 'create_stl', file='.stl')]), 1000))
    out.append(('wing model beside', ['wings', 'wings!'], [
        op(0, 'solve', 'a', 'c'), op(0, 'solve', 'none'), op(1, 'solve', 'b', 'none'), op(1, 'solve', 'none', 'c')] + thorough([
            op(0, 'distributions', 'b', 'd'), op(0, 'solve', 'no V', 'e'), op(1, 'solve', 'field mean', 'd'), op(1, 'unknown type', 'a')]), 1000))
    if not q:
        three = []
        for i in (0, 1, 2):
            three += [op(i, 'solve', 'a', 'c', 'J'), op(i, 'solve', 'b'), op(i, 'distributions', 'still', 'd', 'own')]
        out.append(('three airplanes', ['left half', 'propped', 'props'], three, 1000))
    return out


def sequences(q):
    """World, operations, length: every sequence as it is."""
    w = [op(0, 'solve', 'a', 'c'), op(0, 'solve'), op(0, 'distributions', 'b', 'd'), op(0, 'target_lift', 'still', 'none'), op(0, 'derivatives', 'b', 'none', file='.json'),
         op(0, 'solve', 'no rho', 'c'), op(1, 'solve', 'b', 'none', 'own'), op(1, 'distributions', 'a', 'c', 'rps'), op(1, 'solve', 'a', 'e', 'bad'), op(1, 'solve')]
    return [('two airplanes in sequence', ['wings', 'propped'], w, 3 if q else 4)]


def failures(q):
    """World, call before, call that fails, calls afterwards."""
    w, w2 = op(0, 'solve', 'a', 'd'), [op(0, 'solve', 'b', 'c'), op(0, 'solve'), op(0, 'solve', 'a', 'd')]
    p, p2 = op(0, 'solve', 'a', 'd', 'own'), [op(0, 'solve', 'b', 'c', 'J'), op(0, 'solve'), op(0, 'solve', 'a', 'd', 'own')]
    out = [(['wings'], w, op(0, m, 'b', 'c', file=f), w2) for m, f in (
        ('solve', None), ('distributions', None), ('solve', '.json'), ('distributions', '.txt'), ('stability_derivatives', None), ('damping_derivatives', None),
        ('control_derivatives', None), ('target_lift', None), ('create_stl', '.stl'))]
    out += [(['wings'], w, op(0, 'pitch_trim', 'a', 'c'), [op(0, 'solve', 'a', 'c')] + w2[:2])]
    out += [(['propped'], p, op(0, 'solve', 'b', 'c', x), p2) for x in ('J', 'own', 'one bad')]
    out += [(['propped'], p, op(0, 'distributions', 'b', 'c', 'J'), p2), (['motors'], p, op(0, 'solve', 'a', 'c', 'power'), p2),
            (['motors'], p, op(0, 'solve', 'a', 'c', 'throttle'), p2), (['props'], op(0, 'solve', 'b', 'none', 'own'), op(0, 'solve', 'a', 'none', 'J'),
                                                                       [op(0, 'solve', 'b', 'none', 'own'), op(0, 'solve')])]
    out += [(['wings!'], op(0, 'solve', 'a', 'd'), op(0, 'solve', 'b', 'c'), [op(0, 'solve', 'b', 'c'), op(0, 'solve'), op(0, 'solve', 'field', 'none')]),
            (['propped', 'propped&'], p, op(1, 'solve', 'b', 'c', 'J'), p2)]
    if not q:
        out += [(['plain'], w, op(0, m, 'b', 'c', file=f), w2) for m, f in (
            ('stall_onset', None), ('find_aero_center', None), ('stall_airspeed', None), ('derivatives', '.json'), ('target_lift', '.json'), ('pitch_trim', '.json'),
            ('stall_onset', '.json'), ('find_aero_center', '.json'))]
        out += [(['propped'], p, op(0, m, 'b', 'c', 'own', f), p2) for m, f in (
            ('derivatives', None), ('target_lift', None), ('distributions', '.txt'), ('create_stl', '.stl'), ('solve', '.json'))]
    return out


def spaces(tier):
    q = tier == 'quick'
    al = {a[0]: a for a in alphabets(q)}

    def make(which):
        n, kinds, ops, cap = al[which]
        return dict(mode='graph', kinds=kinds, ops=ops, cap=cap, seconds=150 if q else 600)
    out = [engine.Product('state graph', [('session', list(al))], make, chunk=1)]
    for n, kinds, ops, length in sequences(q):
        out.append(engine.Product(n, [('call %d' % (i + 1), list(range(len(ops)))) for i in range(length - 1)],
                                  lambda *ix, k=kinds, o=ops: dict(mode='sequence', kinds=k, ops=o, start=[o[i] for i in ix]), chunk=4))
    fs = failures(q)
    out.append(engine.Product('a call that fails at any step', [('call', list(range(len(fs)))), ('part', list(range(PARTS)))],
                              lambda i, j: dict(mode='failure', kinds=fs[i][0], before=fs[i][1], fails=fs[i][2], ops=fs[i][3], part=j, most=1 if q else 3), chunk=1))
    n = len(long_sessions(q))
    out.append(engine.Product('long sessions', [('session', list(range(n)))], lambda i: dict(mode='long', session=i, quick=q), chunk=1))
    out.append(engine.Product('models that come and go', [('held', [0, 1, 3])], lambda h: dict(mode='comings', held=h, quick=q), chunk=1))
    return out


PARTS = 4


def long_sessions(q):
    """World, calls in order."""
    out = []
    w = [op(0, 'solve', 'a', 'c'), op(0, 'solve'), op(0, 'solve', 'b', 'e'), op(0, 'solve', 'still', 'd'), op(0, 'solve', 'none', 'c'), op(0, 'solve', 'no rho', 'd'),
         op(0, 'distributions', 'b', 'c'), op(0, 'distributions', 'none', 'none', file='.txt'), op(0, 'stability_derivatives', 'b', 'e'), op(0, 'target_lift', 'a', 'd'),
         op(0, 'solve', 'field', 'c'), op(0, 'solve', 'a', 'e', file='.json')]
    p = [op(0, 'solve', 'a', 'c', 'own'), op(0, 'solve', 'b', 'none', 'J'), op(0, 'solve'), op(0, 'solve', 'a', 'd', 'bad'), op(0, 'distributions', 'still', 'd', 'rps'),
         op(0, 'solve', 'b', 'c', 'one bad'), op(0, 'stability_derivatives', 'a', 'none', 'own')]
    m = [op(0, 'solve', 'a', 'none', 'throttle'), op(0, 'solve', 'b', 'c', 'power'), op(0, 'solve'), op(0, 'solve', 'still', 'd', 'J')]
    for kinds, ops in ((['wings'], w), (['propped'], p), (['motors'], m), (['props'], [dict(o, ctrl='none') for o in p]),
                       (['wings!'], [op(0, 'solve', a, c) for a in ('none', 'b', 'field', 'field mean', 'no V') for c in ('none', 'c')]),
                       (['wings', 'propped', 'left half'], [dict(o, obj=i) for i in range(3) for o in p[:3]]),
                       (['motors', 'other motors'], [dict(o, obj=i) for i in range(2) for o in m]),
                       (['propped', 'propped&'], [dict(o, obj=i) for i in range(2) for o in p[:4]])):
        out.append((kinds, [ops[i] for i in session.every_run(len(ops), 2 if q or len(ops) > 8 else 3)]))
    n = 40 if q else 150
    for kinds, make in ((['wings'], lambda k: op(0, 'solve', 'b@%d' % k, 'c@%d' % (k % 7))), (['wings'], lambda k: op(0, 'solve', 'b', 'c@%d' % k)),
                        (['wings'], lambda k: op(0, 'distributions', 'still@%d' % k, 'd')), (['propped'], lambda k: op(0, 'solve', 'a', 'none', 'own@%d' % k)),
                        (['propped'], lambda k: op(0, 'solve', 'b@%d' % k, 'c', 'J')), (['motors'], lambda k: op(0, 'solve', 'a@%d' % k, 'none', 'power@%d' % k)),
                        (['wings!'], lambda k: op(0, 'solve', 'a@%d' % k, 'e@%d' % k))):
        there = list(range(n))
        out.append((kinds, [make(k) for k in there + there + there[::-1]]))
    return out


def comings(q):
    """Kinds of models made, used and dropped in turn."""
    kinds = ['wings', 'other wings', 'propped', 'other propped', 'props', 'other props'] + ([] if q else ['motors', 'other motors', 'left half', 'wings!'])
    return [kinds[i] for i in session.every_run(len(kinds), 2 if q else 3)]


def check(c, ctx):
    dict(graph=graph, sequence=sequence, failure=failure, long=long, comings=coming)[c['mode']](c, ctx)


_expected = {}


def expect(kinds, o):
    key = engine.canon([kinds[o['obj']], dict(o, obj=0)])
    if key not in _expected:
        _expected[key] = session.expectation(kinds, o)
    return _expected[key]


def compare(o, got, want):
    return session.differs(got, want, session.tolerance(o), 'outcome')


def expansion(kinds, ops, path, digests=True):
    """Every operation after the given ones: (digest, difference) of each."""
    wants = [expect(kinds, o) for o in ops]

    def child():
        objs = session.world(kinds)
        for o in path:
            session.perform(objs[o['obj']], kinds[o['obj']], o)

        def one(o, want):
            def fn():
                got, _ = session.perform(objs[o['obj']], kinds[o['obj']], o)
                return (session.digest(objs) if digests else b''), compare(o, got, want)
            return session.forked(fn)
        return [one(o, w) for o, w in zip(ops, wants)]
    return child


def graph(c, ctx):
    kinds, ops = c['kinds'], c['ops']
    first = session.forked(lambda: session.digest(session.world(kinds)))
    seen = {first}
    frontier = [[]]
    n = depth = 0
    t0 = time.time()
    more = True
    while frontier and more:
        nxt = []
        for i in range(0, len(frontier), 12):
            if len(seen) >= c['cap'] or len(ctx.fails) >= 3 or time.time() - t0 > c['seconds']:
                more = False
                break
            some = frontier[i:i + 12]
            for path, res in zip(some, session.forked_each([expansion(kinds, ops, p) for p in some], 3)):
                for o, (d, diff) in zip(ops, res):
                    n += 1
                    if diff:
                        ctx.fail('after %s: %s: %s' % ('; '.join(map(session.name, path)) or 'nothing', session.name(o), diff))
                    if d not in seen:
                        seen.add(d)
                        nxt.append(path + [o])
        if more:
            frontier = nxt
            depth += 1
    ctx.traces += n
    ctx.extra_states += len(seen)
    ctx.extra_edges += n
    closed = not frontier
    ctx.note('sessions_explored_to_closure' if closed else 'sessions_explored_to_their_state_limit')
    ctx.note('session_states', len(seen))
    ctx.note('session_transitions', n)
    ctx.saw([kinds, len(seen), n, depth, closed])
    if os.environ.get('MC_SHOW'):
        print(kinds, 'ops', len(ops), 'states', len(seen), 'transitions', n, 'depth', depth, 'closed', closed, '%.1f s' % (time.time() - t0), flush=True)


def sequence(c, ctx):
    kinds, ops, start = c['kinds'], c['ops'], c['start']
    res = session.forked(expansion(kinds, ops, start, digests=False))
    for o, (_, diff) in zip(ops, res):
        if diff:
            ctx.fail('after %s: %s: %s' % ('; '.join(map(session.name, start)), session.name(o), diff))
    ctx.traces += len(ops)
    ctx.extra_states += len(ops)
    ctx.extra_edges += len(ops)
    ctx.saw([start])


def failure(c, ctx):
    """One call is made to fail at every line of the package it passes;
    afterwards calls are answered as on newly made models."""
    kinds, ops, bad = c['kinds'], c['ops'], c['fails']
    wants = [expect(kinds, o) for o in ops]

    def child():
        objs = session.world(kinds)
        o = c['before']
        session.perform(objs[o['obj']], kinds[o['obj']], o)
        steps = session.forked(lambda: session.failing(objs, kinds, bad))
        points = session.fault_points(steps, c['most'])[c['part']::PARTS]

        def one(k):
            def fn():
                session.failing(objs, kinds, bad, k)

                def probe(o, want):
                    return lambda: compare(o, session.perform(objs[o['obj']], kinds[o['obj']], o)[0], want)
                return [session.forked(probe(o, w)) for o, w in zip(ops[1:], wants[1:])] + [probe(ops[0], wants[0])()]
            return fn
        out = []
        for k, r in zip(points, session.forked_each([one(k) for k in points], 2)):
            out.append((k, steps[k - 1], r))
            if any(r) and len([x for x in out if any(x[2])]) > 2:
                break
        return out
    for k, (f, line), r in session.forked(child):
        for o, d in zip(ops[1:] + ops[:1], r):
            if d:
                ctx.fail('after %s failed at step %d (%s, line %d): %s: %s' % (session.name(bad), k, os.path.basename(f), line, session.name(o), d))
        ctx.traces += len(r)
        ctx.extra_states += 1
        ctx.extra_edges += len(r)
        ctx.note('calls_failed_at_a_step')
    ctx.saw([c['kinds'], bad, c['part']])


def long(c, ctx):
    """Many calls on the same models, each compared with new ones."""
    kinds, ops = long_sessions(c['quick'])[c['session']]
    wants = [expect(kinds, o) for o in ops]

    def child():
        objs = session.world(kinds)
        for n, (o, w) in enumerate(zip(ops, wants)):
            d = compare(o, session.perform(objs[o['obj']], kinds[o['obj']], o)[0], w)
            if d:
                return n, d
        return None
    r = session.forked(child)
    if r:
        ctx.fail('call %d of a long session, after %s: %s: %s' % (r[0] + 1, '; '.join(map(session.name, ops[max(0, r[0] - 3):r[0]])), session.name(ops[r[0]]), r[1]))
    ctx.traces += len(ops)
    ctx.extra_states += len(ops)
    ctx.extra_edges += len(ops)
    ctx.note('calls_in_long_sessions', len(ops))
    ctx.saw([kinds, len(ops), str(wants[-1])[:500]])


def coming(c, ctx):
    """Models are made, used and dropped one after the other; some of the
    latest are held."""
    import gc
    kinds = comings(c['quick'])
    ops = [op(0, 'solve', 'b', 'none' if k == 'props' else 'c', 'none' if k.endswith('!') else 'J') for k in kinds]
    more = [None if k.endswith('!') else op(0, 'distributions', 'a', 'none', 'rps') for k in kinds]
    wants = [[expect([k], o) for o in two if o] for k, two in zip(kinds, zip(ops, more))]

    def child():
        held = []
        for n, k in enumerate(kinds):
            m = session.world([k])[0]
            for o, w in zip((ops[n], more[n]), wants[n]):
                d = compare(o, session.perform(m, k, o)[0], w)
                if d:
                    return n, o, d
            held.append(m)
            del m
            del held[:len(held) - c['held']]
            gc.collect()
        return None
    r = session.forked(child)
    if r:
        n, o, d = r
        ctx.fail('model %d (%s) after models of %s: %s: %s' % (n + 1, kinds[n], kinds[max(0, n - 3):n], session.name(o), d))
    ctx.traces += 2 * len(kinds)
    ctx.extra_states += len(kinds)
    ctx.note('models_made_and_dropped', len(kinds))
    ctx.saw([kinds, c['held']])
