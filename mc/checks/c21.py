"""C21: an input file and the equivalent construction calls describe the same
airplane."""
import copy
import itertools
import json
import os
from collections import OrderedDict
import numpy as np
from .. import engine, impl, menu, session
from .. import spec as S

ASSUMPTIONS = ['independent means that every wing is listed after the wing it is attached to', 'airplane units can only be given in an input file; '
               'throttle states are therefore compared between files', 'results are compared with a relative tolerance of 1e-9, derivatives 1e-6']
CASE_LIMIT = 120


# ------------------------------------------------------------- descriptions

def swap_keys(x, depth=0, path=()):
    """The same JSON object with its keys listed backwards, except where the
    order carries meaning (wings, propellers, airfoils)."""
    if isinstance(x, dict):
        keys = list(x)
        if not (path and path[-1] in ('wings', 'propellers', 'airfoils')):
            keys.reverse()
        return OrderedDict((k, swap_keys(x[k], depth + 1, path + (k,))) for k in keys)
    return x


def ints(x):
    if isinstance(x, dict):
        return OrderedDict((k, ints(v)) for k, v in x.items())
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def floats(x, path=()):
    if isinstance(x, dict):
        return OrderedDict((k, floats(v, path + (k,))) for k, v in x.items())
    if isinstance(x, int) and not isinstance(x, bool) and path[-1] not in ('grid', 'radial_nodes', 'num_of_blades', 'ID', 'is_main', 'is_sealed', 'rotation_direction'):
        return float(x)
    return x


def drop_optional(d):
    """Leave out what has the documented default."""
    for w in d.get('wings', {}).values():
        if w.get('is_main') == 1:
            del w['is_main']
    for p in d.get('propellers', {}).values():
        if p.get('electric_motor') == {}:
            del p['electric_motor']
    return d


def is_main_explicit(d):
    for w in d.get('wings', {}).values():
        w['is_main'] = int(w.get('is_main', 1))
    for p in d.get('propellers', {}).values():
        p.setdefault('electric_motor', {})
    return d


def odd_ids(d):
    ids = {}
    for i, w in enumerate(d.get('wings', {}).values()):
        ids[w['ID']] = 40 - 7 * i
        w['ID'] = ids[w['ID']]
        if w['connect']['ID']:
            w['connect']['ID'] = ids[w['connect']['ID']]
    return d


def other_units(u):
    def f(d):
        d['condition']['units'] = u
        return d
    return f


def more(d):
    """What other programs write and machup does not use."""
    d['plane']['name'] = 'Name with spaces'
    d['reference']['area'] = 17.
    d['condition'].update(W=3., alpha=5., altitude=0., ground=0, use_stall_model=True)
    d['extra'] = dict(anything=[1, 2, 3])
    d['tags'] = 'text'
    for w in d.get('wings', {}).values():
        w['sweep_definition'] = 1
        w['same_as_root'] = 1
    return d


FILES = OrderedDict([('file', None), ('keys listed backwards', swap_keys), ('whole numbers', ints), ('decimal numbers', floats), ('optional keys left out', drop_optional),
                     ('optional keys given', is_main_explicit), ('other IDs', odd_ids), ('more entries', more), ('English', other_units('English')), ('english', other_units('english')),
                     ('SI', other_units('SI')), ('si', other_units('si')), ('Si', other_units('Si'))])


def file_plane(spec, variant, compact=False):
    d = json.loads(json.dumps(S.file_data(spec)), object_pairs_hook=OrderedDict)
    if FILES[variant]:
        d = FILES[variant](d)
    path = S.scratch_file()
    with open(path, 'w') as f:
        f.write(json.dumps(d, separators=(',', ':')) if compact else json.dumps(d, indent=3))
    return path


def from_file(spec, variant, direct, compact=False):
    path = file_plane(spec, variant, compact)
    try:
        with impl.quiet():
            if direct:
                return impl.MU.MachUp(path) if compact else impl.MU.MachUp(inputfile=path)
            return impl.MU.MachUp(inputAirplane=impl.machup.Airplane(inputfile=path))
    finally:
        os.remove(path)


# ------------------------------------------------------------------- spaces

def scalar(c):
    for w in c['spec']['wings']:
        if w['control'] and not isinstance(w['control']['chord'], float) and w['control']['chord'][0] == w['control']['chord'][1]:
            w['control']['chord'] = w['control']['chord'][0]
            c['scalar'] = True
    if not c.get('scalar'):
        return False


def spaces(tier):
    q = tier == 'quick'
    m = menu.wing_menu() + menu.frame_menu() + menu.ctrl_menu() + menu.prop_menu() + menu.sub(menu.aero_menu(), 'alpha -6', 'beta 4', 'roll rate')
    m += [('cs', 'chord as one number', menu.W(0, control=S.control((.2, .8), .3, {'aileron': 1., 'flap': 1.}))),
          ('cs', 'negative mix', menu.W(0, control=S.control((.5, .99), (.2, .1), {'elevator': -.5, 'rudder': 1., 'flap': 0.}, False))),
          ('conn', 'winglet moved', menu.W(1, pos=[-.1, .05, .02])), ('conn', 'winglet offset', menu.W(1, yoffset=.15)),
          ('af', 'same name twice', menu.W(0, af=[dict(S.AF_A, name='foil'), dict(S.AF_B, name='foil2')])),
          ('m', 'motor', menu.P(0, motor=dict(S.MOTOR)))]
    m = [t for t in m if t[1] not in ('no airfoil', 'prop three airfoils', 'prop default airfoil')]

    def base(f, mode):
        def g():
            c = session.small(f(), 6, 4)
            c['mode'] = mode
            return c
        return g
    four = [('rich', menu.rich), ('propped', menu.propped), ('prop only', menu.prop_only), ('half', menu.half)]
    out = [engine.Deviations('file and calls', [(n, base(f, 'file')) for n, f in four + [('plain', menu.plain)]], m, 1 if q else 2)]
    out.append(engine.Deviations('extremes', [(n, base(f, 'file')) for n, f in four + [('plain', menu.plain)]], menu.extreme_menu(), 1 if q else 2))
    out.append(engine.Deviations('ladders', [(n, base(f, 'file')) for n, f in four], menu.ladder_menu(every=3 if q else 1), 1))
    out.append(engine.Deviations('other ways of writing a file', [('%s, %s' % (n, v), base(f, v)) for n, f in four for v in FILES if v != 'file'],
                                 [t for t in m if t[1] in ('pos', 'cg int', 'cg all', 'ref both', 'tapered unsealed surface', 'full-span elevon', 'not main', 'side', 'prop CW', 'prop -1', 'pitch value',
                                                           'prop two airfoils', 'airfoils B to C', 'attached wing', 'motor', 'wing moved (int)', 'span 9 (int)')] if q else m, 1))

    def units(kind, u, var, state):
        c = session.small(menu.propped(), 6, 4)
        c['spec']['units'] = u
        for i, p in enumerate(c['spec']['props']):
            if kind == 'all' or i == 0:
                p['motor'] = dict(S.MOTOR, motor_kv=900. - 150. * i)
        c.update(mode='units', variant=var, prop=state)
        return c
    out.append(engine.Product('motors in files', [('motors', ['all', 'first']), ('units', ['English', 'SI']), ('written', ['english', 'si', 'Si', 'keys listed backwards', 'whole numbers', 'decimal numbers',
                              'optional keys left out', 'more entries']), ('state', [dict(electric_throttle=.7), {'right_p': dict(electric_throttle=.5), 'left_p': dict(J=.5)}, dict(brake_power=100.), None])], units))

    def order(n, i, names, via, dev):
        c = session.small(dict(four)[n](), 6, 4)
        if n == 'rich':
            c['spec']['props'] = [S.prop('nose', pos=[1., 0., .1], nodes=6)]
        if n == 'half':
            c['spec']['wings'].append(S.wing('second', side='right', pos=[-2., .3, .2], grid=3, semispan=2., af=[S.AF_B], is_main=1))
        if n == 'prop only':
            for k in (1, 2):
                c['spec']['props'].append(S.prop('q%d' % k, pos=[.5 * k, -k, .3], rot='CW', diameter=1. + .2 * k, nodes=5))
            c['prop'] = {'p': dict(J=.6), 'q1': dict(rot_per_sec=40.), 'J': .3}
        if n == 'propped':
            c['prop'] = {'right_p': dict(J=.6), 'rot_per_sec': 33.}
        if dev is not None and devs[dev](c) is False:
            return None
        ws, ps = c['spec']['wings'], c['spec']['props']
        orders = [(a, b) for a in legal(ws) for b in itertools.permutations(range(len(ps)))]
        if i >= len(orders):
            return None
        c.update(mode='order', order=orders[i], names=names, via=via)
        return c
    devs = {'another wing': menu.addwing(S.wing('wing2', pos=[-3., 0., -.6], semispan=2., sweep=5., is_main=0, grid=2, af=[S.AF_B])),
            'another prop': menu.addprop(S.prop('extra', pos=[.9, -.2, .3], rot='CW', diameter=1.1, nodes=5)), 'second main wing': menu.addwing(S.wing('canard', pos=[3., 0., .2], semispan=1.5, mount=2., is_main=1, grid=2)),
            'no rates': menu.A(roll_rate=None, pitch_rate=None, yaw_rate=None)}
    for n, f in four:
        out.append(engine.Product('order and names: ' + n, [('base', [n]), ('order', list(range(12 if n != 'rich' or q else 60))), ('names', list(NAMES)), ('built', ['calls', 'file']),
                                  ('change', [None, 'another wing', 'another prop'] if q else [None] + list(devs))], order))

    def chord(n, c0, sealed, span, mix, defl):
        c = session.small(dict(four)[n](), 6, 4)
        c['spec']['wings'][0]['control'] = S.control(span, c0, mix, sealed)
        c['ctrl'] = defl
        c['mode'] = 'chord'
        return c
    out.append(engine.Product('chord as one number', [('base', ['rich', 'half', 'propped']), ('chord', [.15, .3, .6, 1.]), ('sealed', [True, False]), ('span', [(0., 1.), (.4, .9), (0., .5)]),
                              ('mix', [{'aileron': 1.}, {'elevator': .5, 'flap': 1.}]), ('controls', [None, dict(aileron=5., flap=8., elevator=-20.)])], chord))
    return out


NAMES = OrderedDict([('same', None), ('renamed', lambda i, k: '%s%d' % ('zyxwvu'[i], i)), ('numbers', lambda i, k: '%d' % (9 - i)),
                     ('like sides', lambda i, k: ('right_left', 'left_', 'tip', 'both', 'left_tip', 'none')[i] + ('' if k == 'w' else 'p')),
                     ('wings and propellers alike', lambda i, k: 'item%d' % i)])


def legal(ws):
    for p in itertools.permutations(range(len(ws))):
        if all(ws[j]['parent'] is None or p.index(ws[j]['parent']) < p.index(j) for j in range(len(ws))):
            yield p


def rearranged(c):
    """The description with its wings and propellers in another order and
    under other names, and the names' translation."""
    sp = copy.deepcopy(c['spec'])
    wo, po = c['order']
    new = NAMES[c['names']] or (lambda i, k: None)
    wn = {w['name']: new(i, 'w') or w['name'] for i, w in enumerate(sp['wings'])}
    pn = {p['name']: new(i, 'p') or p['name'] for i, p in enumerate(sp['props'])}
    ws = [sp['wings'][i] for i in wo]
    for w in ws:
        if w['parent'] is not None:
            w['parent'] = list(wo).index(w['parent'])
        w['name'] = wn[w['name']]
    ps = [sp['props'][i] for i in po]
    for p in ps:
        p['name'] = pn[p['name']]
    sp['wings'], sp['props'] = ws, ps
    prop = c['prop']
    if prop:
        prop = {pn.get(k, k): v for k, v in prop.items()}
    return sp, prop, wn, pn


# -------------------------------------------------------------- observation

def observe(m, c, prop='as is', deriv=True, stall=False):
    a, k, p = copy.deepcopy(c['aero']), copy.deepcopy(c['ctrl']), copy.deepcopy(c['prop'] if isinstance(prop, str) else prop)
    out = {}
    try:
        out['solve'] = impl.call(m, 'solve', a, k, p)
        w, b = impl.call(m, 'distributions', a, k, p)
        out['wing'] = sorted_rows(w)
        out['blade'] = sorted_rows(b)
        if c['spec']['wings'] and deriv:
            out['derivatives'] = impl.call(m, 'derivatives', a, k, p)
            if stall:
                try:
                    out['stall'] = impl.call(m, 'stall_onset', a, k, p)
                except RuntimeError:
                    out['stall'] = 'no stall'
    except (RuntimeError, ZeroDivisionError, ValueError) as e:
        out['error'] = type(e).__name__
    return out


def sorted_rows(d, names=None):
    if not d:
        return {}
    nm = [str(x) for x in d['name']]
    idx = sorted(range(len(nm)), key=lambda i: (nm[i], i))
    out = {k: np.asarray(v)[idx] for k, v in d.items() if k != 'name'}
    out['name'] = [nm[i] for i in idx]
    return out


def back(d, table):
    """Rows under their names in the original description."""
    if not d:
        return {}
    d = dict(d)
    d['name'] = [table[x] for x in d['name']]
    return sorted_rows(dict(d, name=np.array(d['name'], dtype=object)))


def agree(ctx, what, got, want):
    for k in want:
        d = session.differs(got.get(k), want[k], 1e-6 if k == 'derivatives' else 1e-9, '%s: %s' % (what, k))
        if d:
            ctx.fail(d)
    if set(got) - set(want):
        ctx.fail('%s: also has %s' % (what, sorted(set(got) - set(want))))


def check(c, ctx):
    sp = c['spec']
    if sp['wings'] and not any(w['is_main'] for w in sp['wings']):
        raise engine.Degenerate('no reference area')
    mode = c['mode']
    if mode in FILES:
        if mode in ('English', 'english', 'SI', 'si', 'Si') and any(p['motor'] for p in sp['props']) and not sp['wings']:
            pass
        for p in sp['props']:
            if len(p['af']) == 2 and [a.get('span_position') for a in p['af']] != ['root', 'tip']:
                raise engine.Degenerate('not in a file')
        stall = not sp['props'] and mode == 'file'
        want = observe(impl.model(sp, 'api'), c, stall=stall)
        agree(ctx, 'file', observe(from_file(sp, mode, False), c, stall=stall), want)
        want.pop('stall', None)
        agree(ctx, 'MachUp(file)', observe(from_file(sp, mode, True), c), want)
        agree(ctx, 'compact file', observe(from_file(sp, mode, True, True), c), want)
        ctx.traces += 3
    elif mode == 'units':
        want = observe(from_file(sp, 'file', False), c)
        d = copy.deepcopy(sp)
        if c['variant'] in ('english', 'si', 'Si') and c['variant'].lower() != sp['units'].lower():
            raise engine.Degenerate('other units')
        agree(ctx, 'file', observe(from_file(d, c['variant'], True), c), want)
        ctx.traces += 1
    elif mode == 'order':
        via = {'calls': 'api', 'file': 'file'}[c['via']]
        deriv = c['names'] == 'same'
        want = observe(impl.model(sp, 'api'), c, deriv=deriv)
        if 'error' in want:
            ctx.fail('raised %s' % want['error'])
        new, prop, wn, pn = rearranged(c)
        got = observe(impl.model(new, via), c, prop, deriv)
        inv = {}
        for a, b in wn.items():
            for s in ('left_', 'right_'):
                inv[s + b] = s + a
        if 'wing' in got:
            if ctx.equal('wing names', sorted(set(got['wing'].get('name', []))), sorted(set(inv) & set(got['wing'].get('name', [])))):
                got['wing'] = back(got['wing'], inv)
            if ctx.equal('propeller names', sorted(set(got['blade'].get('name', []))), sorted(pn.values())):
                got['blade'] = back(got['blade'], {b: a for a, b in pn.items()})
        agree(ctx, 'rearranged', got, want)
        ctx.traces += 1
    elif mode == 'chord':
        two = copy.deepcopy(c)
        for w in two['spec']['wings'][:1]:
            w['control']['chord'] = [w['control']['chord']] * 2
        want = observe(impl.model(two['spec'], 'api'), c)
        agree(ctx, 'one chord number', observe(impl.model(sp, 'api'), c), want)
        agree(ctx, 'file', observe(impl.model(sp, 'file'), c), want)
        ctx.traces += 2
    ctx.saw([mode, str(want)[:1500]])
