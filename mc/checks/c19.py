"""C19: files written contain exactly the results returned, replacing older
content."""
import json
import os
import shutil
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S

ASSUMPTIONS = ['distribution tables are read back column by column; section names without white space']
CASE_LIMIT = 180
ANALYSES = ['solve', 'distributions.txt', 'distributions.json', 'derivatives', 'target_lift', 'target_lift failing', 'pitch_trim',
            'pitch_trim failing', 'stall_onset', 'stall_airspeed', 'find_aero_center', 'create_stl']
WCOL = ['x', 'y', 'z', 'chord', 'twist', 'dihedral', 'sweep', 'area', 'alpha', 'fx', 'fy', 'fz', 'section_CL', 'section_Cm',
        'section_CD_parasitic', 'section_alpha_L0', 'section_CL_ref']
PCOL = ['radial_position', 'chord', 'pitch', 'advance_angle', 'induced_angle', 'alpha', 'section_CL', 'section_CD', 'Vi', 'Vi_x', 'Vi_t']
JUNK = {'nothing': None, 'empty': '', 'text': 'older content\n' * 20000, 'json': json.dumps({'alpha': 1., 'error': 'old', 'data': 'x' * 90000}),
        'table': '# WingDistributions\nright_main ' + ' 1.0' * 17 + '\n' * 3}


def long_names(c):
    for i, w in enumerate(c['spec']['wings']):
        w['name'] = 'a_rather_long_wing_name_%d' % i
    for i, p in enumerate(c['spec']['props']):
        p['name'] = 'a_rather_long_propeller_name_%d' % i


def one_node_names(c):
    for i, w in enumerate(c['spec']['wings']):
        w['name'] = 'w%d' % i


DEVS = {'as is': None, 'long names': long_names, 'short names': one_node_names, 'grid 1': menu.W(0, grid=1), 'left only': menu.SIDE(0, 'left'),
        'lon given': menu.SPEC(lon=.9, lat=None), 'static props': menu.PSET(dict(rot_per_sec=35.)), 'no aero state': lambda c: c.update(aero=None),
        'no states': lambda c: c.update(aero=None, ctrl=None, prop=None), 'integers': menu.A(alpha=4, V_mag=30),
        'zero alpha': menu.A(alpha=0.), 'cg': menu.SPEC(cg=[0., 0., 0.]),
        'second wing': menu.addwing(S.wing('extra', pos=[-3., 0., -.6], semispan=2., sweep=5., is_main=0, grid=3, af=[S.AF_B])),
        'another prop': menu.addprop(S.prop('third', pos=[.9, -.2, .3], rot='CW', diameter=1.1, nodes=11))}
BASES = {'plain': menu.plain, 'rich': menu.rich, 'propped': menu.propped, 'half': menu.half, 'prop only': menu.prop_only}


def situation(base, dev):
    c = BASES[base]()
    if DEVS[dev] is not None and DEVS[dev](c) is False:
        return None
    return c


SLOW = ('stall_airspeed', 'find_aero_center', 'create_stl')


def single(base, dev, analysis, prior):
    c = situation(base, dev)
    if c is None:
        return None
    if not c['spec']['wings'] and analysis not in ('solve', 'distributions.txt', 'distributions.json', 'create_stl', 'derivatives', 'stall_onset', 'stall_airspeed'):
        return None
    c.update(sequence=[analysis], prior=prior)
    return c


def quick_single(base, dev, analysis, prior):
    """Every prior content with the situation as it is, every situation with
    one prior content."""
    if dev != 'as is' and prior != 'text':
        return None
    if analysis in SLOW and (dev not in ('as is', 'long names', 'no states') or prior not in ('nothing', 'text') or base == 'propped'):
        return None
    if base == 'propped' and analysis == 'pitch_trim failing' and (dev != 'as is' or prior not in ('nothing', 'text')):
        return None
    return single(base, dev, analysis, prior)


def quick_pair(base, first, second, third):
    slow = SLOW + ('pitch_trim failing',)
    if first in slow and second in slow and (first != second or base == 'propped'):
        return None
    if base == 'propped' and second in ('stall_airspeed', 'pitch_trim failing') and first not in ('solve', 'derivatives'):
        return None
    return pair(base, first, second, third)


def pair(base, first, second, third):
    c = BASES[base]()
    if not any(w['name'] == 'htail' for w in c['spec']['wings']):
        return None
    for w in c['spec']['wings']:
        w['grid'] = min(w['grid'], 3)
    c.update(sequence=[first, second] + ([third] if third else []), prior='nothing')
    return c


def spaces(tier):
    q = tier == 'quick'
    priors = list(JUNK)
    out = [engine.Product('one call', [('base', list(BASES)), ('change', list(DEVS)), ('analysis', ANALYSES), ('prior', priors)], quick_single if q else single)]
    seq = [a for a in ANALYSES if a not in ('target_lift failing',)]
    out.append(engine.Product('sequences', [('base', ['rich', 'propped']), ('first', seq), ('second', seq), ('third', [None] if q else [None, 'solve', 'distributions.txt', 'stall_onset'])], quick_pair if q else pair))
    out.append(engine.Product('file names', [('base', ['plain', 'propped', 'half', 'prop only']), ('analysis', ANALYSES), ('name', NAMES), ('given', ['whole path', 'from the folder', 'from above'])], named))
    few = [('%s, %s' % (b, a), far(b, a)) for b in ('rich', 'propped') for a in (ANALYSES[:4] if q else ANALYSES[:9])]
    out.append(engine.Deviations('extremes', few, menu.extreme_menu(), 1))
    return out


NAMES = ['a.json', 'a.txt', 'UPPER.JSON', 'no_extension', 'two.dots.json', 'with a space.txt', 'x', 'results.json.bak', '.hidden', 'a-b_c+d,e.dat', '\u00e9t\u00e9.json', '100']


def named(base, analysis, name, given):
    if analysis in ('pitch_trim failing', 'target_lift failing', 'stall_airspeed', 'find_aero_center') and (given != 'whole path' or name not in NAMES[:4]):
        return None
    if analysis.startswith('distributions') and (analysis[-4:] == 'json') != (name[-4:] == 'json'):
        return None
    if analysis == 'create_stl' and given != 'whole path' and base != 'half':
        return None
    c = single(base, 'as is', analysis, 'nothing')
    if c is None:
        return None
    for w in c['spec']['wings']:
        w['grid'] = min(w['grid'], 3)
    for p in c['spec']['props']:
        p['nodes'] = min(p['nodes'], 6)
    c.update(name=name, given=given)
    return c


def far(base, analysis):
    def f():
        return single(base, 'as is', analysis, 'text')
    return f


def run(m, c, analysis, path):
    """Returned value and whether it failed."""
    a, k, p = c['aero'], c['ctrl'], c['prop']
    name = analysis.split()[0].split('.')[0]
    if name == 'create_stl':
        return impl.call(m, name, path)
    args = []
    if name == 'target_lift':
        L = 1e6 if 'failing' in analysis else .3 * size(c)
        args = [L]
    if name == 'pitch_trim':
        args = [1e6, 0.] if 'failing' in analysis else [.3 * size(c), .0]
    if name == 'stall_airspeed':
        args = [2. * size(c)]
    return impl.call(m, name, *(args + [a, k, p, path]))


def size(c):
    a = c['aero'] or dict(V_mag=10., rho=.0023769)
    return .5 * a['rho'] * a['V_mag'] ** 2 * 4.


def attempt(m, c, analysis, path):
    try:
        return run(m, c, analysis, path), None
    except (RuntimeError, np.linalg.LinAlgError) as e:
        return None, '%s: %s' % (type(e).__name__, e)


def table(text):
    """Blocks of the distributions file: [(header words, [(name, numbers)])]."""
    blocks = []
    for line in text.split('\n'):
        if not line.strip():
            continue
        if line.startswith('#'):
            word = line[1:].strip()
            if word.endswith('Distributions'):
                blocks.append((word, []))
            continue
        w = line.split()
        if not blocks:
            blocks.append(('', []))
        blocks[-1][1].append((w[0], [float(x) for x in w[1:]]))
    return blocks


def check_table(ctx, text, wd, pd):
    blocks = table(text)
    want = []
    if wd:
        cp, f = np.asarray(wd['control_points']), np.asarray(wd['forces_xyz'])
        cols = []
        for k in WCOL:
            cols.append(cp[:, 'xyz'.index(k)] if k in ('x', 'y', 'z') else f[:, 'xyz'.index(k[1])] if k in ('fx', 'fy', 'fz') else wd[k])
        want.append(('WingDistributions', wd['name'], np.array(cols, float).T))
    if pd:
        want.append(('PropellerDistributions', pd['name'], np.array([pd[k] for k in PCOL], float).T))
    if not ctx.equal('tables', [b[0] for b in blocks], [w[0] for w in want]):
        return
    for (_, rows), (title, names, num) in zip(blocks, want):
        if ctx.equal('%s names' % title, [r[0] for r in rows], [str(x) for x in names]):
            got = np.array([r[1] for r in rows], float)
            ctx.close(title, got, num, np.abs(num) + 1e-300, 2e-12)


def check_content(ctx, c, analysis, path, res):
    """Compare one file with the value returned by the call that wrote it."""
    if analysis == 'create_stl':
        ctx.true('no mesh', os.path.getsize(path) >= 84)
        return
    text = open(path).read()
    if analysis == 'distributions.txt':
        check_table(ctx, text, *res)
        return
    try:
        data = json.loads(text)
    except ValueError as e:
        ctx.fail('%s file is not JSON: %s' % (analysis, e))
        return
    if analysis == 'distributions.json':
        if ctx.equal('keys', sorted(data), ['data']):
            check_table(ctx, data['data'].replace('newline', '\n'), *res)
    elif analysis == 'solve':
        if ctx.equal('keys', sorted(data), ['prop_results', 'total_results', 'wing_results']):
            ctx.equal('totals in the file', data['total_results'], engine.jsonable(res))
    elif analysis == 'find_aero_center':
        ctx.equal('file', data, dict(x_ac=float(res[0]), z_ac=float(res[2])))
    elif res is None:
        ctx.true('neither an answer nor an error in the file', list(data) == ['error'])
    else:
        ctx.equal('file', data, engine.jsonable(res))


def scratch(analysis):
    ext = '.stl' if analysis == 'create_stl' else '.txt' if analysis.endswith('.txt') else '.json'
    return S.scratch_file(ext)


def norm(x):
    return json.dumps(engine.jsonable(x), sort_keys=True)


def in_folder(c, ctx):
    """Any name, given in any way: that file is written and no other."""
    analysis = c['sequence'][0]
    top = S.scratch_file('')
    os.makedirs(os.path.join(top, 'inner', 'deep'))
    here = os.getcwd()
    where = os.path.join(top, 'inner')
    path = os.path.join(where, c['name'])
    try:
        os.chdir(where if c['given'] != 'from above' else top)
        res, err = attempt(impl.model(c['spec']), c, analysis, {'whole path': path, 'from the folder': c['name'], 'from above': os.path.join('inner', c['name'])}[c['given']])
        left = sorted(os.path.relpath(os.path.join(d, f), top) for d, _, fs in os.walk(top) for f in fs)
        ctx.equal('moved to another folder', os.path.realpath(os.getcwd()), os.path.realpath(where if c['given'] != 'from above' else top))
    finally:
        os.chdir(here)
    ctx.traces += 1
    if err is not None:
        _, err2 = attempt(impl.model(c['spec']), c, analysis, None)
        ctx.true('failed only when a file was asked for: %s' % err, err2 is not None)
        return
    if analysis.endswith('failing') and res is None and not left:
        return
    if ctx.equal('files written', left, [os.path.join('inner', c['name'])]):
        check_content(ctx, c, analysis, path, res)
    shutil.rmtree(top)
    ctx.saw([analysis, c['name'], c['given']])


def check(c, ctx):
    if 'name' in c:
        return in_folder(c, ctx)
    sp = c['spec']
    if sp['wings'] and c['aero']:
        g = ref.grid(sp)
        u, v, rho = ref.wing_state(g, c['aero'])
        ref.lifting_line(g, u, v, rho, c['ctrl'])      # only to leave out degenerate geometry
    m = impl.model(sp)
    last = c['sequence'][-1]
    path = scratch(last) if not (len(c['sequence']) > 1) else S.scratch_file('.json' if last != 'distributions.txt' else '.txt')
    old = JUNK[c['prior']]
    if old is not None:
        with open(path, 'w') as f:
            f.write(old)
    for a in c['sequence']:
        res, err = attempt(m, c, a, path)
    ctx.traces += len(c['sequence'])
    # a call without a file on a model of its own
    m2 = impl.model(sp)
    res2, err2 = (None, None) if last == 'create_stl' else attempt(m2, c, last, None)
    if err is not None:
        ctx.true('failed only when a file was asked for: %s' % err, err2 is not None)
        ctx.saw([last, 'error'])
        return
    if last != 'create_stl' and err2 is None:
        ctx.equal('value with a file', norm(res), norm(res2))
    if last == 'distributions.txt' and path.endswith('json'):
        raise engine.Degenerate('name')
    check_content(ctx, c, last, path, res)
    # the same on a new file, and a second time
    fresh = path[:path.rindex('.')] + '_fresh' + path[path.rindex('.'):]
    attempt(impl.model(sp), c, last, fresh)
    body = open(path, 'rb').read()
    cut = 80 if last == 'create_stl' else 0           # the header of a mesh carries the date
    ctx.true('content differs from that of a new file', body[cut:] == open(fresh, 'rb').read()[cut:])
    res3, _ = attempt(m, c, last, path)
    ctx.true('content differs the second time', body[cut:] == open(path, 'rb').read()[cut:])
    ctx.equal('value the second time', norm(res3), norm(res))
    ctx.traces += 3
    ctx.saw([last, norm(res)[:4000] if last != 'create_stl' else len(body)])
    for p in (path, fresh):
        if os.path.exists(p):
            os.remove(p)
