"""C20: the exported mesh is the modelled wings and blades."""
import math
import os
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S

ASSUMPTIONS = ['fifty contour points per section with cosine spacing and straight strips split along one diagonal; the order of the '
               'triangles in the file is free', 'single precision of the file format']
CASE_LIMIT = 240
NPTS = 50


def contour(name):
    """(chordwise position, height) of the section around the contour, chord
    one."""
    dig = '2412'
    if len(name) == 8 and name[:4] in ('NACA', 'naca') and name[4:].isdigit():
        dig = name[4:]
    m, p, t = int(dig[0]) / 100., int(dig[1]) / 10., int(dig[2:]) / 100.
    th = np.linspace(-math.pi, math.pi, NPTS)
    x = .5 * (1. - np.cos(th))
    y = 5. * t * (.2969 * np.sqrt(x) - .126 * x - .3516 * x ** 2 + .2843 * x ** 3 - .1015 * x ** 4)
    if m == 0. or p == 0.:
        yc, sl = 0. * x, 0. * x
    else:
        f = x < p
        yc = np.where(f, m / p ** 2 * (2. * p * x - x * x), m / (1. - p) ** 2 * (1. - 2. * p + 2. * p * x - x * x))
        sl = np.where(f, 2. * m / p ** 2 * (p - x), 2. * m / (1. - p) ** 2 * (p - x))
    a = np.arctan(sl)
    s = np.sign(th)
    return x - s * y * np.sin(a), yc + s * y * np.cos(a)


def strips(P):
    """Triangles between neighbouring contours P[i]."""
    a, b, c, d = P[:-1, :-1], P[:-1, 1:], P[1:, :-1], P[1:, 1:]
    one = np.stack([a, b, c], -2).reshape(-1, 3, 3)
    two = np.stack([b, d, c], -2).reshape(-1, 3, 3)
    return np.concatenate([one, two])


def wing_mesh(sp):
    g = ref.grid(sp)
    out = []
    for name, side, i0, n, iw in g.segments:
        sl = slice(i0, i0 + n)
        afs = sp['wings'][iw]['af'] or [ref.AFD]
        x0, y0 = contour(afs[0]['name'])
        x1, y1 = contour(afs[-1 if len(afs) == 1 else 1]['name'])
        f = g.frac[sl][:, None]
        X, Y = x0 + f * (x1 - x0), y0 + f * (y1 - y0)
        P = g.r[sl][:, None, :] + g.c[sl][:, None, None] * ((X - .25)[..., None] * g.ua[sl][:, None, :] + Y[..., None] * g.un[sl][:, None, :])
        out.append(strips(P))
    return out


def blade_mesh(sp):
    out = []
    for p in ref.props(sp):
        st = p.stations
        cs = [contour(a['name']) for _, a in st]
        if len(st) == 1:
            X = np.tile(cs[0][0], (p.n_nodes, 1))
            Y = np.tile(cs[0][1], (p.n_nodes, 1))
        else:
            s = [t for t, _ in st]
            X = np.array([np.interp(p.z, s, [c[0][j] for c in cs]) for j in range(NPTS)]).T
            Y = np.array([np.interp(p.z, s, [c[1][j] for c in cs]) for j in range(NPTS)]).T
        pitch = p.beta + p.alpha_L0
        f = p.fwd
        st_, ct = math.sin(p.el), math.cos(p.el)
        sg, cg = math.sin(p.he), math.cos(p.he)
        up = -np.array([st_ * cg, st_ * sg, ct])
        for k in range(p.k):
            a = 2. * math.pi * k / p.k
            er = math.cos(a) * up + math.sin(a) * np.cross(f, up)
            mov = p.rot * np.cross(f, er)
            cp, spn = np.cos(pitch)[:, None, None], np.sin(pitch)[:, None, None]
            le = mov * cp + f * spn
            no = f * cp - mov * spn
            P = p.pos + p.r[:, None, None] * er + p.c[:, None, None] * ((.25 - X)[..., None] * le + Y[..., None] * no)
            T = strips(P)
            out.append(T if p.rot > 0 else T[:, ::-1])
    return out


def names(*pairs):
    def f(c):
        ws = c['spec']['wings']
        if not ws:
            return False
        ws[0]['af'] = [dict(S.AF_A, name=n) for n in pairs]
    return f


def pnames(*pairs):
    def f(c):
        ps = c['spec']['props']
        if not ps:
            return False
        at = [dict(S.AF_A, name=n) for n in pairs]
        if len(at) > 1:
            for a, s in zip(at, ['root', .6, 'tip'] if len(at) == 3 else ['root', 'tip']):
                a['span_position'] = s
        ps[0]['af'] = at
    return f


def extra():
    m = []
    for i, t in enumerate((('NACA0012',), ('NACA6409', 'NACA0021'), ('naca2415',), ('Clark-Y',), ('NACA23012',), ('NACAroot',), ('NACA2012',),
                           ('NACA4415', 'flat'), ('af',))):
        m.append(('af', 'airfoil ' + '/'.join(t), names(*t)))
    for t in (('NACA0012',), ('NACA6409', 'NACA0021'), ('NACA4412', 'Clark-Y', 'NACA0009'), ('x',)):
        m.append(('paf', 'blade ' + '/'.join(t), pnames(*t)))
    m.append(('pn', 'prop 6 nodes', menu.P(0, nodes=6)))
    m.append(('pbl', 'prop 3 blades', menu.P(0, blades=3)))
    m.append(('por', 'prop much tilted', menu.P(0, orient=[35., 50.])))
    return m


def spaces(tier):
    q = tier == 'quick'
    m = [t for t in menu.wing_menu() if t[0] not in ('main',)] + menu.prop_menu(False) + menu.frame_menu()[:2] + extra()
    m += [('origin', 'airplane position', lambda c: c['spec'].update(origin=[2., -.5, .25])),
          ('via', 'input file', via_file)]
    if q:
        m = [t for t in m if t[1] not in ('grid 40', 'prop 32 nodes', 'cg 0')]

    def small(base):
        def f():
            c = base()
            for p in c['spec']['props']:
                p['nodes'] = 6
            for w in c['spec']['wings']:
                w['grid'] = min(4, w['grid'])
            return c
        return f
    bases = [('plain', small(menu.plain)), ('rich', small(menu.rich)), ('propped', small(menu.propped)), ('prop only', small(menu.prop_only))]
    ext = engine.Deviations('extremes', bases, menu.extreme_menu(True, False), 2)
    lad = engine.Deviations('ladders', bases[1:3], [t for t in menu.ladder_menu(True, False, every=2 if q else 1) if not any(k in t[0] for k in (' nodes', ' grid', ' mix', ' CL', ' C', ' J'))], 1)
    if q:
        return [engine.Deviations('meshes', bases, m, 1), engine.Deviations('wing pairs', bases[:1], [t for t in m if t[0] in (
            'side', 'sweep', 'dih', 'mount', 'wash', 'tipc', 'af', 'w2', 'w3', 'yoff', 'grid')], 2),
            engine.Deviations('blade pairs', bases[3:], [t for t in m if t[0] in ('ppos', 'por', 'prot', 'pbl', 'ppitch', 'pch', 'paf', 'p2', 'phub')], 2), ext, lad]
    return [ext, lad, engine.Deviations('meshes', bases, m, 2)]


def via_file(c):
    if c['spec'].get('origin') is not None or any(len(p['af']) != 1 for p in c['spec']['props']):
        return False
    c['via'] = 'file'


def check(c, ctx):
    from scipy.spatial import cKDTree
    from stl import mesh
    sp = c['spec']
    if c.get('via') == 'file' and (sp.get('origin') is not None or any(len(p['af']) != 1 for p in sp['props'])
                                   or any(len(w['af']) != 1 and len(w['af']) != 2 for w in sp['wings'])):
        raise engine.Degenerate('not in a file')
    for w in sp['wings']:
        if len(w['af']) == 2 and w['af'][0]['name'] == w['af'][1]['name']:
            raise engine.Degenerate('one name for two airfoils')
    want = wing_mesh(sp) + blade_mesh(sp)
    want = np.concatenate(want) if want else np.zeros((0, 3, 3))
    m = impl.model(sp, c.get('via', 'auto'))
    path = S.scratch_file('.stl')
    try:
        impl.call(m, 'create_stl', path)
        got = mesh.Mesh.from_file(path).vectors.astype(float)
    finally:
        if os.path.exists(path):
            os.remove(path)
    ctx.traces += 1
    ctx.extra_states += len(got)
    if not ctx.equal('number of triangles', len(got), len(want)):
        return
    ctx.true('undefined vertices', np.all(np.isfinite(got)))
    if len(want):
        tol = 2e-6 * (1. + np.max(np.abs(want)))
        cyc = lambda T: np.concatenate([T[:, [0, 1, 2]], T[:, [1, 2, 0]], T[:, [2, 0, 1]]]).reshape(-1, 9)
        d, _ = cKDTree(cyc(got)).query(want.reshape(-1, 9), distance_upper_bound=10. * tol)
        miss = np.where(~(d <= tol))[0]
        if len(miss):
            ctx.fail('%d of %d triangles are missing, first %s' % (len(miss), len(want), np.round(want[miss[0]], 5).tolist()))
        d, _ = cKDTree(cyc(want)).query(got.reshape(-1, 9), distance_upper_bound=10. * tol)
        miss = np.where(~(d <= tol))[0]
        if len(miss):
            ctx.fail('%d of %d triangles do not belong, first %s' % (len(miss), len(got), np.round(got[miss[0]], 5).tolist()))
    ctx.saw([len(got), np.round(got.sum(0), 3).tolist()])
