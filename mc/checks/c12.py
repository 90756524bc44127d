"""C12: propeller performance solves the blade-element momentum equations."""
import os
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import compare_part, rows, solve_parts

ASSUMPTIONS = ['the induced angle is looked for between no induction and no incidence; where the section equation has '
               'several solutions there any of them is accepted']
TABLES = {'pitch.dat': ([.05, .2, .4, .6, .8, 1.], [38., 34., 26., 20., 15., 11.]),
          'chord.dat': ([.05, .2, .4, .6, .8, 1.], [.12, .16, .18, .16, .12, .05])}


def blade_menu():
    m = []
    d = lambda g, n, **kw: m.append((g, n, menu.P(0, **kw)))
    for n in (3, 4, 8, 9, 30, 100):
        d('nodes', 'nodes %d' % n, nodes=n)
    for n in (1, 3, 5):
        d('blades', 'blades %d' % n, blades=n)
    d('hub', 'hub .05', hub=.05)
    d('hub', 'hub .5', hub=.5)
    d('diam', 'diameter .3', diameter=.3, hub=.04, chord=dict(type='linear', root=.03, tip=.015))
    d('diam', 'diameter 6', diameter=6., hub=.4, chord=dict(type='linear', root=.5, tip=.3))
    d('pitch', 'default pitch', pitch=dict(type='default'))
    d('pitch', 'ratio .3', pitch=dict(type='ratio', value=.3))
    d('pitch', 'ratio 1.2', pitch=dict(type='ratio', value=1.2))
    d('pitch', 'pitch .9', pitch=dict(type='value', value=.9))
    d('pitch', 'increment 5', pitch=dict(type='ratio', value=.5, pitch_increment=5.))
    d('pitch', 'increment -2', pitch=dict(type='value', value=1., pitch_increment=-2.))
    d('pitch', 'default increment', pitch=dict(type='default', pitch_increment=3.))
    d('pitch', 'pitch table', pitch=dict(type='from_file', filename='pitch.dat'))
    d('pitch', 'pitch table increment', pitch=dict(type='from_file', filename='pitch.dat', pitch_increment=-3.))
    d('chord', 'default chord', chord=dict(type='default'))
    d('chord', 'constant chord', chord=dict(type='linear', root=.09))
    d('chord', 'widening chord', chord=dict(type='linear', root=.06, tip=.11))
    d('chord', 'elliptical chord', chord=dict(type='elliptical', root=.14))
    d('chord', 'chord table', chord=dict(type='from_file', filename='chord.dat'))
    d('af', 'default airfoil', af=[])
    d('af', 'airfoil B', af=[S.AF_B])
    d('af', 'airfoil C', af=[S.AF_C])
    d('af', 'root and tip', af=[dict(S.AF_C, span_position='root'), dict(S.AF_B, span_position='tip')])
    d('af', 'tip first', af=[dict(S.AF_B, span_position='tip'), dict(S.AF_C, span_position='root')])
    d('af', 'Root and TIP', af=[dict(S.AF_C, span_position='Root'), dict(S.AF_B, span_position='TIP')])
    d('af', 'Tip and ROOT', af=[dict(S.AF_B, span_position='Tip'), dict(S.AF_C, span_position='ROOT')])
    d('af', 'three stations', af=[dict(S.AF_C, span_position=.35), dict(S.AF_B, span_position='tip'), dict(S.AF_A, span_position=.6)])
    d('af', 'inner stations', af=[dict(S.AF_A, span_position=.4), dict(S.AF_C, span_position=.8)])
    d('af', 'four stations', af=[dict(S.AF_A, span_position='root'), dict(S.AF_B, span_position=.5),
                                 dict(S.AF_C, span_position=.75), dict(S.AF_ZERO, span_position='tip')])
    for J in (.05, .15, .3, .7, .9, 1.3, 2.):
        m.append(('J', 'J %g' % J, menu.PSET(dict(J=J))))
    m.append(('J', 'static', lambda c: (c['aero'].update(V_mag=0.), c.update(prop=dict(J=0., rot_per_sec=30.))) and None))
    m.append(('J', 'rps 60', menu.PSET(dict(rot_per_sec=60.))))
    m.append(('aero', 'fast', menu.A(V_mag=60.)))
    m.append(('aero', 'oblique', menu.A(alpha=12., beta=8.)))
    m.append(('aero', 'axial', menu.A(alpha=0., beta=0.)))
    m.append(('rot', 'CW', menu.P(0, rot='cw')))
    return m


def thick():
    c = menu.prop_only()
    c['spec']['props'][0].update(blades=3, pitch=dict(type='ratio', value=.9), chord=dict(type='linear', root=.2, tip=.1), nodes=20, hub=.25)
    c['prop'] = dict(J=.6)
    return c


def spaces(tier):
    return [engine.Deviations('blades', [('base', menu.prop_only), ('thick', thick)], blade_menu(), 2 if tier == 'quick' else 3),
            engine.Deviations('extremes', [('base', menu.prop_only), ('thick', thick)], menu.extreme_menu(), 2),
            engine.Deviations('ladders', [('base', menu.prop_only), ('thick', thick)], menu.ladder_menu(), 1 if tier == 'quick' else 2)] + (
               [engine.Deviations('pairs of ladders', [('base', menu.prop_only), ('thick', thick)], menu.ladder_menu(every=3), 2)] if tier == 'quick' else [])


def tables():
    """Write the blade tables to the scratch directory."""
    out = {}
    for name, (x, y) in TABLES.items():
        path = os.path.join(os.environ['MC_SCRATCH'], name)
        if not os.path.exists(path):
            tmp = path + '.%d' % os.getpid()
            np.savetxt(tmp, np.array([x, y]).T)
            os.replace(tmp, path)
        out[path] = (x, y)
    return out


def check(c, ctx):
    sp, aero, prop = c['spec'], c['aero'], c['prop']
    tab = tables()
    for p in sp['props']:
        for key in ('pitch', 'chord'):
            if p[key]['type'] == 'from_file':
                p[key] = dict(p[key], filename=os.path.join(os.environ['MC_SCRATCH'], p[key]['filename']))
    pl = ref.props(sp, tab)
    for p in pl:
        if not (np.all(np.isfinite(p.tiploss)) and np.all(np.isfinite(p.beta)) and np.all(np.isfinite(p.shift))):
            raise engine.Degenerate('blade')
    m = impl.model(sp)
    tot, parts = solve_parts(m, aero, None, prop)
    _, pd = impl.call(m, 'distributions', aero, None, prop)
    ctx.traces += 2
    ei = {}
    for p in pl:
        i = rows(pd, p.name)
        if not ctx.equal('nodes of ' + p.name, len(i), p.n_nodes):
            return
        col = {k: np.asarray(pd[k], float)[i] for k in pd if k != 'name'}
        ctx.close('radius', col['radial_position'], p.r, p.d, 1e-12)
        ctx.close('chord', col['chord'], p.c, p.d, 1e-10)
        ctx.close('pitch', np.radians(col['pitch']), p.beta, 1., 1e-10)
        n, J = p.rotation(aero, ref.prop_entry(prop, p.name))
        einf = np.arctan2(J, np.pi * p.z)
        ctx.close('advance angle', np.radians(col['advance_angle']), einf, 1., 1e-10)
        e = np.radians(col['induced_angle'])
        lo, hi = np.minimum(0., p.beta - einf), np.maximum(0., p.beta - einf)
        ctx.close('section equation', p.residual(einf, e), np.zeros(len(e)), 1., 1e-7)
        ctx.true('induced angle outside the range between no induction and no incidence',
                 np.all(e >= lo - 1e-7) and np.all(e <= hi + 1e-7))
        nr = p.scan_roots(einf)
        one = nr == 1
        if np.any(one):
            r = p.induced(einf)
            # where the equation is flat at the solution the angle is less certain
            h = 1e-6
            slope = np.abs(p.residual(einf, r + h) - p.residual(einf, r - h)) / (2. * h)
            ctx.close('induced angle', e[one], r[one], np.maximum(1., 1. / np.maximum(slope[one], 1e-12)), 1e-7)
        k = p.loads(aero, n, J, e)
        ctx.close('blade angle of attack', np.radians(col['alpha']), k['alpha'], 1., 1e-9)
        ctx.close('blade lift', col['section_CL'], k['CL'], 1., 1e-7)
        near = np.minimum(np.abs(k['alpha'] - p.dstall), np.abs(k['alpha'] - p.dstall_n)) < 1e-7
        ctx.close('blade drag', col['section_CD'][~near], k['CD'][~near], 1., 1e-7)
        s = np.max(np.abs(k['Vi'])) + 1e-9
        for a, b in (('Vi', 'Vi'), ('Vi_x', 'Vx'), ('Vi_t', 'Vt')):
            ctx.close('blade %s' % a, col[a], k[b], s, 1e-8)
        ei[p.name] = e
        ctx.saw([round(float(x), 9) for x in (k['T'], k['Q'], k['N'], k['Y'])])
    want = ref.solve(sp, aero, None, prop, ei=ei, plist=pl)
    pr = parts['prop_results']['total']
    compare_part(ctx, 'propeller', pr, want['prop'], want['fs'], want['ms'], 1e-7)
    compare_part(ctx, 'total', tot, want['total'], want['fs'], want['ms'], 1e-7)
