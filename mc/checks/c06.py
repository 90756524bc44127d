"""C06: force accounts balance."""
import numpy as np
from .. import engine, impl, menu, ref
from ..util import FORCES, MOMENTS, solve_parts

ASSUMPTIONS = ['accounts are read from the returned totals, the output file of solve and the distributions']


def spaces(tier):
    m = menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu() + menu.prop_menu()
    bases = [('plain', menu.plain), ('rich', menu.rich), ('propped', menu.propped), ('prop only', menu.prop_only)]
    if tier == 'quick':
        drop = ('prop hub', 'prop 1 blade', 'prop 32 nodes', 'pitch value', 'chord constant', 'airfoil C', 'grid 40',
                'rudder 8', 'elevator 5', 'mount -3', 'washout -2', 'sweep -20', 'cg int', 'span 9 (int)', 'ref both', 'ref lon')
        m = [t for t in m if t[1] not in drop]
        return [engine.Deviations('accounts', bases, m, 2), engine.Deviations('extremes', bases, menu.extreme_menu(), 2),
                engine.Deviations('ladders', bases, menu.ladder_menu(), 1),
                engine.Deviations('pairs of ladders', bases[2:3], menu.ladder_menu(every=8), 2)]
    return [engine.Deviations('extremes', bases, menu.extreme_menu(), 3), engine.Deviations('ladders', bases, menu.ladder_menu(), 1),
            engine.Deviations('accounts', bases, m, 2),
            engine.Deviations('wing accounts', bases[:2], menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu(), 3)]


def check(c, ctx):
    sp, aero = c['spec'], c['aero']
    if not sp['wings'] and not sp['props']:
        raise engine.Degenerate('nothing there')
    if sp['wings']:
        g = ref.grid(sp)
        u, v, rho = ref.wing_state(g, aero)
        ref.lifting_line(g, u, v, rho, c['ctrl'])      # only to leave out degenerate geometry
    m = impl.model(sp)
    tot, parts = solve_parts(m, aero, c['ctrl'], c['prop'])
    ctx.traces += 1
    w, p = parts['wing_results'], parts['prop_results']
    ctx.equal('has wing results', bool(w), bool(sp['wings']))
    ctx.equal('has propeller results', bool(p), bool(sp['props']))
    wt, pt = w.get('total', {}), p.get('total', {})
    mag = lambda d: float(np.linalg.norm([d.get(k, 0.) for k in ('FX', 'FY', 'FZ')]))
    mmag = lambda d: float(np.linalg.norm([d.get(k, 0.) for k in MOMENTS]))
    fs = mag(wt) + mag(pt) + sum(mag(w.get(k, {})) for k in ('inviscid', 'viscous'))
    ms = mmag(wt) + mmag(pt) + sum(mmag(w.get(k, {})) for k in ('inviscid', 'viscous'))
    for k in FORCES + MOMENTS:
        s = fs if k in FORCES else ms
        ctx.close('total %s' % k, tot[k], wt.get(k, 0.) + pt.get(k, 0.), s, 1e-10)
        ctx.close('file total %s' % k, parts['total_results'][k], tot[k], s, 1e-12)
        if w:
            ctx.close('wing total %s' % k, wt[k], w['inviscid'][k] + w['viscous'][k], s, 1e-10)
    if w:
        ctx.close('L/D', wt['L/D'] * wt['FD'], wt['FL'], fs * (1. + abs(wt['L/D'])), 1e-9)
    # one set of wind axes for every account
    d = ref.direction(aero.get('alpha', 0.), aero.get('beta', 0.))
    for name, part in [('total', tot)] + [('wing ' + k, w[k]) for k in w] + [('propeller', pt)] * bool(p):
        F = np.array([part[k] for k in ('FX', 'FY', 'FZ')], float)
        L, D, Sd = ref.wind_axes(d, F)
        for k, x in (('FL', L), ('FD', D), ('FS', Sd)):
            ctx.close('%s %s' % (name, k), part[k], x, fs, 1e-9)
        ctx.close('%s magnitude' % name, np.linalg.norm([part[k] for k in ('FL', 'FD', 'FS')]), np.linalg.norm(F), fs, 1e-9)
    # section forces
    if w:
        wd, pd = impl.call(m, 'distributions', aero, c['ctrl'], c['prop'])
        ctx.traces += 1
        ctx.close('sum of section forces', np.sum(wd['forces_xyz'], axis=0), [w['inviscid'][k] for k in ('FX', 'FY', 'FZ')],
                  np.sum(np.abs(wd['forces_xyz'])), 1e-10)
    # another centre of gravity, when nothing rotates about it
    if not any(aero.get(k) for k in ('roll_rate', 'pitch_rate', 'yaw_rate')):
        for shift in ((.7, 0., 0.), (0., -.4, 0.), (.3, .2, -.5)):
            sp2 = dict(sp, cg=[a + b for a, b in zip(sp['cg'], shift)])
            t2, parts2 = solve_parts(impl.model(sp2), aero, c['ctrl'], c['prop'])
            ctx.traces += 1
            for name, a, b in [('total', tot, t2), ('propeller', pt, parts2['prop_results'].get('total', {}))] + \
                    [('wing ' + k, w[k], parts2['wing_results'][k]) for k in w]:
                if not a:
                    continue
                F = np.array([a[k] for k in ('FX', 'FY', 'FZ')], float)
                want = np.array([a[k] for k in MOMENTS]) - np.cross(shift, F)
                ctx.close('%s moments with the cg moved by %s' % (name, shift), [b[k] for k in MOMENTS], want, ms + fs, 1e-9)
                ctx.close('%s forces with the cg moved by %s' % (name, shift), [b[k] for k in FORCES], [a[k] for k in FORCES], fs, 1e-9)
    ctx.saw([round(float(tot[k]), 8) for k in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')])
