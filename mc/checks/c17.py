"""C17: stall onset is the first stalled section and stall speed carries the
weight."""
import os
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S
from ..util import load_json, scales

ASSUMPTIONS = ['when several sections stall at the same step any of them may be named',
               'stall onset of wings in propeller slipstream uses the reference propeller (C12 decides the propeller)',
               'a stall airspeed must be found when neither body rates nor a fixed propeller speed tie the flow to one airspeed']
CASE_LIMIT = 180
STRONG = dict(S.AF_A, CL_max=60.)


def common():
    m = []
    m.append(('af', 'strong', menu.W(0, af=[STRONG])))
    m.append(('af', 'weak tip', menu.W(0, af=[S.AF_C, dict(S.AF_B, CL_max=.5)])))
    m.append(('af', 'weak root', menu.W(0, af=[dict(S.AF_B, CL_max=.4), S.AF_C])))
    m.append(('af', 'negative limit', menu.W(0, af=[dict(S.AF_A, CL_max=-.05)])))
    m.append(('tail', 'weak tail', menu.W(1, af=[dict(S.AF_B, CL_max=.2)])))
    m.append(('alpha', 'alpha 40', menu.A(alpha=40.)))
    m.append(('names', 'name with right', menu.W(0, name='rightmost')))
    m.append(('names', 'name with left', menu.W(0, name='left_main')))
    return m


def spaces(tier):
    q = tier == 'quick'
    m = [t for t in menu.wing_menu() + menu.frame_menu() + menu.aero_menu() + menu.ctrl_menu()
         if t[0] not in ('cg', 'ref', 'main') and t[1] not in ('grid 40', 'no airfoil', 'airfoil C', 'span 9 (int)', 'wing moved (int)', 'rho 1.2')]
    m += common()
    pm = [t for t in menu.prop_menu() if t[0] in ('ppos', 'por', 'prot', 'ps', 'p2')]
    bases = [('plain', menu.plain), ('rich', menu.rich), ('half', menu.half)]

    def speed(base, factor, start, rates, ctrl, change):
        c = dict(plain=menu.plain, rich=menu.rich, half=menu.half, propped=menu.propped)[base]()
        for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
            c['aero'].pop(k, None)
        c['aero'].update(rates)
        c['aero']['V_mag'] = start
        if ctrl is not None:
            c['ctrl'] = ctrl
        if change is not None and change(c) is False:
            return None
        c['factor'] = factor
        return c
    sp = [('base', ['plain', 'rich', 'half', 'propped']), ('weight', [.3, 1., 4.] if q else [.05, .3, 1., 4., 25.]), ('start', [10., 35.] if q else [5., 10, 35.]),
          ('rates', [{}, {'roll_rate': .3}] if q else [{}, {'roll_rate': .3}, {'pitch_rate': .4, 'yaw_rate': -.2}]), ('controls', [None, dict(flap=8., elevator=-10.)])]
    changes = [None] if q else [None, menu.W(0, washout=6.), menu.W(0, sweep=-25.), menu.A(rho=.03), menu.A(beta=6.), menu.PSET(dict(rot_per_sec=30.))]
    ax = [engine.Product('airspeed', sp + [('change', list(range(len(changes))))], lambda *a: speed(*a[:-1], changes[a[-1]]))]
    ext = engine.Deviations('extremes', bases + [('propped', menu.propped)], menu.extreme_menu(), 1)
    if q:
        few = [t for t in m if t[0] in ('af', 'wash', 'sweep', 'beta', 'p', 'df', 'da', 'side', 'w1', 'w2', 'dih', 'names', 'tail', 'mount', 'tipc', 'cs', 'alpha')]
        return [engine.Deviations('onset', bases[:1], m, 1), engine.Deviations('onset of several', bases[1:], few, 1),
                engine.Deviations('pairs', bases[:1], few, 2),
                engine.Deviations('slipstream', [('propped', menu.propped)], pm + few, 1), ext] + ax
    return [ext, engine.Deviations('onset', bases, m, 2), engine.Deviations('slipstream', [('propped', menu.propped)], pm + m, 2)] + ax


def attempt(m, name, *args):
    try:
        return impl.call(m, name, *args), None
    except RuntimeError as e:
        return None, str(e)


def sweep(c, g, pl):
    """First stalled step by the reference: (step, alpha, stalled sections,
    doubt)."""
    sp, ctrl, prop = c['spec'], c['ctrl'], c['prop']
    a, k = 0., 0
    extra = None
    doubt = False
    while a <= 90.:
        aero = dict(c['aero'], alpha=a)
        if pl:
            r = ref.solve(sp, aero, ctrl, prop, g=g, plist=pl)
            w = r['wing']
            if np.any(r['edge']):
                raise engine.Degenerate('edge of a slipstream')
        else:
            u, v, rho = ref.wing_state(g, aero)
            w = ref.lifting_line(g, u, v, rho, ctrl)
        cl = w['dist']['section_CL']
        over = cl - g.mid['CL_max']
        if np.any(np.abs(over) < 1e-6):
            doubt = True
        if np.any(over > 0.):
            return k, a, np.where(over > 0.)[0], doubt, w
        a += .1
        k += 1
    return None, None, None, doubt, None


def check(c, ctx):
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'], c['prop']
    g = ref.grid(sp)
    m = impl.model(sp)
    path = S.scratch_file('.json')
    if 'factor' in c:
        return airspeed(c, ctx, m, path)
    pl = ref.props(sp) if sp['props'] else None
    k, a, over, doubt, w = sweep(c, g, pl)
    if doubt:
        raise engine.Degenerate('a section exactly at its limit')
    res, why = attempt(m, 'stall_onset', aero, ctrl, prop)
    res_f, why_f = attempt(m, 'stall_onset', aero, ctrl, prop, path)
    ctx.traces += 2
    ctx.true('failed in spite of a file name', res_f is not None)
    data = load_json(path)
    if k is None:
        ctx.true('an airplane that does not stall was given %s' % (res,), res is None)
        ctx.true('failure not in the file', 'error' in data)
        ctx.saw(['unstallable'])
        return
    if res is None:
        ctx.fail('stall at %.1f degrees not found: %s' % (a, why))
        return
    ctx.equal('file', data, engine.jsonable(res))
    ctx.equal('with a file name', engine.jsonable(res_f), engine.jsonable(res))
    ctx.close('angle of attack', res['alpha'], .1 * k, 1., .011)
    names = [g.name[j] for j in over]
    if ctx.true('stalled wing is %s, expected one of %s' % (res['stalled_wing'], sorted(set(names))), str(res['stalled_wing']) in names):
        loc = [g.frac[j] for j in over if g.name[j] == str(res['stalled_wing'])]
        ctx.true('span location %s is not that of a stalled section %s' % (res['span_location'], loc),
                 min(abs(float(res['span_location']) - x) for x in loc) < 1e-9)
    t = impl.call(impl.model(sp), 'solve', dict(aero, alpha=a), ctrl, prop)
    fs, _ = scales(t)
    ctx.close('lift', res['lift'], t['FL'], fs, 1e-9)
    ctx.saw([k, names[0]])


def airspeed(c, ctx, m, path):
    sp, aero, ctrl, prop = c['spec'], c['aero'], c['ctrl'], c['prop']
    judge = impl.model(sp)
    o, _ = attempt(judge, 'stall_onset', aero, ctrl, prop)
    if o is None:
        raise engine.Degenerate('does not stall')
    weight = c['factor'] * abs(o['lift'])
    res, why = attempt(m, 'stall_airspeed', weight, aero, ctrl, prop)
    free = not any(aero.get(k) for k in ('roll_rate', 'pitch_rate', 'yaw_rate')) and not (prop and 'rot_per_sec' in prop)
    ctx.traces += 2
    if res is None:
        if free and o['lift'] > 0.:
            ctx.fail('stall airspeed for weight %g not found: %s' % (weight, why))
        attempt(m, 'stall_airspeed', weight, aero, ctrl, prop, path)
        if os.path.exists(path):
            ctx.true('failure not in the file', 'error' in load_json(path))
        ctx.saw(['none'])
        return
    r2, _ = attempt(m, 'stall_airspeed', weight, aero, ctrl, prop, path)
    ctx.equal('file', load_json(path), engine.jsonable(r2))
    ctx.equal('with a file name', engine.jsonable(r2), engine.jsonable(res))
    V = res['airspeed']
    ctx.true('stall airspeed is %s' % V, V > 0.)
    here = [attempt(judge, 'stall_onset', dict(aero, V_mag=V + d), ctrl, prop)[0] for d in (0., 1e-7, -1e-7)]
    ctx.traces += 4
    if any(x is None for x in here):
        ctx.fail('no stall at the stall airspeed %g' % V)
        return
    if len(set((x['alpha'], str(x['stalled_wing'])) for x in here)) == 1:
        ctx.close('lift at the stall airspeed', here[0]['lift'], weight, weight, 1e-7)
        ctx.close('angle of attack', res['alpha'], here[0]['alpha'], 1., 1e-9)
        ctx.equal('stalled wing', str(res['stalled_wing']), str(here[0]['stalled_wing']))
        ctx.close('span location', res['span_location'], here[0]['span_location'], 1., 1e-9)
        ctx.close('reported lift', res['lift'], weight, weight, 1e-6)
    if free:
        ctx.close('square of the airspeed', (V / aero['V_mag']) ** 2 * o['lift'], weight, weight, 1e-6)
    ctx.saw([round(V, 6), str(res['stalled_wing'])])
