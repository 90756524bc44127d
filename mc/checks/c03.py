"""C03: omitted states and keys mean the documented defaults."""
import itertools
import os
from .. import engine, impl, menu, session
from .. import spec as S

ASSUMPTIONS = ['both calls are made on newly made models; outcomes are compared with a relative tolerance of 1e-9 (solutions, distributions) or 1e-6 '
               '(analyses built on differences or iterations)', 'an empty dictionary is a control state without keys']
CASE_LIMIT = 180

KEYS = ('alpha', 'beta', 'roll_rate', 'pitch_rate', 'yaw_rate')
VALUES = dict(alpha=4., beta=-3., roll_rate=.25, pitch_rate=.15, yaw_rate=-.2)
SURF = ('aileron', 'elevator', 'rudder', 'flap')
DEFL = dict(aileron=4., elevator=-6., rudder=5., flap=14.)
ALL_AERO = ['none'] + [list(s) for k in range(6) for s in itertools.combinations(KEYS, k)] + [list(KEYS)]
FEW_AERO = ['none', list(KEYS), ['alpha'], ['beta', 'yaw_rate'], []]
ALL_CTRL = ['none'] + [list(s) for k in range(4) for s in itertools.combinations(SURF, k)] + [list(SURF)]
FEW_CTRL = ['none', list(SURF), ['elevator'], []]
BASES = {'rich': menu.rich, 'propped': menu.propped, 'prop only': menu.prop_only, 'half': menu.half}
ANALYSES = ['solve', 'distributions', 'derivatives', 'stability_derivatives', 'damping_derivatives', 'control_derivatives', 'target_lift', 'pitch_trim',
            'stall_onset', 'stall_airspeed', 'find_aero_center']


def spaces(tier):
    q = tier == 'quick'
    A, C, P = [('aero state without', ALL_AERO)], [('control state without', ALL_CTRL)], [('propeller state', ['none', 'J', 'rps'])]
    f = [('file', [False, True])]
    out = [engine.Product('solutions', [('base', ['rich', 'propped']), ('analysis', ['solve', 'distributions'])] + A + C + P + f, case),
           engine.Product('propellers', [('base', ['prop only']), ('analysis', ['solve', 'distributions'])] + A + [('control state without', ['none', []])] + P + f, case)]
    light = ['derivatives', 'stability_derivatives', 'damping_derivatives', 'control_derivatives', 'target_lift', 'pitch_trim']
    out.append(engine.Product('analyses', [('base', ['rich']), ('analysis', light)] + (A + C if not q else A + [('control state without', FEW_CTRL)]) + P[:0] + f, lambda *a: case(*(a[:-1] + ('none',) + a[-1:]))))
    out.append(engine.Product('analyses without control keys', [('base', ['rich', 'half']), ('analysis', light), ('aero state without', FEW_AERO)] + C + f,
                              lambda *a: case(*(a[:-1] + ('none',) + a[-1:]))))
    out.append(engine.Product('analyses with propellers', [('base', ['propped']), ('analysis', light), ('aero state without', FEW_AERO), ('control state without', FEW_CTRL)] + P + f, case))
    heavy = ['stall_onset', 'find_aero_center']
    out.append(engine.Product('sweeps', [('base', ['rich'] if q else ['rich', 'propped', 'half']), ('analysis', heavy), ('aero state without', FEW_AERO if q else ALL_AERO[:8] + FEW_AERO),
                                         ('control state without', FEW_CTRL)] + ([('propeller state', ['none'])] if q else P) + f, case, chunk=4))
    out.append(engine.Product('sweeps with propellers', [('base', ['propped']), ('analysis', heavy), ('aero state without', ['none', list(KEYS)]), ('control state without', ['none', []])] + P + f, case, chunk=1))
    out.append(engine.Product('stall speed', [('base', ['rich'] if q else ['rich', 'half', 'propped']), ('analysis', ['stall_airspeed']), ('aero state without', ['none', list(KEYS)] if q else FEW_AERO), ('control state without', ['none', ['elevator']])]
                              + ([('propeller state', ['none'])] if q else P) + f, case, chunk=1))

    def tolerance(base, analysis, aero, ctrl, error, file):
        c = case(base, analysis, aero, ctrl, 'none', file)
        if c is not None:
            c['error'] = error
        return c
    for b, an, errs in (('rich', ['target_lift', 'pitch_trim'], [.5, .05, 1e-3, 1e-6]), ('propped', ['target_lift', 'pitch_trim'], [.05, 1e-3]), ('rich', ['stall_airspeed'], [1., 1e-2])):
        out.append(engine.Product('tolerance %s %s' % (b, an[0]), [('base', [b]), ('analysis', an), ('aero state without', FEW_AERO if an[0] != 'stall_airspeed' else ['none', list(KEYS)]),
                                                         ('control state without', FEW_CTRL if an[0] != 'stall_airspeed' else ['none', []]), ('error', errs)] + f, tolerance, chunk=4))
    return out


def case(base, analysis, aero, ctrl, prop, file):
    if file and analysis in ('stability_derivatives', 'damping_derivatives', 'control_derivatives'):
        return None
    if base == 'prop only' and analysis not in ('solve', 'distributions'):
        return None
    if base == 'half' and analysis == 'pitch_trim':
        return None
    c = session.small(BASES[base](), nodes=6)
    return dict(spec=c['spec'], analysis=analysis, aero=aero, ctrl=ctrl, prop=prop, file=file, base=base)


def run(c, spelled):
    """One call; keyword arguments are left out or spelled out."""
    kw = {}
    if c['aero'] == 'none':
        if spelled:
            kw['aero_state'] = dict({k: 0. for k in KEYS}, V_mag=10., rho=.0023769)
    else:
        a = dict(V_mag=28., rho=.0021)
        for k in KEYS:
            if k not in c['aero']:
                a[k] = VALUES[k]
            elif spelled:
                a[k] = 0.
        kw['aero_state'] = a
    if c['ctrl'] == 'none':
        if spelled:
            kw['control_state'] = {k: 0. for k in SURF}
    else:
        d = {}
        for k in SURF:
            if k not in c['ctrl']:
                d[k] = DEFL[k]
            elif spelled:
                d[k] = 0.
        kw['control_state'] = d
    if c['prop'] == 'none':
        if spelled:
            kw['prop_state'] = dict(J=.5)
    else:
        kw['prop_state'] = dict(J=.37) if c['prop'] == 'J' else dict(rot_per_sec=40.)
    s = .5 * (.0023769 * 100. if c['aero'] == 'none' else .0021 * 28. ** 2) * 4.
    if c['analysis'] == 'target_lift':
        kw['L_target'] = .3 * s
    if c['analysis'] == 'pitch_trim':
        kw['L_target'] = .3 * s
        kw['m_target'] = .1 * s
    if c['analysis'] == 'stall_airspeed':
        kw['weight'] = 2. * s
    if c.get('error') is not None:
        kw['error'] = c['error'] * (s if c['analysis'] == 'pitch_trim' else 1.)
    path = None
    if c['file']:
        path = S.scratch_file('.json' if c['analysis'] != 'distributions' else '.txt')
        kw['filename'] = path
    m = impl.model(c['spec'])
    try:
        with impl.quiet():
            out = ['value', getattr(m, c['analysis'])(**kw)]
    except Exception as e:
        import traceback
        out = ['error', type(e).__name__, traceback.format_exc()]
    if path:
        out.append(session.parse(open(path).read()) if os.path.exists(path) else 'no file')
        if os.path.exists(path):
            os.remove(path)
    return out


def check(c, ctx):
    want = run(c, True)
    got = run(c, False)
    ctx.traces += 2
    if want[0] == 'error':
        if got[0] != 'error' or got[1] != want[1]:
            ctx.fail('answered %s, spelled out it fails with %s' % (str(got[:2])[:300], want[1]))
        elif want[1] not in ('RuntimeError', 'LinAlgError'):
            ctx.fail('spelled out it fails: %s' % want[2][-400:])
        ctx.note('calls_that_fail_alike')
        ctx.saw([c['analysis'], 'error'])
        return
    if got[0] == 'error':
        ctx.fail('fails: %s' % got[2][-300:])
        return
    tol = {'solve': 1e-9, 'distributions': 1e-9}.get(c['analysis'], 1e-6)
    d = session.differs(got, want, tol, c['analysis'])
    if d:
        ctx.fail(d)
    ctx.saw([c['analysis'], str(want)[:3000]])
