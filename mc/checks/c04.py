"""C04: the analysis grid reproduces the airplane geometry that was entered."""
import math
import numpy as np
from .. import engine, impl, menu, ref
from .. import spec as S

ASSUMPTIONS = ['the grid is observed through the public getters of machup.LLGrid and the wing distributions']


def omit(*keys):
    def f(c):
        c['spec']['wings'][0]['omit'] = tuple(keys)
    return f


def origin(v):
    def f(c):
        c['spec']['origin'] = v
    return f


def chain():
    """Four wings attached one to the next, and one on the second."""
    af = [S.AF_A, S.AF_B]
    return menu.situation(S.plane(wings=[
        S.wing('a', semispan=2., sweep=10., dihedral=4., tip_chord=.9, yoffset=.3, af=af, grid=4),
        S.wing('b', parent=0, semispan=1.5, sweep=-12., dihedral=-6., root_chord=.9, tip_chord=.7, grid=3, is_main=0,
               pos=[-.05, .02, .04], yoffset=.1, washout=2.),
        S.wing('c', parent=1, side='right', semispan=1., sweep=40., dihedral=35., root_chord=.7, tip_chord=.2, grid=2),
        S.wing('d', parent=1, side='left', semispan=.8, sweep=5., dihedral=80., root_chord=.6, tip_chord=.5, grid=3,
               mount=3.),
        S.wing('e', pos=[-3., 0., 0.], yoffset=.15, semispan=1., grid=2, af=[S.AF_C], is_main=0)],
        cg=(-.2, 0., .1)))


def spaces(tier):
    m = menu.wing_menu() + menu.frame_menu()
    m += menu.sub(menu.ctrl_menu(), 'control surface', 'tapered unsealed surface', 'full-span elevon', 'no surface')
    m += [('grid spacing', 'linear spacing', lambda c: c.update(cosine=False)),
          ('via', 'input file', lambda c: c.update(via='file')),
          ('omit', 'tip chord left out', omit('tip_chord')),
          ('omit', 'all left out but the grid', omit('position', 'is_main', 'yoffset', 'semispan', 'sweep', 'dihedral',
                                                    'mount_angle', 'washout', 'root_chord', 'tip_chord')),
          ('omit', 'everything left out', omit('position', 'is_main', 'yoffset', 'semispan', 'sweep', 'dihedral',
                                               'mount_angle', 'washout', 'root_chord', 'tip_chord', 'grid')),
          ('omit', 'angles left out', omit('sweep', 'dihedral', 'mount_angle', 'washout', 'position')),
          ('origin', 'airplane position', origin([2., -.5, .25])),
          ('origin', 'airplane position 0', origin([0., 0., 0.])),
          ('w0x', 'parent swept', menu.W(1, sweep=22.)),
          ('w0y', 'other wing offset', menu.W(1, yoffset=.35)),
          ('w0z', 'other wing both', menu.SIDE(3, 'right'))]
    bases = [('plain', menu.plain), ('rich', menu.rich), ('half', menu.half), ('chain', chain)]
    return [engine.Deviations('geometry', bases, m, 2 if tier == 'quick' else 3),
            engine.Deviations('extremes', bases, menu.extreme_menu(False, False), 2 if tier == 'quick' else 3),
            engine.Deviations('ladders', bases, menu.ladder_menu(False, False), 1 if tier == 'quick' else 2)] + (
               [engine.Deviations('pairs of ladders', bases, menu.ladder_menu(False, False, every=4), 2)] if tier == 'quick' else [])


def check(c, ctx):
    sp = c['spec']
    cosine = c.get('cosine', True)
    via = c.get('via', 'auto')
    if via == 'file' and (sp.get('origin') is not None or any(w.get('omit') for w in sp['wings'])
                          or any(not w['af'] for w in sp['wings'])):
        raise engine.Degenerate('cannot be written in an input file')
    w = ref.grid(sp, cosine)
    plane = impl.airplane(sp, via)
    with impl.quiet():
        g = impl.machup.LLGrid(plane, cosine)
    ctx.traces += 1
    L = float(np.max(np.abs(np.concatenate([w.r1, w.r2])))) + 1.
    ctx.equal('names', [str(x) for x in g.get_wing_names()], w.name)
    ctx.equal('number of sections', plane.get_num_sections(), w.n)
    ctx.close('control points', g.get_control_point_pos(), w.r, L, 1e-11)
    r1, r2 = g.get_corner_point_pos()
    ctx.close('left corners', r1, w.r1, L, 1e-11)
    ctx.close('right corners', r2, w.r2, L, 1e-11)
    ctx.close('spacing', g.get_cp_spacing(), w.s, 1., 1e-11)
    ctx.close('chord', g.get_chord_length(), w.c, 1., 1e-11)
    c1, c2 = g.get_chord_lengths()
    ctx.close('left chord', c1, w.c1, 1., 1e-11)
    ctx.close('right chord', c2, w.c2, 1., 1e-11)
    ctx.close('twist', g.get_twist(), w.twist, 1., 1e-10)
    ctx.close('sweep', g.get_sweep(), w.sweep, 1., 1e-11)
    ctx.close('dihedral', g.get_dihedral(), w.dih, 1., 1e-11)
    ctx.close('area', g.get_section_areas(), w.area, np.sum(w.area), 1e-11)
    ctx.close('reference area', g.get_reference_area(), w.sref, np.sum(w.area), 1e-11)
    ctx.close('mean square chord', g.get_integral_chord2(), w.ic2, np.sum(w.ic2), 1e-11)
    ctx.close('axial vectors', g.get_unit_axial_vectors(), w.ua, 1., 1e-11)
    ctx.close('normal vectors', g.get_unit_normal_vectors(), w.un, 1., 1e-11)
    ctx.close('spanwise vectors', g.get_unit_spanwise_vectors(), w.us, 1., 1e-11)
    ctx.close('cg', g.get_cg_location(), w.cg, 1., 1e-12)
    for what, got, want in (
            ('lift slope', g.get_lift_slopes(), w.mid['CL_alpha']), ('left lift slope', g.get_left_lift_slopes(), w.left['CL_alpha']),
            ('right lift slope', g.get_right_lift_slopes(), w.right['CL_alpha']), ('max lift', g.get_max_lifts(), w.mid['CL_max']),
            ('zero-lift angle', g.get_zero_lift_alpha(), w.mid['alpha_L0']),
            ('left zero-lift angle', g.get_left_zero_lift_alpha(), w.left['alpha_L0']),
            ('right zero-lift angle', g.get_right_zero_lift_alpha(), w.right['alpha_L0']),
            ('moment slope', g.get_moment_slopes()[0], w.mid['Cm_alpha']), ('moment', g.get_moment_slopes()[1], w.mid['Cm_L0']),
            ('left moment slope', g.get_left_moment_slopes(), w.left['Cm_alpha']),
            ('right moment slope', g.get_right_moment_slopes(), w.right['Cm_alpha']),
            ('left moment', g.get_left_zero_lift_moments(), w.left['Cm_L0']),
            ('right moment', g.get_right_zero_lift_moments(), w.right['Cm_L0']),
            ('left drag', g.get_left_drag_coeff(), [w.left[k] for k in ('CD0', 'CD0_L', 'CD0_L2')]),
            ('right drag', g.get_right_drag_coeff(), [w.right[k] for k in ('CD0', 'CD0_L', 'CD0_L2')])):
        ctx.close(what, got, want, 1., 1e-11)
    # independent of the reference model: the sections of a half tile it
    p1, p2, area = np.asarray(r1), np.asarray(r2), np.asarray(g.get_section_areas())
    for name, side, i0, n, wi in w.segments:
        d = ref.wing_defaults(sp['wings'][wi])
        sl = slice(i0, i0 + n)
        ctx.close('%s: sections join' % name, p1[sl][1:], p2[sl][:-1], L, 1e-11)
        root, tip = ref.root_of(sp, wi, side), ref.tip_of(sp, wi, side)
        a, b = (tip, root) if side == 'left' else (root, tip)
        ctx.close('%s: left end' % name, p1[sl][0], a, L, 1e-11)
        ctx.close('%s: right end' % name, p2[sl][-1], b, L, 1e-11)
        planform = d['semispan'] * 0.5 * (d['root_chord'] + d['tip_chord'])
        ctx.close('%s: planform area' % name, np.sum(area[sl]), planform, planform, 1e-10)
    if cosine and w.lon is not None:
        with impl.quiet():
            m = impl.MU.MachUp(inputAirplane=plane)
        wd, _ = impl.call(m, 'distributions', dict(V_mag=10., rho=.002, alpha=2.))
        for k, want in (('control_points', w.r), ('chord', w.c), ('twist', w.twist), ('dihedral', w.dih),
                        ('sweep', w.sweep), ('area', w.area), ('section_alpha_L0', w.mid['alpha_L0'])):
            ctx.close('distribution %s' % k, wd[k], want, L, 1e-10)
        ctx.traces += 1
    ctx.saw([round(float(x), 9) for x in (w.sref, np.sum(w.r), np.sum(w.c), np.sum(w.ic2), np.sum(w.un), w.n)])
