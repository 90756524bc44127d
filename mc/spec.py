"""Airplane descriptions (plain data) and the two ways of turning them into
machup airplanes: construction calls and an input file."""
import copy
import json
import os
from collections import OrderedDict

AF_DEFAULT = dict(alpha_L0=-0.0369, CL_alpha=6.2832, CL_max=1.4, Cm_L0=-0.0527,
                  Cm_alpha=-0.08, CD0=0.0055, CD0_L=-0.0045, CD0_L2=0.01)
AF_A = dict(name='NACA2412', alpha_L0=-0.0369, CL_alpha=6.28, CL_max=1.4, Cm_L0=-0.0527,
            Cm_alpha=-0.08, CD0=0.0055, CD0_L=-0.0045, CD0_L2=0.01)
AF_B = dict(name='NACA0010', alpha_L0=0.0, CL_alpha=5.7, CL_max=1.1, Cm_L0=0.0,
            Cm_alpha=0.03, CD0=0.007, CD0_L=0.0, CD0_L2=0.02)
AF_C = dict(name='NACA4415', alpha_L0=-0.07, CL_alpha=6.6, CL_max=1.7, Cm_L0=-0.1,
            Cm_alpha=-0.05, CD0=0.009, CD0_L=-0.003, CD0_L2=0.012)
AF_ZERO = dict(name='NACA0012', alpha_L0=0.0, CL_alpha=6.2, CL_max=1.2, Cm_L0=0.0,
               Cm_alpha=0.0, CD0=0.006, CD0_L=0.0, CD0_L2=0.01)

MOTOR = dict(has_motor=True, motor_kv=900., motor_resistance=0.1, motor_no_load_current=0.5,
             gear_reduction=1.5, battery_resistance=0.02, battery_voltage=22.,
             speed_control_resistance=0.004)


def wing(name, **kw):
    w = dict(name=name, side='both', parent=None, pos=[0., 0., 0.], yoffset=0., semispan=4.,
             sweep=0., dihedral=0., mount=0., washout=0., root_chord=1., tip_chord=1., grid=6,
             is_main=1, af=[AF_A], control=None)
    w.update(kw)
    return w


def control(span=(0.4, 0.9), chord=(0.25, 0.25), mix=None, sealed=True):
    return dict(span=list(span), chord=list(chord) if not isinstance(chord, float) else chord,
                mix=dict(mix or {}), sealed=sealed)


def prop(name, **kw):
    p = dict(name=name, pos=[1., 0., 0.], orient=[0., 0.], nodes=15, diameter=1.5, hub=0.15,
             blades=2, rot='CCW', pitch=dict(type='ratio', value=0.5),
             chord=dict(type='linear', root=0.12, tip=0.08), motor={}, af=[AF_A])
    p.update(kw)
    return p


def plane(wings=(), props=(), cg=(0., 0., 0.), lat=None, lon=None, units=None):
    return dict(cg=list(cg), lat=lat, lon=lon, units=units, wings=list(wings), props=list(props))


AFKEYS = ('alpha_L0', 'CL_alpha', 'CL_max', 'Cm_L0', 'Cm_alpha', 'CD0', 'CD0_L', 'CD0_L2')


def _afprops(af):
    return {k: af[k] for k in AFKEYS}


def wing_args(spec, w):
    """Arguments of the construction call for one wing."""
    d = dict(side=w['side'], position=list(w['pos']), is_main=w['is_main'], yoffset=w['yoffset'],
             semispan=w['semispan'], sweep=w['sweep'], dihedral=w['dihedral'],
             mount_angle=w['mount'], washout=w['washout'], root_chord=w['root_chord'],
             tip_chord=w['tip_chord'], grid=w['grid'])
    if w['parent'] is None:
        d['connect_to'] = (None, 'tip')
    else:
        d['connect_to'] = (spec['wings'][w['parent']]['name'], 'tip')
    for k in w.get('omit', ()):
        d.pop(k)
    return d


def prop_args(p):
    d = dict(position=list(p['pos']), orientation=list(p['orient']), nodes=p['nodes'],
             diameter=p['diameter'], hub_diameter=p['hub'], num_of_blades=p['blades'],
             rot_dir=p['rot'], pitch_info=copy.deepcopy(p['pitch']),
             chord_info=copy.deepcopy(p['chord']), electric_motor=dict(p['motor']))
    for k in p.get('omit', ()):
        d.pop(k)
    return d


def build_api(spec):
    from machup import Airplane
    if spec.get('origin') is None:
        a = Airplane('generated')
    else:
        a = Airplane('generated', position=spec['origin'])
    a.cg_location(*spec['cg'])
    if spec['lat'] is not None or spec['lon'] is not None:
        a.set_reference_lengths(lateral=spec['lat'], longitudinal=spec['lon'])
    for w in spec['wings']:
        obj = a.add_wing(w['name'], **wing_args(spec, w))
        afs = w['af']
        if len(afs) == 1:
            obj.airfoil(afs[0]['name'], **_afprops(afs[0]))
        elif len(afs) == 2:
            obj.airfoil(afs[0]['name'], 'root', **_afprops(afs[0]))
            obj.airfoil(afs[1]['name'], 'tip', **_afprops(afs[1]))
        c = w['control']
        if c:
            obj.control_surface(percent_span=tuple(c['span']),
                                percent_chord=c['chord'] if isinstance(c['chord'], float) else tuple(c['chord']),
                                mix=dict(c['mix']), sealed=c['sealed'])
    for p in spec['props']:
        obj = a.add_prop(p['name'], **prop_args(p))
        for af in p['af']:
            kw = _afprops(af)
            if 'span_position' in af:
                kw['span_position'] = af['span_position']
            obj.airfoil(af['name'], **kw)
    return a


def file_data(spec):
    """The input-file contents describing the airplane."""
    data = OrderedDict()
    data['plane'] = dict(name='generated', CGx=spec['cg'][0], CGy=spec['cg'][1], CGz=spec['cg'][2])
    data['reference'] = dict(area=1., longitudinal_length=spec['lon'], lateral_length=spec['lat'])
    data['condition'] = {} if spec['units'] is None else dict(units=spec['units'])

    def afs(lst, isprop):
        out = OrderedDict()
        for af in lst:
            d = dict(type='linear')
            d.update(_afprops(af))
            out[af['name']] = dict(properties=d)
        return out
    if spec['wings']:
        ws = data['wings'] = OrderedDict()
        for i, w in enumerate(spec['wings']):
            d = OrderedDict()
            d['name'] = w['name']
            d['ID'] = w.get('id', i + 1)
            if 'is_main' not in w.get('omit', ()):
                d['is_main'] = w['is_main']
            d['side'] = w['side']
            d['connect'] = dict(ID=0 if w['parent'] is None else
                                spec['wings'][w['parent']].get('id', w['parent'] + 1),
                                location='tip', dx=w['pos'][0], dy=w['pos'][1], dz=w['pos'][2],
                                yoffset=w['yoffset'])
            for k, s in (('span', 'semispan'), ('sweep', 'sweep'), ('dihedral', 'dihedral'),
                         ('mounting_angle', 'mount'), ('washout', 'washout'),
                         ('root_chord', 'root_chord'), ('tip_chord', 'tip_chord'), ('grid', 'grid')):
                d[k] = w[s]
            d['airfoils'] = afs(w['af'], False)
            c = w['control']
            if c:
                cr, ct = (c['chord'], c['chord']) if isinstance(c['chord'], float) else c['chord']
                d['control'] = dict(span_root=c['span'][0], span_tip=c['span'][1], chord_root=cr,
                                    chord_tip=ct, is_sealed=1 if c['sealed'] else 0, mix=dict(c['mix']))
            else:
                d['control'] = {}
            ws[w['name']] = d
    if spec['props']:
        ps = data['propellers'] = OrderedDict()
        for p in spec['props']:
            d = OrderedDict(position=dict(dx=p['pos'][0], dy=p['pos'][1], dz=p['pos'][2]),
                            orientation=dict(elevation_angle=p['orient'][0], heading_angle=p['orient'][1]),
                            radial_nodes=p['nodes'], diameter=p['diameter'], hub_diameter=p['hub'],
                            num_of_blades=p['blades'], rotation_direction=p['rot'],
                            pitch=p['pitch'], chord=p['chord'])
            if p['motor']:
                d['electric_motor'] = p['motor']
            d['airfoils'] = afs(p['af'], True)
            ps[p['name']] = d
    return data


def write_file(spec, path):
    with open(path, 'w') as f:
        json.dump(file_data(spec), f, indent=1)
    return path


_counter = [0]


def scratch_file(ext='.json', name=None):
    _counter[0] += 1
    return os.path.join(os.environ['MC_SCRATCH'], '%d_%d%s' % (os.getpid(), _counter[0], ext)
                        if name is None else name)


def build(spec, via='auto'):
    """A machup Airplane. Units can only be given in an input file, so
    airplanes with units always come from one."""
    if via == 'file' or (via == 'auto' and spec['units'] is not None):
        path = scratch_file()
        try:
            from machup import Airplane
            return Airplane(inputfile=write_file(spec, path))
        finally:
            if os.path.exists(path):
                os.remove(path)
    return build_api(spec)


def mirror(spec):
    """The mirror image about the plane of symmetry."""
    s = copy.deepcopy(spec)
    flip = {'left': 'right', 'right': 'left', 'both': 'both'}
    s['cg'][1] = -s['cg'][1]
    for w in s['wings']:
        w['side'] = flip[w['side']]
        w['pos'][1] = -w['pos'][1]
    for p in s['props']:
        p['pos'][1] = -p['pos'][1]
        p['orient'][1] = -p['orient'][1]
        p['rot'] = {'CCW': 'CW', 'CW': 'CCW', 'ccw': 'cw', 'cw': 'ccw', 1: -1, -1: 1}[p['rot']]
    return s


def scale(spec, k):
    """All lengths times k."""
    s = copy.deepcopy(spec)
    s['cg'] = [k * x for x in s['cg']]
    for key in ('lat', 'lon'):
        if s[key] is not None:
            s[key] *= k
    for w in s['wings']:
        w['pos'] = [k * x for x in w['pos']]
        for key in ('yoffset', 'semispan', 'root_chord', 'tip_chord'):
            w[key] *= k
    for p in s['props']:
        p['pos'] = [k * x for x in p['pos']]
        p['diameter'] *= k
        p['hub'] *= k
        for d in (p['pitch'], p['chord']):
            if d['type'] in ('value', 'linear', 'elliptical'):
                for key in ('value', 'root', 'tip'):
                    if key in d:
                        d[key] *= k
    return s


def translate(spec, d):
    """The whole airplane moved by d."""
    s = copy.deepcopy(spec)
    s['cg'] = [a + b for a, b in zip(s['cg'], d)]
    for w in s['wings']:
        if w['parent'] is None:
            w['pos'] = [a + b for a, b in zip(w['pos'], d)]
    for p in s['props']:
        p['pos'] = [a + b for a, b in zip(p['pos'], d)]
    return s
