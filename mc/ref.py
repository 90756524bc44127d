"""Reference model of an airplane, written from the documented equations and
from plain data (mc/spec.py). It imports nothing from machup."""
import math
import numpy as np

AFD = dict(name='NACA2412', alpha_L0=-0.0369, CL_alpha=6.2832, CL_max=1.4, Cm_L0=-0.0527,
           Cm_alpha=-0.08, CD0=0.0055, CD0_L=-0.0045, CD0_L2=0.01)
DEFAULT_AERO = {'V_mag': 10., 'rho': 0.0023769, 'alpha': 0.}
RAD = math.pi / 180.


from .engine import Degenerate  # noqa


class Invalid(Exception):
    """The request has no answer."""


def wing_defaults(w):
    """Fill in what the specification left out."""
    d = dict(w)
    dflt = dict(pos=[0., 0., 0.], is_main=1, yoffset=0., semispan=4., sweep=0., dihedral=0., mount=0.,
                washout=0., root_chord=1., grid=40)
    names = dict(position='pos', mount_angle='mount')
    for k in w.get('omit', ()):
        k2 = names.get(k, k)
        if k2 == 'tip_chord':
            continue
        d[k2] = dflt[k2]
    if 'tip_chord' in w.get('omit', ()):
        d['tip_chord'] = d['root_chord']
    return d


# ---------------------------------------------------------------- geometry

def tip_of(spec, i, side):
    """End point of wing half i on the given side."""
    w = wing_defaults(spec['wings'][i])
    root = root_of(spec, i, side)
    sg = -1. if side == 'left' else 1.
    sw, di = w['sweep'] * RAD, w['dihedral'] * RAD
    b = w['semispan']
    return root + np.array([-b * math.tan(sw), sg * b * math.cos(di), -b * math.sin(di)])


def root_of(spec, i, side):
    w = wing_defaults(spec['wings'][i])
    sg = -1. if side == 'left' else 1.
    base = np.zeros(3) if spec.get('origin') is None else np.array(spec['origin'], float)
    if w['parent'] is not None:
        base = tip_of(spec, w['parent'], side)
    return base + np.array(w['pos'], float) + np.array([0., sg * w['yoffset'], 0.])


class Grid(object):
    pass


def grid(spec, cosine=True):
    g = Grid()
    cols = {k: [] for k in ('name', 'r', 'r1', 'r2', 's', 's1', 's2', 'c', 'c1', 'c2', 'twist', 'washout',
                            'dih', 'sweep', 'area', 'ua', 'un', 'side', 'afL', 'afR', 'mix', 'eff', 'cmd',
                            'seg', 'frac')}
    g.segments = []
    g.sref = 0.
    g.halves = []
    for i, w0 in enumerate(spec['wings']):
        w = wing_defaults(w0)
        sides = ['left', 'right'] if w['side'] == 'both' else [w['side']]
        for side in sides:
            root, tip = root_of(spec, i, side), tip_of(spec, i, side)
            n = w['grid']
            k = np.arange(n + 1.)
            if cosine:
                corner = 0.5 * (1. - np.cos(math.pi * k / n))
                mid = 0.5 * (1. - np.cos(math.pi * (k[:-1] + 0.5) / n))
            else:
                corner = k / n
                mid = (k[:-1] + 0.5) / n
            lft = side == 'left'
            start, end = (tip, root) if lft else (root, tip)
            # fraction of span from the root
            frac, f1, f2 = (1. - mid, 1. - corner[:-1], 1. - corner[1:]) if lft else (mid, corner[:-1], corner[1:])
            cr, ct = w['root_chord'], w['tip_chord']
            chord = lambda f: cr + f * (ct - cr)
            r1 = start + corner[:-1, None] * (end - start)
            r2 = start + corner[1:, None] * (end - start)
            r = start + mid[:, None] * (end - start)
            tw = (w['mount'] - w['washout'] * frac) * RAD
            sd, cd = math.sin(w['dihedral'] * RAD), math.cos(w['dihedral'] * RAD)
            sg = -1. if lft else 1.
            un = np.stack([-np.sin(tw), -sg * sd * np.cos(tw), -cd * np.cos(tw)], 1)
            ua = np.stack([-np.cos(tw), sg * sd * np.sin(tw), cd * np.sin(tw)], 1)
            area = math.cos(w['sweep'] * RAD) * np.linalg.norm(r2 - r1, axis=1) * 0.5 * (chord(f1) + chord(f2))
            if w['is_main']:
                g.sref += float(np.sum(area))
            afs = w['af'] or [AFD]
            af_root, af_tip = (afs[0], afs[0]) if len(afs) == 1 else (afs[0], afs[1])
            afL, afR = (af_tip, af_root) if lft else (af_root, af_tip)
            mix = np.zeros((n, 4))
            eff, cmd = np.zeros(n), np.zeros(n)
            cs = w['control']
            if cs:
                a, b = cs['span']
                ca, cb = (cs['chord'], cs['chord']) if isinstance(cs['chord'], float) else cs['chord']
                on = (frac > a) & (frac < b)
                if np.min(np.abs(np.concatenate([frac - a, frac - b]))) < 1e-10:
                    raise Degenerate('control point on the edge of a control surface')
                cf = ca + (frac - a) / (b - a) * (cb - ca)
                th = np.arccos(2. * np.where(on, cf, 0.5) - 1.)
                e = 1. - (th - np.sin(th)) / math.pi
                eta = 3.9598 * np.arctan((cf + 0.006527) * 89.2574 + 4.898015) - 5.18786
                if not cs['sealed']:
                    eta = eta * 0.8
                eff = np.where(on, eta * e, 0.)
                cmd = np.where(on, (np.sin(2. * th) - 2. * np.sin(th)) / 4., 0.)
                m = [cs['mix'].get(x, 0.) for x in ('aileron', 'elevator', 'rudder', 'flap')]
                mm = np.array([sg * m[0], m[1], sg * m[2], m[3]])
                mix[on] = mm
                g.halves.append((i, side, on))
            name = side + '_' + w['name']
            g.segments.append((name, side, len(cols['name']), n, i))
            for j in range(n):
                cols['name'].append(name)
                cols['side'].append(side)
                cols['afL'].append(afL)
                cols['afR'].append(afR)
                cols['dih'].append(w['dihedral'])
                cols['sweep'].append(w['sweep'])
            for key, val in (('r', r), ('r1', r1), ('r2', r2), ('s', mid), ('s1', corner[:-1]), ('s2', corner[1:]),
                             ('c', chord(frac)), ('c1', chord(f1)), ('c2', chord(f2)), ('twist', tw / RAD),
                             ('area', area), ('ua', ua), ('un', un), ('mix', mix), ('eff', eff), ('cmd', cmd),
                             ('frac', frac), ('washout', w['washout'] * frac)):
                cols[key].extend(list(val))
    for key, val in cols.items():
        if key in ('afL', 'afR', 'name', 'side'):
            setattr(g, key, val)
        else:
            setattr(g, key, np.array(val, dtype=float))
    g.n = len(g.name)
    g.cg = np.array(spec['cg'], float)
    if g.n:
        g.us = np.cross(g.ua, g.un)
        dl = g.r2 - g.r1
        g.dl = dl
        g.ic2 = np.abs(np.sum(g.us * dl, 1)) * (g.c2 ** 2 + g.c1 * g.c2 + g.c1 ** 2) / 3.
        g.left, g.right, g.mid = {}, {}, {}
        for key in ('alpha_L0', 'CL_alpha', 'CL_max', 'Cm_L0', 'Cm_alpha', 'CD0', 'CD0_L', 'CD0_L2'):
            L = np.array([a[key] for a in g.afL], float)
            R = np.array([a[key] for a in g.afR], float)
            g.left[key], g.right[key] = L, R
            g.mid[key] = L + g.s * (R - L)
        g.lat, g.lon = spec['lat'], spec['lon']
        if g.lat is None and g.lon is None:
            g.lat = max(2. * wing_defaults(w)['semispan'] for w in spec['wings'])
            g.lon = g.sref / g.lat
        elif g.lon is None:
            g.lon = g.sref / g.lat
        elif g.lat is None:
            g.lat = g.sref / g.lon
        if not g.lon or not g.lat:
            g.lon = g.lat = None        # no main wing: nothing to refer to
    return g


# ------------------------------------------------------------- flight state

def direction(alpha, beta):
    """Direction the air moves, body axes, angles in degrees."""
    a, b = alpha * RAD, beta * RAD
    v = np.array([-math.cos(a) * math.cos(b), -math.cos(a) * math.sin(b), -math.sin(a) * math.cos(b)])
    return v / math.sqrt(1. - (math.sin(a) * math.sin(b)) ** 2)


def wind_axes(u, F):
    """Lift, drag and side force: components along three perpendicular axes."""
    L = np.cross(u, [0., 1., 0.])
    L /= np.linalg.norm(L)
    S = np.cross(L, u)
    S /= np.linalg.norm(S)
    return float(F @ L), float(F @ u), float(F @ S)


def rates(aero):
    return np.array([aero.get('roll_rate', 0.), aero.get('pitch_rate', 0.), aero.get('yaw_rate', 0.)], float)


def forces_dict(u, F, M=None):
    L, D, S = wind_axes(u, F)
    d = dict(FL=L, FD=D, FS=S, FX=F[0], FY=F[1], FZ=F[2])
    if M is not None:
        d.update(MX=M[0], MY=M[1], MZ=M[2])
    return d


def deflection(g, ctrl):
    ctrl = ctrl or {}
    d = np.array([ctrl.get(x, 0.) for x in ('aileron', 'elevator', 'rudder', 'flap')], float)
    deg = g.mix @ d
    mag = np.abs(deg)
    eff = np.where(mag > 11., 1.09589743589744 - 8.71794871794872e-3 * mag, 1.)
    return deg * RAD, eff


def horseshoes(g, u):
    """Velocity per unit circulation induced at control point j by vortex i
    (j first index)."""
    def rj(p):
        return g.r[:, None, :] - p[None, :, :]
    a, b = rj(g.r1), rj(g.r2)
    na, nb = np.linalg.norm(a, axis=2), np.linalg.norm(b, axis=2)
    t2 = np.cross(u, b) / (nb * (nb - b @ u))[..., None]
    t1 = np.cross(u, a) / (na * (na - a @ u))[..., None]
    den = na * nb * (na * nb + np.sum(a * b, 2))
    np.fill_diagonal(den, 1.)
    bound = np.cross(a, b) * ((na + nb) / den)[..., None]
    k = np.arange(g.n)
    bound[k, k] = 0.
    return (t2 + bound - t1) / (4. * math.pi)


def lifting_line(g, u, v, rho, ctrl):
    """Solve for the wing loads given the wake direction u, the velocity v and
    density rho of every section (v already includes rates and slipstream)."""
    l, r = g.left, g.right
    delta, deff = deflection(g, ctrl)
    flap = g.eff * deff * delta
    vm = np.linalg.norm(v, axis=1)
    vij = horseshoes(g, u)
    A = -(vm * g.area * g.mid['CL_alpha'])[:, None] * np.einsum('jk,jik->ji', g.un, vij)
    A[np.diag_indices(g.n)] += 2. * np.linalg.norm(np.cross(v, g.dl), axis=1)
    geo = np.arctan(np.sum(v * g.un, 1) / np.sum(v * g.ua, 1)) + flap
    cl = (1. - g.s) * l['CL_alpha'] * (geo - l['alpha_L0']) + g.s * r['CL_alpha'] * (geo - r['alpha_L0'])
    with np.errstate(all='ignore'):
        if not np.all(np.isfinite(A)) or np.linalg.cond(A) > 1e8:
            raise Degenerate('lifting-line system')
    gam = np.linalg.solve(A, vm ** 2 * g.area * cl)
    vi = v + np.einsum('i,jik->jk', gam, vij)
    alpha = np.arctan2(np.sum(vi * g.un, 1), np.sum(vi * g.ua, 1))
    q = 0.5 * rho * vm ** 2
    Fi = (rho * gam)[:, None] * np.cross(vi, g.dl)
    scl = (1. - g.s) * l['CL_alpha'] * (alpha - l['alpha_L0']) + g.s * r['CL_alpha'] * (alpha - r['alpha_L0'])
    scd = ((1. - g.s) * (l['CD0'] + l['CD0_L'] * scl + l['CD0_L2'] * scl ** 2)
           + g.s * (r['CD0'] + r['CD0_L'] * scl + r['CD0_L2'] * scl ** 2)) + 0.002 * np.abs(delta) / RAD
    scm = (1. - g.s) * (l['Cm_L0'] + l['Cm_alpha'] * (alpha - l['alpha_L0'])) \
        + g.s * (r['Cm_L0'] + r['Cm_alpha'] * (alpha - r['alpha_L0'])) + delta * g.cmd
    Fv = (q * scd * g.area / np.linalg.norm(vi, axis=1))[:, None] * vi
    arm = g.r - g.cg
    Mi = np.cross(arm, Fi) - (q * scm * g.ic2)[:, None] * g.us
    Mv = np.cross(arm, Fv)
    inv = forces_dict(u, Fi.sum(0), Mi.sum(0))
    vis = forces_dict(u, Fv.sum(0), Mv.sum(0))
    tot = {k: inv[k] + vis[k] for k in inv}
    tot['L/D'] = tot['FL'] / tot['FD']
    dist = dict(name=list(g.name), control_points=g.r, chord=g.c, twist=g.twist, dihedral=g.dih, sweep=g.sweep,
                area=g.area, alpha=alpha, forces_xyz=Fi, section_CL=scl, section_Cm=scm,
                section_CD_parasitic=scd, section_alpha_L0=g.mid['alpha_L0'])
    out = dict(inviscid=inv, viscous=vis, total=tot, dist=dist, gamma=gam, A=A, vji=vij, v=v,
               force_scale=float(np.sum(np.linalg.norm(Fi, axis=1) + np.linalg.norm(Fv, axis=1))),
               moment_scale=float(np.sum(np.linalg.norm(Mi, axis=1) + np.linalg.norm(np.cross(arm, Fi), axis=1)
                                         + np.linalg.norm(Mv, axis=1))))
    if g.lon is not None:
        dist['section_CL_ref'] = scl * g.c / g.lon
    return out


def wing_state(g, aero, extra=None):
    """Wake direction, section velocities and densities for a state."""
    u = direction(aero.get('alpha', 0.), aero.get('beta', 0.))
    if 'local_state' in aero:
        loc = np.array(aero['local_state'], float)
        v, rho = loc[:, 1:].copy(), loc[:, 0].copy()
        if 'V_mag' not in aero:
            m = v.mean(0)
            u = m / np.linalg.norm(m)
    else:
        if 'V_mag' not in aero or 'rho' not in aero:
            raise Invalid('V_mag/rho')
        v = np.tile(aero['V_mag'] * u, (g.n, 1))
        rho = np.full(g.n, float(aero['rho']))
    if extra is not None:
        v = v + extra
    v = v - np.cross(rates(aero), g.r - g.cg)
    return u, v, rho


# --------------------------------------------------------------- propellers

class Prop(object):
    """Blade geometry and section data of one propeller."""

    def __init__(self, p, units, cg, tables=None):
        self.spec = p
        self.name = p['name']
        d = self.d = float(p['diameter'])
        self.n_nodes = p['nodes']
        hub = p['hub']
        om = p.get('omit', ())
        z = self.z = np.linspace(hub / d, 0.999, self.n_nodes)
        self.r = z * d / 2.
        self.k = p['blades']
        self.pos = np.array(p['pos'], float)
        self.units = units
        self.cg = np.array(cg, float)
        el, he = p['orient'][0] * RAD, p['orient'][1] * RAD
        self.el, self.he = el, he
        self.fwd = np.array([math.cos(el) * math.cos(he), math.cos(el) * math.sin(he), -math.sin(el)])
        self.rot = {'CCW': 1., 'ccw': 1., 1: 1., 'CW': -1., 'cw': -1., -1: -1.}[p['rot']]
        afs = p['af'] or [AFD]
        if len(afs) == 1:
            for k in ('alpha_L0', 'CL_alpha', 'CL_max', 'CD0', 'CD0_L', 'CD0_L2'):
                setattr(self, k, np.full(self.n_nodes, float(afs[0][k])))
            self.stations = [(None, afs[0])]
        else:
            st = []
            for a in afs:
                s = a['span_position']
                s = s.lower() if isinstance(s, str) else s
                s = z[0] if s == 'root' else z[-1] if s == 'tip' else s
                st.append((float(s), a))
            st.sort(key=lambda t: t[0])
            self.stations = st
            x = [t[0] for t in st]
            for k in ('alpha_L0', 'CL_alpha', 'CL_max', 'CD0', 'CD0_L', 'CD0_L2'):
                setattr(self, k, np.interp(z, x, [float(t[1][k]) for t in st]))
        tables = tables or {}
        # pitch
        pi = p['pitch']
        if pi['type'] == 'from_file':
            from scipy.interpolate import interp1d
            x, y = tables[pi['filename']]
            chordline = np.radians(interp1d(x, y, kind='cubic', fill_value='extrapolate')(z))
            beta = np.arctan(np.tan(chordline - self.alpha_L0))
        else:
            kc = {'default': 0.5, 'ratio': pi.get('value'), 'value': None if pi['type'] != 'value' else pi['value'] / d}[pi['type']]
            beta = np.arctan(kc / (math.pi * z)) - self.alpha_L0
        if pi.get('pitch_increment'):
            beta = beta + pi['pitch_increment'] * RAD
        self.beta = beta
        ci = p['chord']
        if ci['type'] == 'default':
            self.c = 0.075 * d * np.sqrt(1. - z * z)
        elif ci['type'] == 'from_file':
            from scipy.interpolate import interp1d
            x, y = tables[ci['filename']]
            self.c = interp1d(x, y, kind='cubic', fill_value='extrapolate')(z) * d / 2.
        elif ci['type'] == 'linear':
            tip = ci.get('tip', ci['root'])
            self.c = ci['root'] + (tip - ci['root']) * (z - z[0]) / (z[-1] - z[0])
        else:
            self.c = ci['root'] * np.sqrt(1. - z * z)
        self.chat = self.k * self.c / d
        self.tiploss = np.arccos(np.exp(-self.k * (1. - z) / (2. * math.sin(beta[-1]))))
        # stall delay and post-stall fit
        cr = self.c / self.r
        sep = (0.1517 / cr) ** (1. / 1.084) * cr / 0.136
        a0 = self.CL_max / self.CL_alpha
        self.shift = a0 * (sep - 1.)
        self.astall = a0
        self.astall_n = a0 + 1.5 * self.alpha_L0
        self.dstall = a0 + self.shift
        self.dstall_n = -a0 + self.shift
        cdm = 1.11 + 0.18

        def polar(cl):
            return self.CD0 + self.CD0_L * cl + self.CD0_L2 * cl * cl
        self.polar = polar
        self.cdm = cdm
        self.A2 = (self.CL_max - cdm * np.sin(a0) * np.cos(a0)) * np.sin(a0) / np.cos(a0) ** 2
        clm_n = self.astall_n * self.CL_alpha
        self.A2n = (clm_n - cdm * np.sin(self.astall_n) * np.cos(self.astall_n)) * np.sin(self.astall_n) / np.cos(self.astall_n) ** 2
        self.B2 = (polar(self.dstall * self.CL_alpha) - cdm * np.sin(self.dstall) ** 2) / np.cos(self.dstall)
        self.B2n = (polar(self.dstall_n * self.CL_alpha) - cdm * np.sin(self.dstall_n) ** 2) / np.cos(self.dstall_n)

    # section lift and drag (alpha measured from zero lift, one per node)
    def CL(self, al):
        a = np.abs(al) - self.shift
        pos = al > 0
        ast = np.where(pos, self.astall, self.astall_n)
        A2 = np.where(pos, self.A2, self.A2n)
        lin = self.CL_alpha * a
        safe = np.where(np.abs(a) < 1e-12, 1., a)
        vit = self.cdm / 2. * np.sin(2. * a) + A2 * np.cos(a) ** 2 / np.sin(safe)
        st = np.tanh(np.degrees(a - ast)) / 2. + 0.5
        mixd = np.where(a < 2. * RAD, lin, (1. - st) * lin + st * vit)
        out = np.where(pos, 1., -1.) * (mixd + self.CL_alpha * self.shift)
        return np.where(al == 0, 0., out)

    def CD(self, al, cl):
        pre = self.polar(cl)
        up = self.cdm * np.sin(al) ** 2 + self.B2 * np.cos(al)
        dn = self.cdm * np.sin(al) ** 2 + self.B2n * np.cos(al)
        return np.where(al > self.dstall, up, np.where(al < self.dstall_n, dn, pre))

    def dCL(self, al):
        return (self.CL(al + 0.001) - self.CL(al - 0.001)) / 0.002

    def residual(self, einf, ei):
        return self.chat / (8. * self.z) * self.CL(self.beta - einf - ei) \
            - self.tiploss * np.tan(ei) * np.sin(einf + ei)

    def scan_roots(self, einf, m=400):
        """Number of sign changes of the section equation per node inside
        (0, beta - einf)."""
        x = np.linspace(1e-6, 1. - 1e-6, m)
        y = np.array([self.residual(einf, t * (self.beta - einf)) for t in x])
        return np.sum(np.sign(y[1:]) * np.sign(y[:-1]) < 0, axis=0)

    def induced(self, einf):
        lo = np.zeros(self.n_nodes)
        hi = self.beta - einf
        s0 = np.sign(self.residual(einf, lo))
        for _ in range(80):
            mid = 0.5 * (lo + hi)
            same = np.sign(self.residual(einf, mid)) == s0
            lo = np.where(same, mid, lo)
            hi = np.where(same, hi, mid)
        return 0.5 * (lo + hi)

    def coefficients(self, J, ei=None):
        from scipy.integrate import simpson
        z = self.z
        einf = np.arctan2(J, math.pi * z)
        if ei is None:
            ei = self.induced(einf)
        al = self.beta - einf - ei
        cl, cd, cla = None, None, None
        cl = self.CL(al)
        cd = self.CD(al, cl)
        cla = self.dCL(al)
        e = einf + ei
        ax, tg = cl * np.cos(e) - cd * np.sin(e), cd * np.cos(e) + cl * np.sin(e)
        axa, tga = (cla + cd) * np.sin(e), (cla + cd) * np.cos(e)
        w = self.chat * np.cos(ei) ** 2
        t = np.tan(einf)
        q = math.pi ** 2
        return dict(einf=einf, ei=ei, alpha=al, CL=cl, CD=cd,
                    CT=q / 4. * simpson(z ** 2 * w / np.cos(einf) ** 2 * ax, x=z),
                    Cl=q / 8. * simpson(z ** 3 * w / np.cos(einf) ** 2 * tg, x=z),
                    CN=q / 8. * simpson(z ** 2 * w * (2. * t * tg - t * t * (ax - cla * np.sin(e))), x=z),
                    Cn=q / 16. * simpson(z ** 3 * w * (2. * t * ax + t * t * (cla * np.cos(e) + tg)), x=z))

    def motor_torque(self, n, throttle):
        m = self.spec['motor']
        ns = 1. - 0.079 * (1. - throttle)
        cur = (ns * throttle * m['battery_voltage'] - m['gear_reduction'] / m['motor_kv'] * n * 60.) \
            / (ns * throttle * m['battery_resistance'] + m['speed_control_resistance'] + m['motor_resistance'])
        t = 7.0432 * m['gear_reduction'] / m['motor_kv'] * (cur - m['motor_no_load_current'])
        return t if self.units == 'English' else t * 1.3558179483314

    def rotation(self, aero, ps):
        """Rotation rate for a propeller state that names it directly; for
        power and throttle the caller supplies it."""
        V = aero['V_mag']
        if not ps:
            return V / (self.d * 0.5), 0.5
        if 'J' in ps:
            J = ps['J']
            if J == 0. or V == 0.:
                if 'rot_per_sec' not in ps:
                    raise Invalid('J')
                # the blade angles are those of the advance ratio given
                return ps['rot_per_sec'], J
            return V / (self.d * J), J
        if 'rot_per_sec' in ps:
            return ps['rot_per_sec'], V / (self.d * ps['rot_per_sec'])
        return None, None

    def loads(self, aero, n, J, ei=None):
        """Force, moment about the cg, thrust, torque reaction and the blade
        distribution at rotation rate n."""
        rho, V = aero['rho'], aero['V_mag']
        u = direction(aero.get('alpha', 0.), aero.get('beta', 0.))
        c = self.coefficients(J, ei)
        d = -u
        f = self.fwd
        k = rho * n * n * self.d ** 4
        T = k * c['CT']
        Q = k * self.d * c['Cl']
        cosang = float(d @ f) / np.linalg.norm(d)
        perp = d - f * float(d @ f)
        ang = math.atan2(np.linalg.norm(perp), float(d @ f))
        if np.linalg.norm(perp) < 1e-9:
            nv = np.zeros(3)
        else:
            nv = -perp / np.linalg.norm(perp)
        N = k * c['CN'] * ang
        Y = k * self.d * c['Cn'] * ang
        F = T * f + N * nv
        M = np.cross(self.pos - self.cg, F) + self.rot * Y * nv - self.rot * Q * f
        Vi = n * 2. * math.pi * self.r * np.sin(c['ei']) / np.cos(c['einf'])
        e = c['einf'] + c['ei']
        c.update(F=F, M=M, T=T, torque=-self.rot * Q, Q=Q, N=N, Y=Y, nv=nv, angle=ang, Vi=Vi,
                 Vx=Vi * np.cos(e), Vt=Vi * np.sin(e), n=n, J=J, power=2. * math.pi * n * Q)
        return c

    def immersed(self, pts):
        rel = pts - self.pos
        t = rel @ self.fwd
        rad = rel - t[:, None] * self.fwd
        dist = np.linalg.norm(rad, axis=1)
        return t, rad, dist

    def wash(self, pts, c, V):
        """Velocity added at the points, and a mask of points too close to the
        edge of the tube to say."""
        t, rad, dist = self.immersed(pts)
        inside = (t < 0.) & (dist <= self.d / 2.)
        R = self.d / 2.
        out = np.zeros((len(pts), 3))
        radii = np.full(len(pts), np.nan)
        r = self.r
        for j in np.where(inside)[0]:
            s = -t[j]
            kd = 1. + s / math.sqrt(s * s + R * R)
            pair = c['Vx'][1:] + c['Vx'][:-1]
            kv = (2. * V + pair) / (2. * V + kd * pair)
            sq = r[0] ** 2 + np.concatenate([[0.], np.cumsum((r[1:] ** 2 - r[:-1] ** 2) * kv)])
            rp = np.sqrt(np.maximum(sq, 0.))
            vx = c['Vx'] * kd
            vt = 2. * c['Vt'] * r / rp
            m = int(self.n_nodes / 10)
            if m > 0:
                vt = vt.copy()
                vt[:m] = vt[m] / rp[m] * rp[:m]
            x = np.interp(dist[j], rp, vx, left=0., right=0.)
            w = np.interp(dist[j], rp, vt, left=0., right=0.) * self.rot
            tg = np.cross(self.fwd, rad[j])
            m2 = np.linalg.norm(tg)
            tg = tg / m2 if m2 > 0 else np.zeros(3)
            out[j] = -self.fwd * x + tg * w
            radii[j] = rp[-1]
        edge = np.abs(dist - R) < 1e-9 * R
        edge |= np.abs(t) < 1e-12
        with np.errstate(invalid='ignore'):
            edge |= inside & ((np.abs(dist - radii) < 1e-7 * R) | (np.abs(dist - r[0]) < 1e-7 * R))
        return out, inside, edge


def props(spec, tables=None):
    return [Prop(p, spec['units'], spec['cg'], tables) for p in spec['props']]


def prop_entry(ps, name):
    if ps and name in ps:
        return ps[name]
    return ps


def solve(spec, aero=None, ctrl=None, ps=None, ei=None, rot=None, tables=None, g=None, plist=None):
    """Total, wing and propeller results. `ei` and `rot` optionally give the
    induced angles and rotation rates (by propeller name) to use."""
    aero = dict(aero) if aero else dict(DEFAULT_AERO)
    out = dict(prop=None, wing=None)
    u = direction(aero.get('alpha', 0.), aero.get('beta', 0.))
    F, M = np.zeros(3), np.zeros(3)
    tot = None
    extra = None
    if g is None:
        g = grid(spec)
    out['grid'] = g
    fs = ms = 0.
    if spec['props']:
        plist = plist or props(spec, tables)
        T = Q = 0.
        out['props'] = []
        extra = np.zeros((g.n, 3))
        out['edge'] = np.zeros(g.n, bool)
        for p in plist:
            st = prop_entry(ps, p.name)
            n, J = p.rotation(aero, st)
            if n is None:
                n = rot[p.name]
                J = aero['V_mag'] / (n * p.d)
            c = p.loads(aero, n, J, None if ei is None else ei[p.name])
            out['props'].append(c)
            F += c['F']
            M += c['M']
            T += c['T']
            Q += c['torque']
            fs += abs(c['T']) + abs(c['N'])
            ms += abs(c['Q']) + abs(c['Y']) + (abs(c['T']) + abs(c['N'])) * float(np.linalg.norm(p.pos - p.cg))
            if g.n:
                w, inside, edge = p.wash(g.r, c, aero['V_mag'])
                extra += w
                out['edge'] |= edge
        out['prop'] = dict(forces_dict(u, F, M), Thrust=T, Torque=Q)
        tot = forces_dict(u, F, M)
    if spec['wings']:
        uu, v, rho = wing_state(g, aero, extra)
        w = lifting_line(g, uu, v, rho, ctrl)
        out['wing'] = w
        fs += w['force_scale']
        ms += w['moment_scale']
        if tot is None:
            tot = {k: w['total'][k] for k in w['total'] if k != 'L/D'}
        else:
            tot = {k: tot[k] + w['total'][k] for k in tot}
    out['total'] = tot
    out['fs'], out['ms'] = fs, ms
    return out
