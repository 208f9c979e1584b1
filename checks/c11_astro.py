import _boot
from harness import *
from gen import *
import kernel, large
import pyTMD.astro as pastro
import timescale.time, timescale.eop

PROPERTY = 'C11'
RULE = ('Dates (MJD 42000-60500 where Earth orientation is tabulated, 15000-88000 for polynomial arguments), batches, rotation angles and '
        'synthetic ephemeris kernels; non-trivial when the batch has at least two dates or a non-integer day.')
ASSUMPTIONS = ['time scale conversions, sidereal angle and polar motion series come from the timescale package and are trusted',
               'published series (Meeus, Simon, IERS 2010, Montenbruck & Gill) are typed independently in this file; IERS tables 5.2e/5.3a/5.3b are the shipped ones',
               'the difference UT1-UTC (< 0.9 s) is not judged in the ephemeris frame']
ASEC = math.pi/648000
J2000 = 51544.5
CENT = 36525.0
C2 = {}


def poly(c, T):
    return sum(a*T**k for k, a in enumerate(c))


def ang(ctx, got, want_deg, what, tol=2e-6, circle=360.0, lo=True):
    """angles in [0, circle] equal to want modulo circle"""
    g = np.asarray(got, dtype=float)
    w = np.asarray(want_deg, dtype=float)
    if g.size == 1 and w.size == 1:      # a scalar date may come back as an array of one
        g, w = g.ravel(), w.ravel()
    ctx.check(g.shape == w.shape, f'{what}: shape {g.shape} expected {w.shape}')
    d = np.mod(g - w + circle/2, circle) - circle/2
    ctx.check(np.all(np.abs(d) <= tol), f'{what}: {g} expected {np.mod(w, circle)} (max difference {np.max(np.abs(d))})')
    if lo:
        ctx.check(np.all((g >= 0) & (g <= circle)), f'{what}: {g} outside [0, {circle}]')


def meeus(T):
    return (poly([218.3164591, 481267.88134236, -0.0013268, 1/538841., -1/65194000.], T),
            poly([280.46645, 36000.76983, 0.0003032], T),
            poly([83.3532430, 4069.0137111, -0.0103238, -1/80053., 1/18999000.], T),
            poly([125.0445550, -1934.1361849, 0.0020762, 1/467410., -1/60616000.], T),
            282.94 + 1.7192*T)


def astro5(T):
    S = poly([218.3164477, 481267.88123421, -0.0015786, 1/538841., -1/65194000.], T)
    D = poly([297.8501921, 445267.1114034, -0.0018819, 1/545868., -1/113065000.], T)
    return (S, S - D, poly([83.3532465, 4069.0137287, -0.0103200, -1/80053.], T),
            poly([125.04452, -1934.136261, 0.0020708, 1/450000.], T), 282.94 + 1.7192*T)


def f_long(case, ctx):
    mjd = np.array(case['t'])
    x = float(mjd[0]) if case['scalar'] else mjd
    ctx.nt(len(mjd) > 1 or mjd[0] % 1 > 0)
    T = (np.asarray(x) - J2000)/CENT
    mode = case['mode']
    ctx.label(mode)
    got = pastro.mean_longitudes(x, **{'default': {}, 'MEEUS': dict(MEEUS=True), 'ASTRO5': dict(ASTRO5=True)}[mode])
    if mode == 'default':
        d = np.asarray(x) - 51544.4993
        want = (218.3164 + 13.17639648*d, 280.4661 + 0.98564736*d, 83.3535 + 0.11140353*d, 125.0445 - 0.05295377*d, 282.8 + 0*d)
        tol = 1e-7
    else:
        want = meeus(T) if mode == 'MEEUS' else astro5(T)
        tol = 4e-6
    for n, g, w in zip(('S', 'H', 'P', 'N', 'PP'), got, want):
        ang(ctx, g, w, f'mean_longitudes {mode} {n} at {case["t"]}', tol)
    # the three sets describe the same bodies
    for n, a, b in zip('SHPN', got, astro5(T)):
        d = np.mod(a - b + 180, 360) - 180
        ctx.check(np.all(np.abs(d) < 0.06), f'mean_longitudes {mode} {n} is {d} degrees from the precise mean longitude')
    i = case['pick'] % (1 if case['scalar'] else len(mjd))
    one = pastro.mean_longitudes(mjd[i:i+1], **{'default': {}, 'MEEUS': dict(MEEUS=True), 'ASTRO5': dict(ASTRO5=True)}[mode])
    for n, a, b in zip(('S', 'H', 'P', 'N', 'PP'), one, got):
        ang(ctx, a, np.ravel(b)[i:i+1] if np.ndim(b) else np.array([b]), f'{n} alone', 1e-9, lo=False)


def f_args(case, ctx):
    mjd = np.array(case['t'])
    x = float(mjd[0]) if case['scalar'] else mjd
    ctx.nt(len(mjd) > 1 or mjd[0] % 1 > 0)
    X = np.asarray(x)
    T = (X - J2000)/CENT
    if case['what'] == 'delaunay':
        got = pastro.delaunay_arguments(x)
        want = (poly([485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470], T),
                poly([1287104.79305, 129596581.0481, -0.5532, 0.000136, -0.00001149], T),
                poly([335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417], T),
                poly([1072260.70369, 1602961601.2090, -6.3706, 0.006593, -0.00003169], T),
                poly([450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939], T))
        for n, g, w in zip(('l', 'lp', 'F', 'D', 'N'), got, want):
            ang(ctx, g, w*ASEC, f'delaunay {n} at {case["t"]}', 2e-8, 2*np.pi)
        return
    if case['what'] == 'obliquity':
        g = pastro.mean_obliquity(x)
        ctx.close(np.ravel(g), ASEC*poly([84381.406, -46.836769, -0.0001831, 0.00200340, -0.000000576, -0.0000000434], np.ravel(T)), 'mean_obliquity', rtol=1e-13)
        return
    eq, corr = case['equinox'], case['corr']
    if case['what'] == 'alias':
        eq, corr = False, True
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            S, H, P, TAU, N, Ps = pastro.phase_angles(x)
        got = (TAU, S, H, P, N, Ps)
    else:
        got = pastro.doodson_arguments(x, equinox=eq, apply_correction=corr)
    S = poly([218.3164477, 481267.88123421, -0.0015786, 1/538841., -1/65194000.], T)
    if eq:
        ts = timescale.time.Timescale(MJD=X)
        tau = 360.0*ts.st + 180.0 - S
    else:
        tau = 15.0*24.0*np.mod(X, 1) - S + poly([280.4606184, 36000.7700536, 0.00038793, -0.0000000258], T)
    if np.ndim(got[0]) and not np.ndim(tau):
        tau = np.array([tau])
    pr = poly([0, 1.396971278, 0.000308889, 0.000000021, 0.000000007], T) if corr else 0.0
    want = (np.reshape(tau, np.shape(T)), S + pr, poly([280.46645, 36000.7697489, 0.00030322222, 0.000000020, -0.00000000654], T),
            poly([83.3532465, 4069.0137287, -0.01032172222, -0.0000124991, 0.00000005263], T),
            poly([234.95544499, 1934.13626197, -0.00207561111, -0.00000213944, 0.00000001650], T),
            poly([282.93734098, 1.71945766667, 0.00045688889, -0.00000001778, -0.00000000334], T))
    for n, g, w in zip(('tau', 'S', 'H', 'P', 'Np', 'Ps'), got, want):
        ang(ctx, g, np.radians(w), f'doodson {n} at {case["t"]} (equinox={eq}, correction={corr})', 2e-7, 2*np.pi)
    # lunar time, lunar longitude and solar longitude are one configuration: tau = hour angle of the mean sun + h - s + 180
    if not np.ndim(x) == 0 and len(mjd) > 1:
        i = case['pick'] % len(mjd)
        one = pastro.doodson_arguments(mjd[i:i+1], equinox=eq, apply_correction=corr)
        for n, a, b in zip(('tau', 'S', 'H', 'P', 'Np', 'Ps'), one, got):
            ang(ctx, a, b[i:i+1], f'doodson {n} alone', 1e-10, 2*np.pi, lo=False)


# ------------------------------------------------------------------ rotations
def rot(t, axis):
    c, s = np.cos(t), np.sin(t)
    return {'x': np.array([[1, 0, 0], [0, c, s], [0, -s, c]]), 'y': np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]]),
            'z': np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])}[axis]


def table(name):
    if name not in C2:
        J = []
        for l in open(os.path.join(REPO, 'pyTMD', 'data', name), encoding='utf8'):
            w = l.split()
            if 'j = ' in l:
                J.append([])
            elif len(w) == 17 and w[0].isdigit() and J:
                J[-1].append([float(v) for v in w])
        C2[name] = [np.array(j) for j in J]
    return C2[name]


def fundamental(T):
    d = [poly(c, T)*ASEC for c in ([485868.249036, 1717915923.2178, 31.8792, 0.051635, -0.00024470],
        [1287104.79305, 129596581.0481, -0.5532, 0.000136, -0.00001149], [335779.526232, 1739527262.8478, -12.7512, -0.001037, 0.00000417],
        [1072260.70369, 1602961601.2090, -6.3706, 0.006593, -0.00003169], [450160.398036, -6962890.5431, 7.4722, 0.007702, -0.00005939])]
    d += [poly(c, T) for c in ([4.402608842, 2608.7903141574], [3.176146697, 1021.3285546211], [1.753470314, 628.3075849991],
        [6.203480913, 334.0612426700], [0.599546497, 52.9690962641], [0.874016757, 21.3299104960], [5.481293872, 7.4781598567],
        [5.311886287, 3.8133035638], [0.0, 0.02438175, 0.00000538691])]
    return np.array(d)


def series(name, T):
    f = fundamental(T)
    s = 0.0
    for j, t in enumerate(table(name)):
        a = t[:, 3:] @ f
        s += T**j*(t[:, 1] @ np.sin(a) + t[:, 2] @ np.cos(a))
    return s*1e-6*ASEC


def obliq(T):
    return ASEC*poly([84381.406, -46.836769, -0.0001831, 0.00200340, -0.000000576, -0.0000000434], T)


def precession(T):
    psi = ASEC*poly([0, 5038.481507, -1.0790069, -0.00114045, 0.000132851, -0.0000000951], T)
    om = ASEC*poly([84381.406, -0.025754, 0.0512623, -0.00772503, -0.000000467, 0.0000003337], T)
    chi = ASEC*poly([0, 10.556403, -2.3814292, -0.00121197, 0.000170663, -0.0000000560], T)
    return rot(chi, 'z') @ rot(-om, 'x') @ rot(-psi, 'z') @ rot(84381.406*ASEC, 'x')


def nutation(e0, e1, psi):
    return rot(-e1, 'x') @ rot(-psi, 'z') @ rot(e0, 'x')


def bias():
    x, e, a = -0.0166170*ASEC, -0.0068192*ASEC, -0.01460*ASEC
    return rot(-e, 'x') @ rot(x, 'y') @ rot(a, 'z')


def orthonormal(ctx, R, what, tol=1e-12):
    ctx.check(np.abs(R @ R.T - np.eye(3)).max() < tol, f'{what}: not orthonormal by {np.abs(R @ R.T - np.eye(3)).max()}')
    ctx.check(abs(np.linalg.det(R) - 1) < tol, f'{what}: determinant {np.linalg.det(R)}')


def matclose(ctx, R, W, what, tol):
    ctx.check(np.shape(R) == (3, 3), f'{what}: shape {np.shape(R)}')
    ctx.check(np.abs(R - W).max() <= tol, f'{what}: differs from the rotation by {np.abs(R - W).max()}\n{R}\n{W}')


def f_matrices(case, ctx):
    T = np.array(case['T'])
    x = float(T[0]) if case['scalar'] else T
    n = 1 if case['scalar'] else len(T)
    ctx.nt(n > 1 or T[0] != 0)
    P = pastro._precession_matrix(x)
    ctx.check(P.shape == (3, 3, n), f'precession shape {P.shape}')
    e0, e1, psi = (np.array(case[k])[:len(T)] for k in ('e0', 'e1', 'psi'))
    N = pastro._nutation_matrix(e0, e1, psi)
    ctx.check(N.shape == (3, 3, len(psi)), f'nutation shape {N.shape}')
    for i in range(n):
        orthonormal(ctx, P[:, :, i], f'precession at T={T[i]}')
        matclose(ctx, P[:, :, i], precession(T[i]), f'precession at T={T[i]}', 1e-12)
    for i in range(len(psi)):
        orthonormal(ctx, N[:, :, i], f'nutation {e0[i]} {e1[i]} {psi[i]}')
        matclose(ctx, N[:, :, i], nutation(e0[i], e1[i], psi[i]), f'nutation of {e0[i]} {e1[i]} {psi[i]}', 1e-12)
    B = pastro._frame_bias_matrix()
    orthonormal(ctx, B, 'frame bias', 1e-12)
    matclose(ctx, B, bias(), 'frame bias', 5e-14)


def ut(T):
    return timescale.time.Timescale(MJD=np.atleast_1d(T)*CENT + J2000)


def f_itrs(case, ctx):
    mjd = np.array(case['t'])
    T = (mjd - J2000)/CENT
    x = float(T[0]) if case['scalar'] else T
    if case['scalar']:
        mjd, T = mjd[:1], T[:1]
    ctx.nt(len(mjd) > 1 or mjd[0] % 1 > 0)
    ts = ut(T)
    Tt = np.atleast_1d(ts.T)
    dpsi, deps = pastro._nutation_angles(x)
    ctx.check(np.shape(dpsi) == (len(T),) and np.shape(deps) == (len(T),), f'nutation angles shape {np.shape(dpsi)}')
    g = pastro.gast(x)
    R = pastro.itrs(x)
    W = pastro._polar_motion_matrix(x)
    ctx.check(R.shape == (3, 3, len(T)), f'itrs shape {R.shape}')
    px, py = timescale.eop.iers_polar_motion(mjd)
    eqx = pastro._eqeq_complement(x)
    for i in range(len(T)):
        p, e = series('tab5.3a.txt', Tt[i]), series('tab5.3b.txt', Tt[i])
        what = f'at MJD {mjd[i]!r}'
        ctx.check(abs(dpsi[i] - p) < 2e-12 and abs(deps[i] - e) < 2e-12, f'nutation angles {what}: {dpsi[i]} {deps[i]} expected {p} {e}')
        ctx.check(abs(p) < 1e-4 and abs(e) < 6e-5, 'nutation out of range')
        c = series('tab5.2e.txt', Tt[i])
        ctx.check(abs(np.ravel(eqx)[i] - c) < 2e-14, f'complement of the equation of the equinoxes {what}: {np.ravel(eqx)[i]} expected {c}')
        # sidereal angle: Earth rotation angle and accumulated precession
        J = float(np.atleast_1d(ts.ut1)[i]) - 2451545.0
        era = 2*np.pi*np.mod(0.7790572732640 + 0.00273781191135448*J + np.mod(J, 1), 1)
        theta = era + ASEC*poly([0.014506, 4612.156534, 1.3915817, -0.00000044, -0.000029956, -0.0000000368], Tt[i]) + p*np.cos(obliq(Tt[i])) + c
        ctx.check(0 <= g[i] <= 1, f'gast {g[i]} outside [0, 1]')
        ang(ctx, 2*np.pi*g[i], theta, f'gast {what}', 3e-9, 2*np.pi)
        w = rot(-py[i]*ASEC, 'x') @ rot(-px[i]*ASEC, 'y') @ rot(-4.7e-5*T[i]*ASEC, 'z')
        orthonormal(ctx, W[:, :, i], f'polar motion {what}')
        matclose(ctx, W[:, :, i], w, f'polar motion {what}', 1e-11)
        want = w @ rot(theta, 'z') @ nutation(obliq(Tt[i]), obliq(Tt[i]) + e, p) @ precession(Tt[i]) @ bias()
        orthonormal(ctx, R[:, :, i], f'itrs {what}')
        matclose(ctx, R[:, :, i], want, f'itrs {what}', 1e-8)
    i = case['pick'] % len(T)
    matclose(ctx, pastro.itrs(T[i:i+1])[:, :, 0], R[:, :, i], 'itrs alone', 1e-10)


# ------------------------------------------------------------------ approximate positions
def sun_moon(mjd):
    """Montenbruck & Gill positions in the Earth-fixed frame (sidereal angle from timescale)"""
    ts = timescale.time.Timescale(MJD=np.atleast_1d(mjd))
    T = np.atleast_1d(ts.T)
    th = np.radians(np.atleast_1d(ts.gha))
    eps = np.radians(23.43929111)
    s_, c_ = (lambda d: np.sin(np.radians(d))), (lambda d: np.cos(np.radians(d)))
    out = []
    # sun
    M = poly([357.5256, 35999.049, -0.0001559, -0.00000048], T)
    lam = 282.94 + 1.7192*T + M + (6892*s_(M) + 72*s_(2*M))/3600
    r = (149.619 - 2.499*c_(M) - 0.021*c_(2*M))*1e9
    out.append((r, lam, np.zeros_like(lam)))
    # moon
    s = astro5(T)[0]
    D = poly([297.8501921, 445267.1114034, -0.0018819, 1/545868., -1/113065000.], T)
    N = astro5(T)[3]
    F = s - N
    M = 357.5256 + 35999.049*T
    l = 134.96292 + 477198.86753*T
    dl = (22640*s_(l) + 769*s_(2*l) - 4586*s_(l-2*D) + 2370*s_(2*D) - 668*s_(M) - 412*s_(2*F) - 212*s_(2*l-2*D) - 206*s_(l+M-2*D)
          + 192*s_(l+2*D) - 165*s_(M-2*D) + 148*s_(l-M) - 125*s_(D) - 110*s_(l+M) - 55*s_(2*F-2*D))/3600
    lam = s + dl
    b = (18520*s_(F + dl + (412*s_(2*F) + 541*s_(M))/3600) - 526*s_(F-2*D) + 44*s_(l+F-2*D) - 31*s_(-l+F-2*D) - 25*s_(-2*l+F)
         - 23*s_(M+F-2*D) + 21*s_(-l+F) + 11*s_(-M+F-2*D))/3600
    r = (385000 - 20905*c_(l) - 3699*c_(2*D-l) - 2956*c_(2*D) - 570*c_(2*l) + 246*c_(2*l-2*D) - 205*c_(M-2*D) - 171*c_(l+2*D)
         - 152*c_(l+M-2*D))*1e3
    out.append((r, lam, b))
    res = []
    for r, lam, b in out:
        ecl = np.array([r*c_(lam)*c_(b), r*s_(lam)*c_(b), r*s_(b)])
        equ = np.array([ecl[0], ecl[1]*np.cos(eps) - ecl[2]*np.sin(eps), ecl[1]*np.sin(eps) + ecl[2]*np.cos(eps)])
        # hour angle rotation of the vernal equinox to the Greenwich meridian
        res.append(np.array([equ[0]*np.cos(th) + equ[1]*np.sin(th), -equ[0]*np.sin(th) + equ[1]*np.cos(th), equ[2]]))
    return res


def f_positions(case, ctx):
    mjd = np.array(case['t'])
    ctx.nt(len(mjd) > 1 or mjd[0] % 1 > 0)
    body = case['body']
    wrap = pastro.solar_ecef if body == 'sun' else pastro.lunar_ecef
    f = pastro.solar_approximate if body == 'sun' else pastro.lunar_approximate
    want = sun_moon(mjd)[0 if body == 'sun' else 1]
    x = mjd if not case['scalar'] else float(mjd[0])
    n = 1 if case['scalar'] else len(mjd)
    via = {'direct': lambda v: f(v), 'wrapper': lambda v: wrap(v), 'named': lambda v: wrap(v, ephemerides='approximate'),
           'NAMED': lambda v: wrap(v, ephemerides='Approximate')}[case['via']]
    X = np.array(via(x))
    ctx.check(X.shape == (3, n), f'{body} shape {X.shape}')
    for i in range(n):
        r = np.linalg.norm(X[:, i])
        lo, hi = (1.4706e11, 1.5212e11) if body == 'sun' else (3.53e8, 4.10e8)
        ctx.check(lo < r < hi, f'{body} at {mjd[i]!r}: distance {r} m')
        ctx.check(np.linalg.norm(X[:, i] - want[:, i]) < 1e-8*r*10, f'{body} at {mjd[i]!r}: {X[:, i]} expected {want[:, i]}')
        dec = abs(np.arcsin(X[2, i]/r))
        ctx.check(dec < np.radians(23.45 if body == 'sun' else 28.9), f'{body}: declination {np.degrees(dec)}')
    i = case['pick'] % n
    one = np.array(via(np.atleast_1d(x)[i:i+1]))[:, 0]
    ctx.check(np.linalg.norm(one - X[:, i]) < 1e-9*np.linalg.norm(one), f'{body} alone: {one} in the batch {X[:, i]}')


# ------------------------------------------------------------------ synthetic JPL kernel
def f_jpl(case, ctx):
    rs = np.random.RandomState(case['seed'])
    mjd = np.array(case['t'])
    body = case['body']
    ctx.nt(len(mjd) > 0)
    jd0 = math.floor(mjd.min()) + 2400000.5 - 2
    n = int(math.ceil((mjd.max() - mjd.min() + 5)/4.0)) + 1
    k = 4
    def co(scale):
        c = rs.uniform(-1, 1, (n, 3, k))*np.array([1, .2, .05, .01])*scale
        return c
    segs = [(10, 0, jd0, 4.0, co(1e6)), (3, 0, jd0, 4.0, co(1.5e8)), (399, 3, jd0, 4.0, co(5e3)), (301, 3, jd0, 4.0, co(4e5))]
    path = os.path.join(ctx.tmp, 'k.bsp')
    kernel.write_spk(path, segs)
    ts = timescale.time.Timescale(MJD=mjd)
    tt = np.atleast_1d(ts.tt)
    def pos(seg):
        _, _, jd, step, c = seg
        i = np.floor((tt - jd)/step).astype(int)
        s = 2*((tt - jd)/step - i) - 1
        cheb = np.array([np.ones_like(s), s, 2*s*s - 1, 4*s**3 - 3*s])
        return np.einsum('nak,kn->an', c[i], cheb)*1e3
    sun, emb, earth, moon = (pos(s) for s in segs)
    v = sun - emb - earth if body == 'sun' else moon - earth
    f = pastro.solar_ephemerides if body == 'sun' else pastro.lunar_ephemerides
    g = pastro.solar_ecef if body == 'sun' else pastro.lunar_ecef
    X = np.array(f(mjd, kernel=path))
    Y = np.array(g(mjd, kernel=path, ephemerides=case['name']))
    ctx.check(X.shape == (3, len(mjd)), f'shape {X.shape}')
    ctx.close(Y, X, 'ecef wrapper', rtol=0, atol=1e-6)
    T = (mjd - J2000)/CENT
    tsT = np.atleast_1d(ts.T)
    for i in range(len(mjd)):
        J = float(np.atleast_1d(ts.ut1)[i]) - 2451545.0
        p, e = series('tab5.3a.txt', tsT[i]), series('tab5.3b.txt', tsT[i])
        era = 2*np.pi*np.mod(0.7790572732640 + 0.00273781191135448*J + np.mod(J, 1), 1)
        theta = era + ASEC*poly([0.014506, 4612.156534, 1.3915817], tsT[i]) + p*np.cos(obliq(tsT[i]))
        R = rot(theta, 'z') @ nutation(obliq(tsT[i]), obliq(tsT[i]) + e, p) @ precession(tsT[i])
        w = R @ v[:, i]
        d = np.linalg.norm(X[:, i] - w)/np.linalg.norm(w)
        ctx.check(d < 8e-5, f'{body} from the kernel at {mjd[i]!r}: {X[:, i]} expected {w} (relative {d})')
        ctx.check(abs(np.linalg.norm(X[:, i])/np.linalg.norm(w) - 1) < 1e-9, f'{body}: distance {np.linalg.norm(X[:, i])} expected {np.linalg.norm(w)}')


wide = st.one_of(fl(15000, 88000), st.integers(15000, 88000).map(float), fl(48000, 62000), st.sampled_from([51544.5, 51544.0, 48622.0, 51544.4993]))
eop = st.one_of(fl(42000, 60500), st.integers(42000, 60500).map(float), st.integers(42000*24, 60500*24).map(lambda i: i/24.0), st.just(51544.5))
tri = lambda e, a=1, b=4: lists(e, a, b)
SUBS = [
    Sub('longitudes', st.fixed_dictionaries(dict(t=tri(wide), scalar=st.booleans(), mode=st.sampled_from(['default', 'MEEUS', 'ASTRO5']), pick=st.integers(0, 9))), f_long, 600, 20000),
    Sub('arguments', st.fixed_dictionaries(dict(t=tri(wide), scalar=st.booleans(), what=st.sampled_from(['delaunay', 'doodson', 'doodson', 'obliquity', 'alias']),
        equinox=st.sampled_from([False, False, True]), corr=st.booleans(), pick=st.integers(0, 9))), f_args, 600, 20000),
    Sub('matrices', st.fixed_dictionaries(dict(T=tri(st.one_of(fl(-1, 1), st.sampled_from([0.0, 0.06, 1.0]))), scalar=st.booleans(),
        e0=lists(fl(0.1, 1.2), 4, 4), e1=lists(fl(0.1, 1.2), 4, 4), psi=lists(fl(-3, 3), 4, 4))), f_matrices, 500, 15000),
    Sub('itrs', st.fixed_dictionaries(dict(t=tri(eop, 1, 3), scalar=st.booleans(), pick=st.integers(0, 9))), f_itrs, 24, 400, shards=3),
    Sub('positions', st.fixed_dictionaries(dict(t=tri(eop), scalar=st.booleans(), body=st.sampled_from(['sun', 'moon']),
        via=st.sampled_from(['direct', 'wrapper', 'named', 'NAMED']), pick=st.integers(0, 9))), f_positions, 400, 8000),
    Sub('ephemerides', st.fixed_dictionaries(dict(t=eop.flatmap(lambda t0: tri(fl(0, 30), 1, 3).map(lambda d: [t0 + x for x in d])),
        seed=st.integers(0, 10**6), body=st.sampled_from(['sun', 'moon']), name=st.sampled_from(['JPL', 'jpl']))), f_jpl, 16, 250, tmp=True, shards=2),
]
SUBS.append(large.sub(['longitudes', 'astro', 'bodies', 'sidereal'], top=10001))
SUBS.append(large.pure(['longitudes', 'astro', 'bodies', 'sidereal']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
