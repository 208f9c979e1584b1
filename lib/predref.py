"""Reference harmonic prediction and inference of minor constituents (independent of pyTMD.predict)."""
import numpy as np
import tidalref as R

EPOCH = 48622.0
# angular frequencies (radians/second) and phases (radians at 1992-01-01) of the OTIS-type models
OTIS = {
'm2': (0.0001405189, 1.731557546), 's2': (0.0001454441, 0.0), 'k1': (7.292117e-05, 0.173003674),
'o1': (6.759774e-05, 1.558553872), 'n2': (0.0001378797, 6.050721243), 'p1': (7.252295e-05, 6.110181633),
'k2': (0.0001458423, 3.487600001), 'q1': (6.495854e-05, 5.877717569), '2n2': (0.0001352405, 4.086699633),
'mu2': (0.0001355937, 3.463115091), 'nu2': (0.0001382329, 5.427136701), 'l2': (0.0001431581, 0.553986502),
't2': (0.000145245, 0.05039847), 'j1': (7.556036e-05, 2.137025284), 'm1': (7.025945e-05, 2.436575),
'oo1': (7.824458e-05, 1.92904613), 'rho1': (6.531174e-05, 5.254133027), 'mf': (5.3234e-06, 1.756042456),
'mm': (2.6392e-06, 1.96402161), 'ssa': (3.982e-07, 3.487600001), 'm4': (0.0002810377, 3.463115091),
'ms4': (0.000285963, 1.731557546), 'mn4': (0.0002783984, 1.499093481), 'm6': (0.0004215566, 5.194672637),
'm8': (0.0005620755, 6.926230184), 'mk3': (0.0002134402, 1.90456122), 's6': (0.0004363323, 0.0),
'2sm2': (0.0001503693, 4.551627762), '2mk3': (0.0002081166, 3.290111417), 'msf': (4.9252e-06, 4.551627762),
'sa': (1.99097e-07, 6.232786837), 'mt': (7.962619e-06, 3.720064066), '2q1': (6.231934e-05, 3.91369596)}


def uncertain(c, corr):
    """nodal terms that C04 judges under its own allowances: taken from the code here"""
    if corr == 'perth3' and c in R.LIKE:
        return True
    return corr == 'FES' and (c in ('l2', 'sl4') or any(q == 'l2' for q, k in R.NODAL_COMPOUND.get(c, [])))


def angle(t, c, corr, deltat=0.0):
    """argument (radians) and nodal factor and angle of one constituent at days since 1992-01-01"""
    t = np.atleast_1d(np.asarray(t, dtype=float))
    MJD = t + EPOCH
    if uncertain(c, corr):
        import pyTMD.arguments
        u, f, _ = pyTMD.arguments.arguments(MJD, [c], corrections=corr, deltat=deltat)
        u, f = u[:, 0], f[:, 0]
    else:
        s, h, p, n, pp = R.longitudes(MJD + deltat, corr)
        f, u = R.nodal(c, n, p, corr)
    if corr in R.OTIS_TYPES and c in OTIS:
        om, ph = OTIS[c]
        th = om*t*86400.0 + ph
    else:
        th = np.radians(R.G(MJD, [c], corr, deltat)[:, 0])
    return th, f, u


def height(t, h, names, corr, deltat=0.0):
    """sum of f |h| cos(argument + u - phase); h is (nc,) or (nt, nc)"""
    h = np.asarray(h)
    out = 0.0
    for k, c in enumerate(names):
        th, f, u = angle(t, c, corr, deltat)
        a, g = np.abs(h[..., k]), -np.angle(h[..., k])
        out = out + f*a*np.cos(th + u - g)
    return out


# ---------------------------------------------------------------- inference
SHORT = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2']
# minor -> {major: factor}
RATIO = {
'2q1': dict(q1=0.263, o1=-0.0252), 'sigma1': dict(q1=0.297, o1=-0.0264), 'rho1': dict(q1=0.164, o1=0.0048),
'm1b': dict(o1=0.0140, k1=0.0101), 'm1': dict(o1=0.0389, k1=0.0282), 'chi1': dict(o1=0.0064, k1=0.0060),
'pi1': dict(o1=0.0030, k1=0.0171), 'phi1': dict(o1=-0.0015, k1=0.0152), 'theta1': dict(o1=-0.0065, k1=0.0155),
'j1': dict(o1=-0.0389, k1=0.0836), 'oo1': dict(o1=-0.0431, k1=0.0613), '2n2': dict(n2=0.264, m2=-0.0253),
'mu2': dict(n2=0.298, m2=-0.0264), 'nu2': dict(n2=0.165, m2=0.00487), 'lambda2': dict(m2=0.0040, s2=0.0074),
'l2': dict(m2=0.0131, s2=0.0326), 'l2b': dict(m2=0.0033, s2=0.0082), 't2': dict(s2=0.0585), 'eps2': {}, 'eta2': {}}
RATIO_FES = dict(RATIO)
RATIO_FES.update({
'mu2': dict(k2=0.069439968323, n2=0.351535557706, m2=-0.046278307672),
'nu2': dict(k2=-0.006104695053, n2=0.156878802427, m2=0.006755704028),
'lambda2': dict(k2=0.016503557465, n2=-0.013307812292, m2=0.007753383202),
'l2b': dict(k2=0.077137765667, n2=-0.051653455134, m2=0.027869916824),
't2': dict(k2=0.180480173707, n2=-0.020101177502, m2=0.008331518844),
'eps2': {'2n2': 0.53285, 'n2': -0.03304}, 'eta2': dict(m2=-0.0034925, k2=0.0831707)})
SHORT_MINORS = list(RATIO)
SHORT_SLOT = dict(zip(SHORT_MINORS, R.MINORS))

BANDS = {
'semi': (['n2', 'm2', 's2'], [0.121006, 0.631931, 0.294019],
    dict(eps2=0.004669, **{'2n2': 0.016011}, mu2=0.019316, nu2=0.022983, gamma2=0.001902, alpha2=0.002178, beta2=0.001921,
         delta2=0.000714, lambda2=0.004662, l2=0.017862, t2=0.017180, r2=0.002463, k2=0.079924, eta2=0.004467),
    np.array([[3.3133, -4.2538, 1.9405], [-3.3133, 4.2538, -0.9405], [1.5018, -3.2579, 1.7561]])),
'diurnal': (['q1', 'o1', 'k1'], [0.050184, 0.262163, 0.368731],
    dict(**{'2q1': 0.006638}, sigma1=0.008023, rho1=0.009540, tau1=0.003430, beta1=0.001941, m1a=0.020604, m1b=0.007420,
         chi1=0.003925, pi1=0.007125, p1=0.122008, psi1=0.002929, phi1=0.005247, theta1=0.003966, j1=0.020618,
         so1=0.003417, oo1=0.011293, ups1=0.002157),
    np.array([[3.1214, -3.8494, 1.728], [-3.1727, 3.9559, -0.7832], [1.438, -3.0297, 1.5917]])),
'long': (['node', 'mm', 'mf'], [0.027929, 0.035184, 0.066607],
    dict(sa=0.004922, ssa=0.030988, sta=0.001809, msm=0.006728, msf=0.005837, mst=0.002422, mt=0.012753, msqm=0.002037,
         mq=0.001687), None)}
MINORS_OF = {'short': SHORT_MINORS, **{k: list(v[2]) for k, v in BANDS.items()}}


def bands_of(corr):
    return ['semi', 'diurnal', 'long'] if corr == 'GOT' else ['short', 'long']


def omega(c, corr):
    a, b = (np.array(R.longitudes(51544.5 + x, corr)).reshape(5) for x in (-10.0, 10.0))
    s, h, p, n, pp = (b - a)/20.0
    return np.radians(R.coefficients(c, corr) @ np.array([360.0 - s + h, s, h, p, n, pp, 0.0]))/86400.0


LOVE = {  # fcn (cycles per sidereal day), h0, h1, k0, k1, l0, l1: Wahr (1981) table 6, Mathews et al. (1995) table 3
'1066A': (1.0021714, 6.03e-1, -2.46e-3, 2.98e-1, -1.23e-3, 8.42e-2, 7.81e-5),
'PEM-C': (1.0021771, 6.02e-1, -2.46e-3, 2.98e-1, -1.24e-3, 8.39e-2, 7.69e-5),
'C2': (1.0021844, 6.02e-1, -2.45e-3, 2.98e-1, -1.23e-3, 8.46e-2, 7.58e-5),
'PREM': (1.0023214, 5.994e-1, -2.532e-3, 2.962e-1, -1.271e-3, 8.378e-2, 7.932e-5)}


def love(om, model='PREM'):
    """h2, k2, l2 at an angular frequency (radians/second)"""
    if om > 1e-4:
        return 0.609, 0.302, 0.0852
    if om < 2e-5:
        return 0.606, 0.299, 0.0840
    fcn, h0, h1, k0, k1, l0, l1 = LOVE[model]
    x = (om - omega('o1', 'OTIS'))/(fcn*7.292115e-5 - om)
    return h0 + h1*x, k0 + k1*x, l0 + l1*x


def tilt(om):
    h, k, l = love(om)
    return 1.0 + k - h


def admittance(minor, band, corr, method):
    """{major: factor} such that the minor's constant is sum of factor*h(major)"""
    if band == 'short':
        return dict((RATIO_FES if corr == 'FES' else RATIO)[minor])
    majors, amp, amin, Ainv = BANDS[band]
    om = [omega(c, corr) for c in majors]
    w = omega(minor, corr)
    if method == 'admittance' and Ainv is not None:
        b = np.array([1.0, np.cos(2*w*86400.0), np.sin(2*w*86400.0)])
        wt = b @ Ainv
    else:
        i = 0 if w < om[1] else 1
        x = (w - om[i])/(om[i+1] - om[i])
        wt = np.zeros(3)
        wt[i], wt[i+1] = 1 - x, x
    out = {}
    for j, c in enumerate(majors):
        if wt[j] != 0:
            g = tilt(w)/tilt(om[j]) if band == 'diurnal' else 1.0
            out[c] = amin[minor]*g*wt[j]/amp[j]
    return out


def minors_inferred(names, corr, minor=None):
    """[(band, minor)] that are inferred given the available constituents"""
    out = []
    for band in bands_of(corr):
        have = [c for c in (SHORT if band == 'short' else BANDS[band][0]) if c in names]
        if len(have) < (6 if band == 'short' else 3):
            continue
        out += [(band, m) for m in MINORS_OF[band] if m not in names and (minor is None or m in minor)]
    return out


def minor_angle(t, band, m, corr, deltat):
    if band != 'short':
        return angle_G(t, m, corr, deltat)
    MJD = np.atleast_1d(np.asarray(t, dtype=float)) + EPOCH
    s, h, p, n, pp = R.longitudes(MJD + deltat, corr)
    c = SHORT_SLOT[m]
    f, u = R.minor_nodal(c, n, p, corr)
    return np.radians(R.G(MJD, [c], corr, deltat)[:, 0]), f, u


def angle_G(t, c, corr, deltat):
    th, f, u = angle(t, c, corr, deltat)
    MJD = np.atleast_1d(np.asarray(t, dtype=float)) + EPOCH
    return np.radians(R.G(MJD, [c], corr, deltat)[:, 0]), f, u


def inferred(t, h, names, corr, deltat=0.0, minor=None, method='linear'):
    """tide of the inferred minors, a bound of the magnitudes summed, and the majors it depends on"""
    h = np.asarray(h)
    n = max(len(np.atleast_1d(t)), len(h) if h.ndim == 2 else 1)
    out, scale, used = np.zeros(n), np.zeros(n), set()
    for band, m in minors_inferred(names, corr, minor):
        z = 0.0
        for c, w in admittance(m, band, corr, method).items():
            if c in names:
                z = z + w*h[..., names.index(c)]
                scale = scale + 1.6*np.abs(w*h[..., names.index(c)])
                used.add(c)
        th, f, u = minor_angle(t, band, m, corr, deltat)
        out = out + f*np.abs(z)*np.cos(th + u + np.angle(z))
    return out, scale, used
