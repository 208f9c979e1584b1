"""Solid earth tide of the IERS Conventions (2010), section 7.1.1, in local coordinates (independent of pyTMD.predict).

One station, one time; positions in metres, displacement returned as (radial, north, east) and as ECEF vector."""
import numpy as np

RE, MS, MM = 6378136.6, 332946.0482, 0.0123000371
H2, L2, H3, L3 = 0.6078, 0.0847, 0.292, 0.015
# table 7.3a (mm): s, h, p, N', ps multipliers, dR ip, dR op, dT ip, dT op
DIURNAL = '''-3 0 2 0 0 -0.01 0 0 0
-3 2 0 0 0 -0.01 0 0 0
-2 0 1 -1 0 -0.02 0 0 0
-2 0 1 0 0 -0.08 0 -0.01 0.01
-2 2 -1 0 0 -0.02 0 0 0
-1 0 0 -1 0 -0.10 0 0 0
-1 0 0 0 0 -0.51 0 -0.02 0.03
-1 2 0 0 0 0.01 0 0 0
0 -2 1 0 0 0.01 0 0 0
0 0 -1 0 0 0.02 0 0 0
0 0 1 0 0 0.06 0 0 0
0 0 1 1 0 0.01 0 0 0
0 2 -1 0 0 0.01 0 0 0
1 -3 0 0 1 -0.06 0 0 0
1 -2 0 -1 0 0.01 0 0 0
1 -2 0 0 0 -1.23 -0.07 0.06 0.01
1 -1 0 0 -1 0.02 0 0 0
1 -1 0 0 1 0.04 0 0 0
1 0 0 -1 0 -0.22 0.01 0.01 0
1 0 0 0 0 12.00 -0.80 -0.67 -0.03
1 0 0 1 0 1.73 -0.12 -0.10 0
1 0 0 2 0 -0.04 0 0 0
1 1 0 0 -1 -0.50 -0.01 0.03 0
1 1 0 0 1 0.01 0 0 0
0 1 0 1 -1 -0.01 0 0 0
1 2 -2 0 0 -0.01 0 0 0
1 2 0 0 0 -0.11 0.01 0.01 0
2 -2 1 0 0 -0.01 0 0 0
2 0 -1 0 0 -0.02 0 0 0'''
DIURNAL = [[float(x) for x in l.split()] for l in DIURNAL.splitlines()]
# table 7.3b: dR ip, dT ip, dR op, dT op
LONG = [[0, 0, 0, 1, 0, 0.47, 0.23, 0.16, 0.07], [0, 2, 0, 0, 0, -0.20, -0.12, -0.11, -0.05],
        [1, 0, -1, 0, 0, -0.11, -0.08, -0.09, -0.04], [2, 0, 0, 0, 0, -0.13, -0.11, -0.15, -0.07],
        [2, 0, 0, 1, 0, -0.05, -0.05, -0.06, -0.03]]


def doodson(mjd):
    """tau, s, h, p, N', ps in radians (lunar longitude and perigee of Meeus, others as STEP2DIU)"""
    T = (mjd - 51544.5)/36525.0
    hour = 24.0*np.mod(mjd, 1.0)
    P = np.polynomial.polynomial.polyval
    s0 = P(T, [218.3164477, 481267.88123421, -0.0015786, 1/538841., -1/65194000.])
    tau = 15.0*hour + P(T, [280.4606184, 36000.7700536, 0.00038793, -0.0000000258]) - s0
    s = s0 + P(T, [0.0, 1.396971278, 0.000308889, 0.000000021, 0.000000007])
    h = P(T, [280.46645, 36000.7697489, 0.00030322222, 0.000000020, -0.00000000654])
    p = P(T, [83.3532465, 4069.0137287, -0.01032172222, -0.0000124991, 0.00000005263])
    n = P(T, [234.95544499, 1934.13626197, -0.00207561111, -0.00000213944, 0.00000001650])
    ps = P(T, [282.93734098, 1.71945766667, 0.00045688889, -0.00000001778, -0.00000000334])
    return np.radians(np.array([tau, s, h, p, n, ps]))


def frame(x):
    """unit radial, north and east vectors and geocentric latitude and longitude"""
    r = x/np.linalg.norm(x)
    lam = np.arctan2(x[1], x[0])
    phi = np.arctan2(x[2], np.hypot(x[0], x[1]))
    e = np.array([-np.sin(lam), np.cos(lam), 0.0])
    n = np.cross(r, e)
    return r, n, e, phi, lam


def displacement(x, sun, moon, mjd, a=RE, tide_system='tide_free', h2=H2, l2=L2, h3=H3, l3=L3, ms=MS, mm=MM, parts=False):
    r, n, e, phi, lam = frame(x)
    h = h2 - 0.0006*P2lat(phi)
    l = l2 + 0.0002*P2lat(phi)
    static = np.zeros(3)
    for body, m in ((sun, ms), (moon, mm)):
        d = np.linalg.norm(body)
        u = body/d
        c = u @ r
        F2, F3 = m*a**4/d**3, m*a**5/d**4
        perp = u - c*r
        # (7.5), (7.6)
        static = static + F2*(h*r*(1.5*c**2 - 0.5) + 3*l*c*perp)
        static = static + F3*(h3*r*(2.5*c**3 - 1.5*c) + l3*(7.5*c**2 - 1.5)*perp)
        Phi, Lam = np.arctan2(u[2], np.hypot(u[0], u[1])), np.arctan2(u[1], u[0])
        dl = lam - Lam
        # (7.8), (7.9): latitude dependence
        P21, P22 = 3*np.sin(Phi)*np.cos(Phi), 3*np.cos(Phi)**2
        static = static - 0.0012*np.sin(phi)*F2*P21*(np.sin(phi)*np.cos(dl)*n - np.cos(2*phi)*np.sin(dl)*e)
        static = static - 0.5*0.0024*np.sin(phi)*np.cos(phi)*F2*P22*(np.cos(2*dl)*n + np.sin(phi)*np.sin(2*dl)*e)
        # (7.10), (7.11): out of phase
        dh, dlI = -0.0025, -0.0007
        static = static - 0.75*dh*F2*np.sin(2*Phi)*np.sin(2*phi)*np.sin(dl)*r
        static = static - 1.5*dlI*F2*np.sin(2*Phi)*(np.cos(2*phi)*np.sin(dl)*n + np.sin(phi)*np.cos(dl)*e)
        dh, dlI = -0.0022, -0.0007
        static = static - 0.75*dh*F2*np.cos(Phi)**2*np.cos(phi)**2*np.sin(2*dl)*r
        static = static + 0.75*dlI*F2*np.cos(Phi)**2*(np.sin(2*phi)*np.sin(2*dl)*n - 2*np.cos(phi)*np.cos(2*dl)*e)
    # (7.12), (7.13): frequency dependence
    tau, s, hh, p, N, ps = doodson(mjd)
    freq = np.zeros(3)
    for a1, a2, a3, a4, a5, rip, rop, tip, top in DIURNAL:
        th = tau + a1*s + a2*hh + a3*p + a4*N + a5*ps + lam
        freq = freq + 1e-3*((rip*np.sin(th) + rop*np.cos(th))*np.sin(2*phi)*r
            + (tip*np.sin(th) + top*np.cos(th))*np.cos(2*phi)*n + (tip*np.cos(th) - top*np.sin(th))*np.sin(phi)*e)
    for a1, a2, a3, a4, a5, rip, tip, rop, top in LONG:
        th = a1*s + a2*hh + a3*p + a4*N + a5*ps
        freq = freq + 1e-3*((1.5*np.sin(phi)**2 - 0.5)*(rip*np.cos(th) + rop*np.sin(th))*r
            + np.sin(2*phi)*(tip*np.cos(th) + top*np.sin(th))*n)
    out = static + freq
    if tide_system == 'mean_tide':
        out = out + permanent(x, h, l)
    return (out, static, freq) if parts else out


def P2lat(phi):
    return (3*np.sin(phi)**2 - 1)/2


def permanent(x, h, l):
    """deformation under the time-independent potential of amplitude -0.31460 m"""
    r, n, e, phi, lam = frame(x)
    c = np.sqrt(5/(4*np.pi))*-0.31460
    return c*h*P2lat(phi)*r + c*l*1.5*np.sin(2*phi)*n
