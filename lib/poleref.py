"""Reference for pole tide deviations and displacements (IERS Conventions 2010, sections 7.1.4 and 7.1.5)."""
import numpy as np
import timescale.eop

AS = np.pi/648000.0


def year(mjd):
    """decimal year of a modified Julian day (proleptic Gregorian)"""
    d = np.datetime64('1858-11-17') + np.array(np.floor(mjd), dtype='timedelta64[D]')
    y = d.astype('datetime64[Y]')
    y0 = y.astype('datetime64[D]'); y1 = (y+1).astype('datetime64[D]')
    frac = ((d-y0).astype(float) + (mjd-np.floor(mjd)))/(y1-y0).astype(float)
    return y.astype(int) + 1970 + frac


def mean_pole(mjd, convention):
    t = np.asarray(year(mjd), dtype=float)
    d = t - 2000.0
    if convention == '2018':
        return 0.0550+0.001677*d, 0.3205+0.00346*d
    if convention == '2003':
        return 0.054+0.00083*d, 0.357+0.00395*d
    if convention == '2010':
        x = np.where(d < 10, 0.055974+1.8243e-3*d+1.8413e-4*d**2+7.024e-6*d**3, 0.023513+0.0076141*d)
        y = np.where(d < 10, 0.346346+1.7896e-3*d-1.0729e-4*d**2-0.908e-6*d**3, 0.358891-0.0006287*d)
        return x, y
    x, y, _ = timescale.eop.iers_mean_pole(np.atleast_1d(t), convention=convention)
    return x, y


def deviation(mjd, convention):
    """m1, m2 in radians"""
    mjd = np.atleast_1d(np.asarray(mjd, float))
    px, py = timescale.eop.iers_polar_motion(mjd, k=3, s=0)
    mx, my = mean_pole(mjd, convention)
    return AS*(px-mx), -AS*(py-my)


def load(X, m1, m2, gamma=9.80665, omega=7.2921151467e-5, h2=0.6207, l2=0.0836):
    """ECEF displacement of one station from the gradient of the pole tide potential
    V = -(omega^2 r^2 / 2) sin(2 theta) (m1 cos(lam) + m2 sin(lam))"""
    x, y, z = X
    r = np.sqrt(x*x+y*y+z*z); rho = np.hypot(x, y)
    ct, stt = z/r, rho/r
    cl, sl = x/rho, y/rho
    w = omega**2*r*r
    V = -w*stt*ct*(m1*cl+m2*sl)
    dVt = -w*(ct*ct-stt*stt)*(m1*cl+m2*sl)             # d/dtheta
    dVl = -w*ct*(-m1*sl+m2*cl)                         # d/dlambda / sin(theta)
    up = np.array([stt*cl, stt*sl, ct]); south = np.array([ct*cl, ct*sl, -stt]); east = np.array([-sl, cl, 0.0])
    return h2*V/gamma*up + l2*dVt/gamma*south + l2*dVl/gamma*east, h2*V/gamma


def ocean_factor(m1, m2, gamma=9.780325, a=6378136.3, GM=3.986004418e14, omega=7.2921151467e-5, rho=1025.0, g2=0.6870+0.0036j):
    """multipliers of the real and imaginary coefficients"""
    Hp = np.sqrt(8*np.pi/15)*omega**2*a**4/GM
    K = 4*np.pi*6.67430e-11*a*rho*Hp/(3*gamma)
    return K*(m1*g2.real+m2*g2.imag), K*(m2*g2.real-m1*g2.imag)
