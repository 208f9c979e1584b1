import _boot
from fractions import Fraction
from harness import *
from gen import *
import large
import pyTMD.math as pm
from scipy.special import lpmv, gammaln

PROPERTY = 'C29'
RULE = ('Arguments (coefficients, times, angles, degrees, orders, colatitudes incl. poles/equator, array lengths) are '
        'generated by hypothesis; a case is non-trivial when the reference value is not identically zero and the '
        'input is not a single default value.')
ASSUMPTIONS = ['scipy.special.lpmv (with Condon-Shortley phase) as independent Legendre reference',
               'float64 tolerances 1e-9 relative']


def nfac(l, m):
    return float(np.exp(0.5*(gammaln(l-m+1) - gammaln(l+m+1))))


def f_poly(case, ctx):
    c, t = case['c'], case['t']
    scalar = case['scalar']
    tin = t[0] if scalar else np.array(t)
    cin = np.array(c) if case['arr'] else list(c)
    t_before = np.copy(tin)
    got = pm.polynomial_sum(cin, tin)
    ts = [t[0]] if scalar else t
    want = [float(sum(Fraction(k)*Fraction(x)**i for i, k in enumerate(c))) for x in ts]
    mag = [float(sum(abs(Fraction(k))*abs(Fraction(x))**i for i, k in enumerate(c))) for x in ts]
    ctx.nt(len(c) > 1 and any(w != 0 for w in want))
    got = np.asarray(got)
    ctx.check(got.shape == (len(ts),), f'polynomial_sum shape {got.shape} for {len(ts)} times')
    for g, w, m in zip(got, want, mag):
        ctx.check(abs(g-w) <= 1e-13*m*10 + 1e-300, f'polynomial_sum got {g!r} want {w!r}')
    ctx.check(np.array_equal(t_before, tin), 'polynomial_sum modified its input')


def f_norm(case, ctx):
    th, circ = case['theta'], case['circle']
    arr = th[0] if case['scalar'] else np.array(th)
    got = np.atleast_1d(pm.normalize_angle(arr) if circ is None else pm.normalize_angle(arr, circle=circ))
    c = 360.0 if circ is None else circ
    ths = th[:1] if case['scalar'] else th
    ctx.nt(any(not 0 <= x < c for x in ths))
    ctx.check(got.shape == (len(ths),), 'shape')
    for g, x in zip(got, ths):
        ctx.check(0 <= g <= c, f'normalize_angle({x!r}, {c}) = {g!r} outside [0, {c}]')
        k = (Fraction(x) - Fraction(float(g)))/Fraction(c)
        d = abs(k - round(k))*Fraction(c)
        ctx.check(float(d) <= 1e-12*(abs(x)+c), f'normalize_angle({x!r}, {c}) = {g!r} not congruent')


AX = {'x': lambda c, s: [[1, 0, 0], [0, c, s], [0, -s, c]],
      'y': lambda c, s: [[c, 0, -s], [0, 1, 0], [s, 0, c]],
      'z': lambda c, s: [[c, s, 0], [-s, c, 0], [0, 0, 1]]}


def f_rotate(case, ctx):
    th, ax = case['theta'], case['axis']
    if ax.lower() not in AX:
        try:
            pm.rotate(np.array(th), ax)
        except ValueError:
            ctx.nt()
            return
        ctx.fail(f'rotate accepted axis {ax!r}')
    arr = th[0] if case['scalar'] else np.array(th)
    ths = th[:1] if case['scalar'] else th
    R = pm.rotate(arr, ax)
    ctx.check(R.shape == (3, 3, len(ths)), f'shape {R.shape}')
    ctx.nt(any(t != 0 for t in ths))
    for i, t in enumerate(ths):
        ctx.close(R[:, :, i], np.array(AX[ax.lower()](math.cos(t), math.sin(t)), float), f'rotate({t},{ax})', atol=1e-14)
    if case['default']:
        ctx.close(pm.rotate(arr), pm.rotate(arr, 'x'), 'default axis')


def f_leg(case, ctx):
    l, m, x = case['l'], case['m'], case['x']
    if not (0 <= l <= 3 and 0 <= m <= l):
        try:
            pm.legendre(l, np.array(x), m=m)
        except AssertionError:
            ctx.nt(); ctx.label('refused')
            return
        ctx.fail(f'legendre accepted l={l} m={m}')
    if case['scalar']:
        x = x[:1]
        got = pm.legendre(l, x[0], m=m)
        ctx.check(np.ndim(got) == 0, 'scalar input gave an array')
        got = np.atleast_1d(got)
    else:
        got = pm.legendre(l, np.array(x) if case['arr'] else list(x), m=m)
    want = lpmv(m, l, np.array(x))
    ctx.nt(l > 0)
    ctx.label(f'l{l}m{m}')
    ctx.close(got, want, f'legendre(l={l},m={m})', rtol=1e-10, atol=1e-7 if max(abs(v) for v in x) > 1-1e-10 else 1e-10)
    if m == 0:
        ctx.close(np.atleast_1d(pm.legendre(l, np.array(x))), want, 'default order', rtol=1e-10, atol=1e-7)


def f_assoc(case, ctx):
    lmax, x = case['lmax'], case['x']
    if case['scalar']:
        x = x[:1]
        got = pm.assoc_legendre(lmax, x[0])
        ctx.check(np.shape(got) == (lmax+1, lmax+1), f'scalar shape {np.shape(got)}')
        got = np.asarray(got)[:, :, None]
    else:
        got = np.asarray(pm.assoc_legendre(lmax, np.array(x)))
    xa = np.array(x)
    ctx.check(got.shape == (lmax+1, lmax+1, len(x)), f'shape {got.shape}')
    ctx.nt(lmax > 3)
    ctx.label('lmax>=20' if lmax >= 20 else 'lmax<20')
    for l in range(lmax+1):
        # addition theorem
        ctx.close(np.sum(got[l]**2, axis=0), np.full(len(x), 2*l+1.0), f'addition theorem degree {l}', rtol=1e-8)
        for m in range(lmax+1):
            if m > l:
                ctx.check(np.all(got[l, m] == 0), f'P[{l},{m}] not zero')
            else:
                w = lpmv(m, l, xa)*(-1)**m*nfac(l, m)*math.sqrt((2*l+1)*(1 if m == 0 else 2))
                ctx.close(got[l, m], w, f'assoc_legendre[{l},{m}]', rtol=1e-7, atol=1e-7)


def f_sph(case, ctx):
    l, m, th, ph = case['l'], case['m'], case['theta'], case['phi']
    n = min(len(th), len(ph))
    th, ph = th[:n], ph[:n]
    if case['scalar']:
        th, ph = th[:1], ph[:1]
        got = pm.sph_harm(l, th[0], ph[0], m=m)
        ctx.check(np.ndim(got) == 0, 'scalar input gave an array')
        got = np.atleast_1d(got)
    else:
        got = np.asarray(pm.sph_harm(l, np.array(th), np.array(ph), m=m))
    want = math.sqrt((2*l+1)/(4*math.pi))*nfac(l, m)*lpmv(m, l, np.cos(th))*np.exp(1j*m*np.array(ph))
    ctx.nt(l > 0)
    ctx.label(f'l{l}m{m}')
    ctx.close(got, want, f'sph_harm(l={l},m={m})', rtol=1e-8, atol=1e-7)


xs = lists(st.one_of(mix(-1.0, 1.0, -1.0, 0.0, 1.0), st.sampled_from([-1.0, 1.0, 0.0])), 1, 6)
LM = st.sampled_from([(l, m) for l in range(4) for m in range(l+1)]*3 + [(4, 0), (-1, 0), (1, 2), (2, -1), (3, 4)])
SUBS = [
    Sub('polynomial', st.fixed_dictionaries(dict(c=lists(fl(-1e4, 1e4), 1, 6), t=lists(mix(-100, 100, 0.0), 1, 5),
        scalar=st.booleans(), arr=st.booleans())), f_poly, 300, 20000),
    Sub('normalize', st.fixed_dictionaries(dict(theta=lists(st.one_of(mix(-1000, 1000, 0., 360., -360.), fl(-1e9, 1e9)), 1, 5),
        circle=st.sampled_from([None, 360.0, 2*math.pi, 24.0, 1296000.0]), scalar=st.booleans())), f_norm, 300, 20000),
    Sub('rotate', st.fixed_dictionaries(dict(theta=lists(mix(-10, 10, 0.), 1, 4), axis=st.sampled_from(list('xyzXYZ')*2+['w', '']),
        scalar=st.booleans(), default=st.booleans())), f_rotate, 200, 10000),
    Sub('legendre', LM.flatmap(lambda lm: st.fixed_dictionaries(dict(l=st.just(lm[0]), m=st.just(lm[1]), x=xs, scalar=st.booleans(),
        arr=st.booleans()))), f_leg, 600, 30000),
    Sub('assoc_legendre', st.fixed_dictionaries(dict(lmax=st.integers(0, 36), x=xs, scalar=st.booleans())), f_assoc, 80, 2000),
    Sub('sph_harm', st.integers(0, 3).flatmap(lambda l: st.fixed_dictionaries(dict(l=st.just(l), m=st.integers(0, l),
        theta=lists(mix(0, math.pi, 0., math.pi/2, math.pi), 1, 5), phi=lists(mix(-2*math.pi, 4*math.pi, 0.), 1, 5),
        scalar=st.booleans()))), f_sph, 300, 20000),
]
SUBS.append(large.sub(['legendre', 'harmonics', 'polynomial', 'angles']))
SUBS.append(large.pure(['legendre', 'harmonics', 'polynomial', 'angles']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
