import _boot
from harness import *
from gen import *
import large
import pyTMD.ellipse as pe

PROPERTY = 'C30'
RULE = ('Complex u, v pairs (generic, linear, circular, zero, axis-aligned motion; arrays with masks; scalars) are generated; '
        'non-trivial when at least one pair has motion in both components or is masked.')
ASSUMPTIONS = ['u(t) = Re(u exp(i theta)) as used by the forward formula in the docstring reference (Foreman 1989)',
               'inclination and phase are compared through the motion they describe, so 0/180 and 0/360 ties are not judged']

comp = st.one_of(cplx(-5, 5), st.tuples(st.integers(-3, 3), st.integers(-3, 3)).map(lambda t: [float(t[0]), float(t[1])]))


@st.composite
def pair(draw):
    kind = draw(st.sampled_from(['any', 'any', 'any', 'circ+', 'circ-', 'linear', 'zero', 'uonly', 'vonly']))
    u = draw(comp)
    if kind == 'any':
        v = draw(comp)
    elif kind == 'circ+':      # v = -i u
        v = [u[1], -u[0]]
    elif kind == 'circ-':
        v = [-u[1], u[0]]
    elif kind == 'linear':
        k = draw(fl(-3, 3)); v = [k*u[0], k*u[1]]
    elif kind == 'zero':
        u = v = [0.0, 0.0]
    elif kind == 'uonly':
        v = [0.0, 0.0]
    else:
        u, v = [0.0, 0.0], u
    return dict(u=u, v=v, mu=draw(st.sampled_from([False]*5+[True])), mv=draw(st.sampled_from([False]*5+[True])))


def arrays(case):
    ps = case['p']
    u = C([p['u'] for p in ps]); v = C([p['v'] for p in ps])
    mask = None
    if case['masked']:
        mask = (np.array([p['mu'] for p in ps]), np.array([p['mv'] for p in ps]))
        u = np.ma.array(u, mask=mask[0]); v = np.ma.array(v, mask=mask[1])
    if case['two_d'] and len(ps) % 2 == 0:
        u, v = u.reshape(2, -1), v.reshape(2, -1)
    elif case['scalar'] and not case['masked']:
        u, v = u[0], v[0]
    return u, v, mask


def f_forward(case, ctx):
    u, v, mask = arrays(case)
    u0, v0 = copy_of(u), copy_of(v)
    maj, mnr, inc, ph = pe.ellipse(u, v)
    ctx.check(same(u, u0) and same(v, v0), 'ellipse() modified its inputs')
    u, v = np.atleast_1d(u), np.atleast_1d(v)
    for n, a in dict(umajor=maj, uminor=mnr, uincl=inc, uphase=ph).items():
        ctx.check(np.shape(a) == u.shape, f'{n} shape {np.shape(a)} for {u.shape}')
    M = np.ma.getmaskarray(u) | np.ma.getmaskarray(v)
    for n, a in dict(umajor=maj, uminor=mnr, uincl=inc, uphase=ph).items():
        ctx.check(np.array_equal(np.ma.getmaskarray(a), M), f'{n}: mask {np.ma.getmaskarray(a)} expected {M}')
    ok = ~M
    U, V = np.ma.getdata(u)[ok], np.ma.getdata(v)[ok]
    maj, mnr, inc, ph = (np.ma.getdata(a)[ok] for a in (maj, mnr, inc, ph))
    ctx.nt(bool(np.any((np.abs(U) > 0) & (np.abs(V) > 0))) or bool(M.any()))
    s = np.abs(U)+np.abs(V)
    ctx.check(np.all(maj >= np.abs(mnr) - 1e-12*s), 'semi-major axis shorter than semi-minor')
    ctx.check(np.all((inc >= 0) & (inc <= 180)), f'inclination {inc} outside 0-180')
    ctx.check(np.all((ph >= 0) & (ph <= 360)), f'phase {ph} outside 0-360')
    i, p = np.radians(inc), np.radians(ph)
    for th in np.arange(0, 2*np.pi, np.pi/5):
        motion = (U*np.exp(1j*th)).real + 1j*(V*np.exp(1j*th)).real
        ell = np.exp(1j*i)*(maj*np.cos(th-p) + 1j*mnr*np.sin(th-p))
        ctx.check(np.all(np.abs(motion-ell) <= 1e-11*(s+1e-12)), f'ellipse motion differs at {th}: {motion} vs {ell} for u={U} v={V}')


def f_round(case, ctx):
    u, v, mask = arrays(case)
    par = pe.ellipse(u, v)
    u1, v1 = pe.inverse(*par)
    u, v = np.atleast_1d(u), np.atleast_1d(v)
    M = np.ma.getmaskarray(u) | np.ma.getmaskarray(v)
    ctx.nt(bool(np.any((np.abs(np.ma.getdata(u)) > 0) & (np.abs(np.ma.getdata(v)) > 0))) or bool(M.any()))
    ctx.mclose(u1, np.ma.array(np.ma.getdata(u), mask=M), 'u after round trip', atol=1e-11)
    ctx.mclose(v1, np.ma.array(np.ma.getdata(v), mask=M), 'v after round trip', atol=1e-11)


def f_inverse(case, ctx):
    """inverse() alone: any axes/angles (also outside the canonical ranges) give that motion"""
    a = np.array(case['a'])
    maj, mnr, inc, ph = a.T
    args = [np.array(x) for x in (maj, mnr, inc, ph)]
    if case['scalar']:
        args = [x[0] for x in args]; maj, mnr, inc, ph = (x[:1] for x in (maj, mnr, inc, ph))
    u, v = pe.inverse(*args)
    if not case['scalar']:
        ctx.check(all(np.array_equal(x, y) for x, y in zip(args, (maj, mnr, inc, ph))), 'inverse() modified its inputs')
    ctx.nt(bool(np.any((maj != 0) & (mnr != 0))))
    i, p = np.radians(inc), np.radians(ph)
    for th in np.arange(0, 2*np.pi, np.pi/5):
        motion = (u*np.exp(1j*th)).real + 1j*(v*np.exp(1j*th)).real
        ell = np.exp(1j*i)*(maj*np.cos(th-p) + 1j*mnr*np.sin(th-p))
        ctx.close(motion, ell, f'inverse motion at {th}', atol=1e-10)


def copy_of(x):
    return x.copy() if hasattr(x, 'copy') else x


def same(a, b):
    return np.array_equal(np.ma.getmaskarray(np.ma.asarray(a)), np.ma.getmaskarray(np.ma.asarray(b))) and \
        np.array_equal(np.ma.getdata(a), np.ma.getdata(b))


base = dict(p=st.lists(pair(), min_size=1, max_size=6), masked=st.booleans(), two_d=st.booleans(), scalar=st.booleans())
SUBS = [Sub('forward', st.fixed_dictionaries(base), f_forward, 800, 40000),
        Sub('roundtrip', st.fixed_dictionaries(base), f_round, 800, 40000),
        Sub('inverse', st.fixed_dictionaries(dict(a=st.lists(st.tuples(fl(0, 5), fl(-5, 5), mix(-360, 540, 0., 180.), mix(-360, 720, 0., 180., 360.)).map(list),
             min_size=1, max_size=5), scalar=st.booleans())), f_inverse, 400, 20000)]
SUBS.append(large.sub(['ellipse', 'inverse']))
SUBS.append(large.pure(['ellipse', 'inverse']))
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
