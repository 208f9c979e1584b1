"""C22: the constituents container is an ordered map of complex fields, and the names of constituents are recognised."""
import _boot
from harness import *
from gen import *
import copy
import pyTMD.arguments as pa
import pyTMD.io
from pyTMD.io import constituents

PROPERTY = 'C22'
RULE = ('Sequences of container operations with masked complex fields run against an ordered dictionary; names are embedded in the file names of data '
        'providers; non-trivial when a field is updated or removed, a retrieved copy is changed, a masked field is decomposed, or the name is not bare.')
ASSUMPTIONS = ['a name is appended once (again after it was removed)', 'an operation on an absent name raises an exception of any type and changes nothing',
               'names are those of the 60 constituents of the argument table and the further ones the parser lists']

NAMES = ['sa', 'ssa', 'mm', 'msf', 'mt', 'mf', 'alpha1', '2q1', 'sigma1', 'q1', 'rho1', 'o1', 'tau1', 'm1', 'chi1', 'pi1', 'p1', 's1', 'k1', 'psi1', 'phi1',
         'beta1', 'theta1', 'j1', 'oo1', '2n2', 'mu2', 'n2', 'nu2', 'm2', 'm2a', 'm2b', 'lambda2', 'l2', 't2', 's2', 'alpha2', 'beta2', 'delta2', 'gamma2',
         'r2', 'k2', 'eta2', 'mns2', '2sm2', 'm3', 'mk3', 's3', 'mn4', 'm4', 'ms4', 'mk4', 'so1', 's4', 's5', 'm6', 's6', 's7', 's8', 'm8', 'mks2', 'msqm',
         'mtm', 'n4', 'eps2', 'ups1', 'z0', 'node']
SHORTENED = [('2n', '2n2'), ('alp1', 'alpha1'), ('alp2', 'alpha2'), ('bet1', 'beta1'), ('bet2', 'beta2'), ('del2', 'delta2'), ('e2', 'eps2'), ('ep2', 'eps2'),
             ('gam2', 'gamma2'), ('la2', 'lambda2'), ('lam2', 'lambda2'), ('lm2', 'lambda2'), ('msq', 'msqm'), ('omega0', 'node'), ('om0', 'node'),
             ('rho', 'rho1'), ('sig1', 'sigma1'), ('the1', 'theta1'), ('the', 'theta1')]
FILES = ['{}', 'h_{}_tpxo9_atlas_30_v5', 'u_{}_tpxo10_atlas_30_v2.nc', 'u_{}_tpxo9_atlas_30_v4', '{}.d', '{}load.d', '{}load.nc', '{}x.nc', '{}_ocean_eot20.nc',
         '{}_load_eot20.nc', '{}_fes2022.nc', 'HAMcurrent11a_{}.nc', '{}.hamtide11a.nc', '{}_FES2012_SLEV.nc', '{}_RE14_oceantide.nc', '{}_DTU23.d',
         'hf.{}_tpxo8_atlas_30c_v1.nc', 'uv.{}_tpxo8_atlas_30c_v1', '{}_5.5D.nc', '{}_5.5Dx.nc', '{}.nc.gz', '{}.asc', '{}_fes2004.asc', '{}.d.gz']
SHORT_FILES = ['{}', '{}.nc', '{}.d', '{}load.nc', '{}x.nc', '{}.hamtide11a.nc', 'HAMcurrent11a_{}.nc', '{}_FES2012_SLEV.nc', '{}_fes2022.nc']
NOTHING = ['', 'grid', 'README', 'tpxo', 'model.nc', 'xyz', 'grid_tpxo9', 'abc.d']

num = st.one_of(fl(-3, 3), st.sampled_from([0.0, -0.0, 1.0, -1.0]), fl(-1e-12, 1e-12))


@st.composite
def field(draw, n):
    return [draw(lists(num, n, n)), draw(lists(num, n, n)), draw(st.one_of(st.just([False]*n), lists(st.booleans(), n, n))), draw(st.booleans())]


def build(f, shape):
    a = np.ma.array(np.array(f[0]) + 1j*np.array(f[1]))
    a.mask = np.array(f[2]) if (any(f[2]) or f[3]) else np.ma.nomask
    return a.reshape(shape)


@st.composite
def ops_case(draw):
    ny, nx = draw(st.integers(1, 2)), draw(st.integers(1, 3))
    few = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    op = st.tuples(st.sampled_from(['append', 'append', 'append', 'get', 'copy', 'update', 'pop', 'iter', 'nest', 'stop', 'item', 'setitem', 'absent', 'decompose', 'numbers', 'len', 'next']),
                   st.sampled_from(few), st.integers(0, 2)).map(list)
    return dict(shape=draw(st.sampled_from([[ny*nx], [ny, nx]])), fields=[draw(field(ny*nx)) for _ in range(3)], ops=draw(lists(op, 1, 14)))


def same(a, b):
    return (np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b)) and a.shape == b.shape
            and np.array_equal(np.ma.getdata(a), np.ma.getdata(b)))


def f_ops(case, ctx):
    sh = tuple(case['shape'])
    F = [build(f, sh) for f in case['fields']]
    c, ref = constituents(), {}
    def whole(what):
        ctx.check(list(c.fields) == list(ref), f'{what}: names {c.fields} expected {list(ref)}')
        for k, v in ref.items():
            ctx.check(same(getattr(c, k), v), f'{what}: field {k} is {getattr(c, k)!r} expected {v!r}')
        ctx.check(len(c) == len(ref), f'{what}: length {len(c)}')
        want = next(iter(ref.values())).shape if ref else None
        ctx.check(c.shape == want, f'{what}: shape {c.shape} expected {want}')
    for op, n, i in case['ops']:
        v = F[i].copy()
        if op == 'append':
            if n in ref:
                op = 'update'
            else:
                ctx.check(c.append(n, v) is c, 'append does not return the container')
                ref[n] = v.copy()
        if op == 'update' and n in ref:
            ctx.check(c.update(n, v) is c, 'update does not return the container')
            ref[n] = v.copy()
            ctx.nt()
        elif op in ('absent', 'update', 'pop', 'get', 'item', 'decompose') and n not in ref:
            for what, call in [('get', lambda: c.get(n)), ('update', lambda: c.update(n, v)), ('pop', lambda: c.pop(n)), ('item', lambda: c[n]),
                               ('amplitude', lambda: c.amplitude(n)), ('phase', lambda: c.phase(n))]:
                try:
                    call()
                except Exception:
                    pass
                else:
                    ctx.fail(f'{what} of the absent name {n} is not refused')
                whole(f'refused {what}')
        elif op in ('get', 'item'):
            ctx.check(same(c.get(n) if op == 'get' else c[n], ref[n]), f'{op} of {n}')
        elif op == 'copy' and n in ref:
            g = c.get(n)
            g.data[...] = 99.0
            if g.mask is not np.ma.nomask:
                g.mask[...] = ~g.mask
            g[...] = np.ma.masked
            ctx.nt()
        elif op == 'pop':
            got = c.pop(n)
            ctx.check(same(got, ref.pop(n)), f'popped {n}')
            ctx.check(not hasattr(c, n), f'{n} is left after it was removed')
            ctx.nt()
        elif op == 'setitem' and n in ref:
            c[n] = v
            ref[n] = v.copy()
        elif op == 'iter':
            for _ in range(2):
                got = list(c)
                ctx.check([k for k, _ in got] == list(ref) and all(same(x, ref[k]) for k, x in got), f'iteration gives {[k for k, _ in got]} expected {list(ref)}')
        elif op == 'nest':
            got = [(a, b) for a, _ in c for b, _ in c]
            ctx.check(got == [(a, b) for a in ref for b in ref], f'iteration within iteration gives {got}')
        elif op == 'stop':
            for k, _ in c:
                break
            got = [k for k, _ in c]
            ctx.check(got == list(ref), f'iteration after one that was left gives {got}')
        elif op == 'next':
            it = iter(c)
            got = [next(it)[0] for _ in ref]
            try:
                next(it)
                ctx.fail('no end of the iteration')
            except StopIteration:
                pass
            ctx.check(got == list(ref), f'next gives {got}')
        elif op == 'decompose' and n in ref:
            a, p = c.amplitude(n), c.phase(n)
            w = ref[n]
            mk = np.ma.getmaskarray(w)
            ctx.check(np.array_equal(np.ma.getmaskarray(a), mk) and np.array_equal(np.ma.getmaskarray(p), mk), f'mask of amplitude or phase of {n}')
            ok = ~mk
            A, P = np.ma.getdata(a)[ok], np.ma.getdata(p)[ok]
            ctx.check(bool(np.all(A >= 0) and np.all((P >= 0) & (P <= 360))), f'amplitude {A} or phase {P} out of range')
            z = A*np.exp(-1j*np.radians(P))
            ctx.close(z, np.ma.getdata(w)[ok], f'amplitude and phase of {n}', rtol=1e-12, atol=1e-14)
            if mk.any():
                ctx.nt()
        elif op == 'numbers':
            D, W, E = c.doodson_number, c.cartwright_number, c.extended_doodson
            ctx.check(len(D) == len(W) == len(E) == len(ref), 'numbers of a different count')
            for k, d, w, e in zip(ref, D, W, E):
                for got, f in ((d, None), (w, 'Cartwright'), (e, 'Extended')):
                    try:
                        exp = pa.doodson_number(k, formalism=f) if f else pa.doodson_number(k)
                    except (AssertionError, ValueError):
                        exp = None
                    ctx.check(np.array_equal(got, exp) if exp is not None else got is None, f'number of {k}: {got} expected {exp}')
        whole(f'after {op} {n}')
    s = str(c)
    ctx.check(all(k in s for k in ref), f'text {s!r} without a name')
    if len(ref) > 1:
        ctx.nt()


@st.composite
def name_case(draw):
    k = draw(st.integers(0, 9))
    n, want = (lambda x: (x, x))(draw(st.sampled_from(NAMES)))
    if k < 2:
        n, want = draw(st.sampled_from(SHORTENED))
    n = draw(st.sampled_from([str, str.lower, str.upper, str.capitalize, str.swapcase]))(n)
    if k == 9:
        return dict(text=draw(st.sampled_from(NOTHING)), want=None)
    return dict(text=draw(st.sampled_from(SHORT_FILES if k < 2 else FILES)).format(n), want=want)


def f_name(case, ctx):
    t, want = case['text'], case['want']
    if want is None:
        ctx.nt()
        try:
            got = constituents.parse(t)
        except ValueError:
            return
        ctx.fail(f'{t!r} recognised as {got}')
    ctx.nt(t != want)
    got = constituents.parse(t)
    ctx.check(got == want, f'{t!r} recognised as {got!r}, expected {want!r}')
    ctx.check(pyTMD_parse(t) == want, f'the file {t!r} is recognised as {pyTMD_parse(t)!r}')


def pyTMD_parse(t):
    return pyTMD.io.model.parse_file('/data/s2_dir/' + t)


SUBS = [
    Sub('ops', ops_case(), f_ops, 1500, 30000, shards=4),
    Sub('name', name_case(), f_name, 2500, 20000, shards=2),
]

if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
