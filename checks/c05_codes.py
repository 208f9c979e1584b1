import _boot
from harness import *
from gen import *
import tidalref as R
import pathlib
import pyTMD.arguments as pa
import pyTMD.math

PROPERTY = 'C05'
RULE = ('Multiplier vectors in and just outside the digit ranges, constituent lists in any letter case with unknown names, sampling periods and '
        'generated tide potential tables; non-trivial when the code has a letter digit, a negative multiplier, or more than one constituent/line.')
ASSUMPTIONS = ['Doodson digits: first multiplier as it is, the others plus five, X=10, E=11',
               'extended (UKHO) digits: R..Y = -8..-1, Z = 0, A..P = 1..15',
               'folding rule: |f - fs*round(f/fs)|']

DIG = '0123456789XE'
XDIG = 'RSTUVWXYZABCDEFGHIJKLMNOP'
CORR = st.sampled_from(['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'FES', 'GOT', 'perth3'])
NAMES = st.sampled_from(sorted(R.ALL))
small = st.integers(-4, 4)
mid = st.integers(-5, 6)


def ref_doodson(m):
    """digits of the Doodson number of six multipliers, None when a digit is out of range"""
    d = [m[0]] + [v + 5 for v in m[1:]]
    if any(v < 0 or v > 11 for v in d):
        return None
    s = ''.join(DIG[v] for v in d)
    return s[:3] + '.' + s[3:]


def ref_extended(m):
    if any(v < -8 or v > 15 for v in m):
        return None
    return ''.join(XDIG[v + 8] for v in m)


def same_number(ctx, got, want, what):
    """a Doodson number is a string with letters, otherwise a number with at most three decimals"""
    if want is None:
        ctx.check(got is None, f'{what}: {got!r} for multipliers without a digit')
    elif 'X' in want or 'E' in want:
        ctx.check(str(got) == want, f'{what}: {got!r} expected {want!r}')
    else:
        ctx.check(not isinstance(got, str) or str(got) == want, f'{what}: {got!r} expected {want!r}')
        ctx.check(abs(float(got) - float(want)) < 2e-7*max(1.0, float(want)), f'{what}: {got!r} expected {want!r}')


def f_doodson(case, ctx):
    m = case['m']
    v = np.array(m, dtype=float) if case['kind'] == 'float' else (np.array(m) if case['kind'] == 'int' else list(m))
    want = ref_doodson(m[:6])
    try:
        got = pa._to_doodson_number(v)
    except ValueError:
        ctx.check(want is None, f'{m}: refused, expected {want}')
        got = None
    else:
        ctx.check(want is not None, f'{m}: {got!r} returned for multipliers without a digit')
    ctx.check(list(np.asarray(v).astype(int)) == list(m), 'the multipliers were modified')
    quiet = pa._to_doodson_number(v, raise_error=False)
    same_number(ctx, quiet, want, f'{m} raise_error=False')
    if want is None:
        ctx.label('refused')
        return
    ctx.nt(any(x < 0 for x in m[:6]) or 'X' in want or 'E' in want)
    if 'X' in want or 'E' in want:
        ctx.label('letters')
    elif want.endswith('0'):
        ctx.label('trailing zero')
    same_number(ctx, got, want, f'{m}')
    for DO in (got, want, np.str_(want), str(got)):
        back = pa._from_doodson_number(DO)
        ctx.check([int(x) for x in np.atleast_1d(back)] == list(m[:6]), f'{m} -> {DO!r} -> {back}')
    if not ('X' in want or 'E' in want):
        s = pa._to_doodson_number(v, astype=str)
        ctx.check(float(s) == float(want), f'astype=str: {s!r} expected {want}')
        ctx.check([int(x) for x in pa._from_doodson_number(s)] == list(m[:6]), f'astype=str {s!r} does not decode to {m}')


def f_extended(case, ctx):
    m = case['m']
    want = ref_extended(m)
    v = np.array(m, dtype=float) if case['kind'] == 'float' else list(m)
    try:
        got = pa._to_extended_doodson(v)
    except ValueError:
        ctx.check(want is None, f'{m}: refused, expected {want}')
        got = None
    else:
        ctx.check(want is not None, f'{m}: {got!r} returned for multipliers without a digit')
    quiet = pa._to_extended_doodson(v, raise_error=False)
    ctx.check((quiet is None) == (want is None), f'{m} raise_error=False: {quiet!r} expected {want}')
    if want is None:
        ctx.label('refused')
        return
    ctx.nt(any(x < 0 for x in m))
    ctx.check(str(got) == want == str(quiet), f'{m}: {got!r} expected {want!r}')
    for x in (got, want):
        back = pa._from_extended_doodson(x)
        ctx.check([int(b) for b in back] == list(m), f'{m} -> {x!r} -> {back}')


def case_of(name, k):
    return [name, name.upper(), name.title()][k % 3]


def f_names(case, ctx):
    corr, form = case['corr'], case['form']
    names = [case_of(c, k) for c, k in case['c']]
    ref = [c for c, k in case['c']]
    kw = {} if corr is None else dict(corrections=corr)
    corr = corr or 'OTIS'
    fname = dict(kw)
    if form is not None:
        fname['formalism'] = form
    form = (form or 'Doodson').lower()
    ctx.nt(len(names) > 1)
    expected = []
    for c in ref:
        if c not in R.ALL:
            expected.append('unknown')
            continue
        m = [int(x) for x in R.coefficients(c, corr)]
        expected.append(m if form == 'cartwright' else ref_doodson(m[:6]) if form == 'doodson' else ref_extended(m))
    bad = [e is None or (isinstance(e, str) and e == 'unknown') for e in expected]
    kind = case['kind']
    arg = names[0] if kind == 'str' else (np.array(names) if kind == 'array' else list(names))
    if kind == 'str':
        names, expected, bad, ref = names[:1], expected[:1], bad[:1], ref[:1]
    for raise_error in (True, False):
        try:
            got = pa.doodson_number(arg, raise_error=raise_error, **fname)
        except ValueError:
            ctx.check(raise_error and any(bad), f'{names} refused (raise_error={raise_error})')
            ctx.label('refused')
            continue
        ctx.check(not (raise_error and any(bad)), f'{names}: {got} returned although one of them has no code')
        if kind == 'str':
            got = {names[0]: got}
        ctx.check(list(got.keys()) == list(dict.fromkeys(str(n) for n in names)), f'keys {list(got)} for {names}')
        for n, e, b in zip(names, expected, bad):
            g = got[n]
            if b:
                ctx.check(g is None, f'{n}: {g!r} for a constituent without a code')
            elif form == 'cartwright':
                ctx.check([int(x) for x in g] == e[:6] and np.allclose(g, e[:6]), f'{n}: {g} expected {e[:6]}')
            elif form == 'doodson':
                same_number(ctx, g, e, n)
                ctx.check([int(x) for x in pa._from_doodson_number(g)] == [int(x) for x in R.coefficients(n.lower(), corr)[:6]], f'{n}: {g!r} does not decode')
            else:
                # the phase digit counts quarter turns
                ctx.check(len(str(g)) == 7 and str(g)[:6] == e[:6] and (XDIG.index(str(g)[6]) - XDIG.index(e[6])) % 4 == 0, f'{n}: {g!r} expected {e!r}')
                ctx.check([int(x) for x in pa._from_extended_doodson(g)][:6] == [int(x) for x in R.coefficients(n.lower(), corr)[:6]], f'{n}: {g!r} does not decode')
    # the same multipliers and frequency through the other entry points
    ok = [c for c in ref if c in R.ALL]
    if ok:
        tab = pa.coefficients_table(ok if len(ok) > 1 or case['kind'] != 'str' else ok[0], **kw)
        ref7 = np.array([R.coefficients(c, corr) for c in ok], dtype=float).T
        ctx.close(tab[:6], ref7[:6], f'coefficients_table({ok}, {corr})')
        ctx.close(np.mod(tab[6], 4), np.mod(ref7[6], 4), f'phase multiples of {ok} ({corr}) modulo a turn')
        om = pa.frequency(ok, **kw)
        a0, a1 = R.fundamental(np.array([51544.5]), corr), R.fundamental(np.array([51544.55]), corr)
        rate = np.ravel(a1 - a0)[:7]/4320.0
        w = np.radians([np.dot(rate[:6], np.asarray(R.coefficients(c, corr), dtype=float)[:6]) for c in ok])
        ctx.close(om, w, f'frequency of {ok} ({corr})', rtol=1e-7, atol=1e-14)


def f_alias(case, ctx):
    names, corr = case['c'], case['corr']
    om = pa.frequency(names, corrections=corr)
    sampling = case['s']
    T = pa.aliasing_period(names, sampling, corrections=corr)
    ctx.check(np.shape(T) == (len(names),), f'shape {np.shape(T)}')
    fs = 1.0/sampling
    for i, c in enumerate(names):
        f = om[i]/(2*np.pi)
        k = f/fs
        fold = abs(k - math.floor(k + 0.5))
        if fold < 1e-4 or abs(fold - 0.5) < 1e-4:
            ctx.label('undefined')
            continue
        want = sampling/fold
        ctx.nt(k > 0.5)
        ctx.label('aliased' if k > 0.5 else 'resolved')
        ctx.close(T[i], want, f'aliasing period of {c} at {sampling} s', rtol=1e-6)
        ctx.check(T[i] >= 2*sampling*(1 - 1e-9), f'aliasing period of {c} below twice the sampling period')
        one = pa.aliasing_period(c, sampling, corrections=corr)
        ctx.close(np.ravel(one)[0], T[i], f'{c} alone', rtol=1e-7)
        # what the folded frequency means: the samples of both cosines are the same
        n = np.arange(5)*sampling
        ph = 0.7
        a = np.cos(2*np.pi*np.mod(f*n, 1.0))
        b = np.cos(2*np.pi*n/T[i])
        ctx.close(a, b, f'{c} sampled every {sampling} s is not a cosine with the aliasing period', rtol=0, atol=1e-4)


SHIPPED = ['d1921_tab.txt', 'ct1971_tab5.txt', 'ce1973_tab1.txt']


def compare_table(ctx, path, rows):
    t = pa._parse_tide_potential_table(path)
    ctx.check(len(t) == len(rows), f'{len(t)} lines parsed of {len(rows)}')
    cols = ('tau', 's', 'h', 'p', 'n', 'pp')
    for i, w in enumerate(rows):
        m = [int(t[c][i]) for c in cols]
        ctx.check(m == [int(x) for x in w[:6]], f'line {i}: multipliers {m} of {w}')
        for k, c in enumerate(('Hs1', 'Hs2', 'Hs3')):
            ctx.check(abs(float(t[c][i]) - float(w[6+k])) < 1e-6, f'line {i}: {c} {t[c][i]} of {w}')
        ctx.check(str(t['DO'][i]) == w[9], f'line {i}: DO {t["DO"][i]} of {w}')
        ctx.check(abs(float(t['Hs0'][i]) - float(w[10])) < 1e-6, f'line {i}: Hs0 {t["Hs0"][i]} of {w}')
        ctx.check(ref_doodson(m) == w[9], f'line {i}: {m} is not {w[9]}')
        ctx.check([int(x) for x in pa._from_doodson_number(t['DO'][i])] == m, f'line {i}: {t["DO"][i]} does not decode to {m}')
        same_number(ctx, pa._to_doodson_number(m), w[9], f'line {i}')


def f_table(case, ctx):
    if case['file'] is not None:
        path = {SHIPPED[0]: pa._d1921_table, SHIPPED[1]: pa._ct1971_table_5, SHIPPED[2]: pa._ce1973_table_1}[case['file']]
        ctx.check(pathlib.Path(path).name == case['file'], f'{path} is not the {case["file"]} table')
        rows = [l.split() for l in open(path, encoding='utf8') if l.strip()]
        ctx.nt()
        # one multiplier vector per line, scaled amplitudes of one sign per species and degree
        keys = [tuple(r[:6]) for r in rows]
        ctx.check(len(set(keys)) == len(keys), f'{case["file"]} lists a line twice')
    else:
        path = os.path.join(ctx.tmp, 'table.txt')
        rows = []
        with open(path, 'w') as f:
            for m, a, extra, wide in case['rows']:
                do = ref_doodson(m)
                if do is None:
                    continue
                w = [str(x) for x in m] + ['%.5f' % x for x in a[:3]] + [do] + ['%.5f' % a[3]] + (['%.5f' % extra] if extra is not None else [])
                rows.append(w)
                f.write((' '*wide).join(['']*(wide % 2) + w) + '\n')
        ctx.nt(len(rows) > 1)
        if len(rows) == 0:
            ctx.skip()
        if case['path']:
            path = pathlib.Path(path)
    compare_table(ctx, path, rows)


six = st.one_of(st.tuples(st.integers(0, 8), small, small, small, small, small),
                st.tuples(st.integers(-1, 13), mid, mid, mid, mid, mid),
                st.tuples(st.integers(0, 3), mid, mid, mid, st.sampled_from([-5, 0]), st.sampled_from([-5, 0, 1])),
                st.tuples(*[st.integers(-9, 16)]*6)).map(list)
seven = st.one_of(st.tuples(st.integers(0, 8), small, small, small, small, small, small),
                  st.tuples(*[st.integers(-8, 15)]*7), st.tuples(*[st.integers(-10, 17)]*7)).map(list)
name_or_unknown = st.one_of(NAMES, NAMES, NAMES, NAMES, NAMES, st.sampled_from(['xx', 'm22', '', 'm 2', 'unknown']))
amp = fl(-0.99, 0.99)

SUBS = [
    Sub('doodson', st.fixed_dictionaries(dict(m=st.one_of(six, seven), kind=st.sampled_from(['float', 'int', 'list']))), f_doodson, 1500, 60000),
    Sub('extended', st.fixed_dictionaries(dict(m=st.one_of(seven, six), kind=st.sampled_from(['float', 'list']))), f_extended, 1000, 40000),
    Sub('names', st.fixed_dictionaries(dict(c=lists(st.tuples(name_or_unknown, st.integers(0, 2)).map(list), 1, 4),
        corr=st.one_of(st.none(), CORR), form=st.sampled_from([None, 'Cartwright', 'Doodson', 'Extended', 'cartwright', 'DOODSON', 'extended']),
        kind=st.sampled_from(['str', 'list', 'array']))), f_names, 500, 12000,
        examples=[dict(c=[[c, 0]], corr=None, form=f, kind='str') for c in sorted(R.ALL) for f in ('Doodson', 'Extended')]),
    Sub('aliasing', st.fixed_dictionaries(dict(c=lists(NAMES, 1, 4), corr=CORR,
        s=st.one_of(fl(600., 4e6), st.sampled_from([3600., 86400., 9.9156*86400, 35*86400., 43200., 17*86400., 10*86400., 12*86400., 91*86400.])))), f_alias, 300, 8000),
    Sub('tables', st.fixed_dictionaries(dict(file=st.none(), path=st.booleans(),
        rows=lists(st.tuples(st.tuples(st.integers(0, 3), mid, mid, mid, mid, mid).map(list), lists(amp, 4, 4),
                             st.one_of(st.none(), amp), st.integers(1, 3)).map(list), 1, 8))), f_table, 200, 4000, tmp=True,
        examples=[dict(file=f, path=False, rows=[]) for f in SHIPPED]),
]
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
