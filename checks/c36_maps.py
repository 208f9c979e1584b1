"""C36: the maps of notebooks keep marker, text and cursor in agreement, in the coordinates of their projections."""
import _boot
from harness import *
from gen import *
import pyproj
import ipyleaflet
import pyTMD.io, pyTMD.tools as T

PROPERTY = 'C36'
RULE = ('maps in each projection and with generated controls, and histories of moves of the marker, edits of the text, pans and moves of the cursor; '
        'non-trivial when the history has a move beyond the antimeridian, or an edit after a move.')
ASSUMPTIONS = ['the widgets are used without a browser', 'texts have eight decimals, and positions agree to these']
LAT = mix(-90.0, 90.0, -90.0, 0.0, 90.0, 1e-9, -1e-9)
LON = mix(-1000.0, 1000.0, -180.0, 180.0, 0.0, 360.0, -360.0, 179.9999999999, -1e-9, 540.0)


def wrap(lon):
    return (lon + 180.0) % 360.0 - 180.0


def apart(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


@st.composite
def map_case(draw):
    n = draw(st.integers(1, 8))
    ops = draw(lists(st.tuples(st.sampled_from(['marker', 'marker', 'text', 'text', 'center', 'zoom', 'cursor', 'other']), LAT, LON).map(list), n, n))
    return dict(projection=draw(st.sampled_from(['Global', 'North', 'South', 'own'])), center=[draw(LAT), draw(LON)], controls=draw(lists(st.booleans(), 5, 5)), marker=draw(st.sampled_from([True, True, True, False])), ops=ops)


CODES = {'Global': 'EPSG:3857', 'North': 'EPSG:5936', 'South': 'EPSG:3031'}


def maps(case, ctx):
    names = ['attribution', 'zoom_control', 'scale_control', 'cursor_control', 'layer_control']
    kw = dict(zip(names, case['controls']))
    if case['marker']:
        kw['marker_control'] = True
    lat, lon = case['center']
    kw['center'] = (lat, lon)
    if case['projection'] == 'own':
        own = ipyleaflet.Map(center=(lat, lon), zoom=2)
        m = T.leaflet(None, map=own, **kw)
        ctx.check(m.map is own and m.crs == own.crs['name'], 'the map is another')
    else:
        m = T.leaflet(case['projection'], **kw)
        ctx.check(m.crs == CODES[case['projection']], m.crs)
        ctx.check(list(m.map.center) == [lat, lon], f'center {m.map.center}')
    ctx.label(case['projection'])
    kinds = [type(c).__name__ for c in m.map.controls]
    count = sum(bool(kw[k]) for k in ('zoom_control', 'cursor_control')) + case['marker']
    ctx.check(kinds.count('WidgetControl') == count, f'{kinds}')
    ctx.check(kinds.count('ScaleControl') == kw['scale_control'] and kinds.count('LayersControl') >= kw['layer_control'], f'{kinds}')

    def agree(what, lat, lon):
        a = list(m.marker.location)
        b = [float(v) for v in m.marker_text.value.split(',')]
        ctx.check(abs(a[0] - lat) <= 1.1e-8 and apart(a[1], lon) <= 1.1e-8, f'{what}: the marker is at {a}, not {(lat, lon)}')
        ctx.check(abs(b[0] - lat) <= 1.1e-8 and apart(b[1], lon) <= 1.1e-8, f'{what}: the text has {b}, not {(lat, lon)}')

    if case['marker']:
        agree('at first', lat, lon)
    moved = False
    for op, la, lo in case['ops']:
        if op == 'cursor' and kw['cursor_control']:
            for fn in list(m.map._interaction_callbacks.callbacks):
                fn(type='mousemove', coordinates=[la, lo])
            t = m.cursor.value
            v = [float(s.split(':')[1].strip().rstrip('°')) for s in t.split(',')]
            ctx.check(t.split(':')[0].strip() == 'Latitude' and 'Longitude' in t.split(',')[1], t)
            ctx.check(abs(v[0] - la) <= 5.1e-5 and apart(v[1], lo) <= 5.1e-5 and abs(v[1]) <= 180.0, f'the cursor at {(la, lo)} shows {t!r}')
        elif op == 'other' and kw['cursor_control']:
            t = m.cursor.value
            for fn in list(m.map._interaction_callbacks.callbacks):
                fn(type='click', coordinates=[la, lo])
            ctx.check(m.cursor.value == t, 'a click changes the position of the cursor')
        elif not case['marker']:
            continue
        elif op == 'marker':
            before = list(m.marker.location)
            m.marker.location = (la, lo)
            lat, lon = la, lo
            agree('after a move of the marker', lat, lon)
            ctx.check(before == [la, lo] or abs(float(m.marker_text.value.split(',')[1])) <= 180.0, m.marker_text.value)
            moved = True
            if abs(lo) > 180:
                ctx.nt()
        elif op == 'text':
            m.marker_text.value = f'{la:0.8f}, {lo:0.8f}' if la > 0 else f'{la!r},{lo!r}'
            lat, lon = la, lo
            agree('after an edit of the text', lat, lon)
            if moved:
                ctx.nt()
        elif op == 'center':
            m.map.center = (la, wrap(lo))
            agree('after a pan', lat, lon)
        elif op == 'zoom':
            m.map.zoom = int(3 + abs(la) % 4)
            agree('after a zoom', lat, lon)


# ---- projections ----------------------------------------------------------------------------------
@st.composite
def proj_case(draw):
    p = draw(st.sampled_from(['North', 'South']))
    return dict(projection=p, x=draw(lists(fl(-4e6, 4e6), 1, 4)), y=draw(lists(fl(-4e6, 4e6), 1, 4)), lon=draw(lists(LON, 1, 5)))


def projections(case, ctx):
    m = T.leaflet(case['projection'])
    base = m.map.crs
    n = min(len(case['x']), len(case['y']))
    x, y = np.array(case['x'][:n]), np.array(case['y'][:n])
    lon, lat = m.transform(x.copy(), y.copy(), base['proj4def'])
    e = pyproj.Transformer.from_crs(CODES[case['projection']], 'EPSG:4326', always_xy=True).transform(x, y)
    ctx.check(np.all(np.isfinite(lat)) and np.abs(lat - e[1]).max() < 1e-8, f'latitudes {lat}, not {e[1]}')
    ctx.check(max(apart(a, b) * np.cos(np.radians(c)) for a, b, c in zip(lon, e[0], lat)) < 1e-8, f'longitudes {lon}, not {e[0]}')
    ctx.check(base['name'] == CODES[case['projection']], base['name'])
    r = np.array(base['resolutions'])
    ctx.check(np.allclose(r[:-1] / r[1:], 2.0, atol=1e-6), 'resolutions are not halves')
    w = np.array([m.wrap_longitudes(v) for v in case['lon']])
    ctx.check(all(apart(a, b) <= 1e-9 and abs(a) <= 180.0 for a, b in zip(w, case['lon'])), f'longitudes {case["lon"]} are wrapped to {w}')
    ctx.mclose(m.wrap_longitudes(np.array(case['lon'])), w, 'longitudes of an array', rtol=0, atol=0)
    ctx.nt()


# ---- widgets --------------------------------------------------------------------------------------
def wid(case, ctx):
    import json, pathlib
    w = T.widgets(**({} if case['style'] is None else dict(style=case['style'])))
    names = list(w.model.options)
    db = json.loads((pathlib.Path(pyTMD.io.__file__).parents[1]/'data'/'database.json').read_text())['elevation']
    ctx.check(names == sorted(db), 'the models are not those of the database')
    name = names[case['i'] % len(names)]
    w.model.value = name
    m = pyTMD.io.model(w.directory.value or None, compressed=w.compress.value, verify=False).elevation(w.model.value)
    ctx.check(m.name == db[name]['name'] and m.format == db[name]['format'], m.name)
    c = w.constituents.options[case['i'] % len(w.constituents.options)]
    w.constituents.value = c
    ctx.check(pyTMD.io.constituents.parse(w.constituents.value) == c, c)
    ctx.nt()


SUBS = [Sub('maps', map_case(), maps, 150, 2500), Sub('projections', proj_case(), projections, 100, 1500),
        Sub('widgets', st.fixed_dictionaries(dict(i=st.integers(0, 200), style=st.sampled_from([None, {}, {'description_width': 'initial'}]))), wid, 60, 400)]
if __name__ == '__main__':
    sys.exit(main(sys.modules[__name__]))
