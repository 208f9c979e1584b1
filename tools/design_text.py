"""Hand-written part of DESIGN.md: per property (specified, reach) plus the general sections."""
HEAD = '''# Design: property-based testing and fuzzing of pyTMD

All 34 properties of `properties.jsonl` are decided by one technique: generated-input search (Hypothesis strategies, structured
generators for files, sequences of operations and faults) against an explicit oracle, with shrinking. A failure becomes a replay file
(`evidence/replay/*.json`), which `./check Cnn --replay FILE` runs again. Nothing is decided by example tests, static analysis or proof.
`not_applicable` in `MANIFEST.json` is empty: every property is reachable by calling the library, the programs, or both.

This file is written by `tools/gen_design.py` (text in `tools/design_text.py`; generators, bounds and assumptions come from the check
modules, the tables of defects and planted bugs from `tools/fixed.json`, `tools/known.json`, `seeded/`).

## Machinery

* `/repo` is pure Python: a check imports `pyTMD` from `/repo`'s working tree (`VERIF_REPO` overrides), nothing is built, and no byte
  code of pyTMD is read or written (`sys.pycache_prefix`, `-B`), so a check always sees the code as it is now. `setup.sh` only verifies that
  the interpreter and the libraries are there.
* `lib/harness.py` runs the subs (one generator + one deciding function each) of a property in worker processes with a seed made of
  `VERIF_SEED`, the property, the sub and the shard. It counts generated cases, those that are non-trivial by the stated rule (distinct
  ones), skipped ones (out of the stated domain), labels; keeps samples; writes `evidence/Cnn.json`. An exception of the code under test
  is a failure of the case (inputs are generated inside the documented domain). A watchdog turns a hang into a failure. Each sub has a
  number of cases for the quick and the thorough tier; failing cases are shrunk by Hypothesis and replayed once outside Hypothesis
  before they are reported.
* A failing case is compared with `known_findings.json` by (property, sub, key): `known` entries print a KNOWN-FINDING line, everything
  else is a VIOLATION. `fixed` entries suppress nothing. The stored case of a known finding is replayed on every run.
* Oracles live in `lib/`: `tidalref.py` (Doodson multipliers, phases, nodal expansions of Schureman, Doodson/Foreman, Ray, typed
  independently), `predref.py` (harmonic sum, admittance inference), `setref.py` (IERS solid earth tide in local components),
  `poleref.py`, `opole.py` (pole tides and their files), `kernel.py` (synthetic SPK kernels), `models.py` (synthetic tide models, own writers of every file format, reference
  interpolation and extrapolation), `corr.py` (calls of the correction functions), `servers.py` (HTTP and FTP stand-ins on loopback).
* `lib/large.py` adds two families to the checks of pure computations: `large` (hundreds to thousands of points or times in one call must give
  what small batches give, so blocks, buffers and caches sized by the batch show) and `pure` (the same call repeated, after other calls, on
  read-only, strided, byte-swapped and Fortran-ordered inputs, with the outputs of the first call overwritten, from several threads).
* `again` subs (C14, C17, C18, C19, C32, and alike C23, C27, C31) write other contents at the same path between two calls of one process: a reader
  that remembers a file by its name answers with the old one.
* All checks run in a time zone three and a half hours from Greenwich with daylight saving (`TZ` in `./check`), so a local time shows anywhere.
* The quick tier multiplies the cases of a sub by 2.5 (`QUICK` in the harness) and shards them over the cores.
* File effects stay in a scratch directory that the harness creates for each case and removes. Programs run in-process with `sys.argv`
  replaced; downloads talk to 127.0.0.1 only.
* Equality is judged with tolerances derived from the arithmetic (double, or single where pyTMD computes in single precision, relative to
  the magnitudes that are summed), never by bit patterns, except where bytes are the property (writers, downloads, containers).

### Staying quiet on refactorings

Checks judge observable values only: public functions of the documented modules, files and programs. No check reads the source, patches
internals of pyTMD, compares text of messages, or depends on private names, with the exceptions listed with the properties (a private helper
is only used where it is the documented place of a behaviour and no public path reaches it).

### What was tried to find holes

1. Planted bugs (`seeded/`, table below), written from the statements of the properties; misses led to the strengthening that the table names.
2. A mutation campaign (about 1500 single-line mutants of the functions the checks reach, chosen by line coverage, run against the
   checks that cover them). Survivors were triaged: equivalent mutants, messages and metadata that no property is about, and real gaps,
   which were closed (for example own lists of minor constituents, complements of the equinoxes, refusals of coordinate systems).
3. Different seeds and the thorough tiers, for false alarms.

'''
P = {
'C01': ('The reference sums f|h|cos(arg+u-phase) over typed multipliers, mean longitudes and nodal terms; map, drift and time-series calls of the same points must agree with it and with each other.',
        'the tests compare a handful of stations and default constituents; a wrong term of one constituent, one convention or one mode needs the right list, date and mode together.'),
'C02': ('Metamorphic: linearity in the constants, permutation of constituents and points, subsets of a batch, masks of single constants; scalar, array and masked inputs; prediction must not modify its inputs.',
        'relations over all masks and batches; tests use unmasked or fully masked points.'),
'C03': ('Arguments recomputed from typed multipliers and own mean-longitude polynomials (mod 360); rate: the argument advances with the tabulated frequency; minor: the table used for inference.',
        'the tests compare pyTMD with an older copy of its own table.'),
'C04': ('Own expansions of f and u per convention, for free node and perigee angles and at dates; minor: the terms used for inference.',
        'tests repeat the formulas of the code (see the known finding), for one date.'),
'C05': ('Digit-by-digit reference encoder of Doodson and extended numbers, decode(encode) for any multipliers in range, refusals outside; parsing of potential tables; frequencies and aliases (sampled cosine).',
        'tests decode the shipped table; letter digits, trailing zeros and negative multipliers need their own numbers.'),
'C06': ('Own admittance interpolation (Egbert-Erofeeva, FES splines, Munk-Cartwright response) from generated majors; recover: constants with a linear admittance come back exactly; love: additivity and Love-number dependence.',
        'which minors are inferred depends on which constituents a model has: all subsets, orders and requests are generated.'),
'C07': ('Series built by the reference (or the library) are analysed; constants must come back, and equal an independent least-squares solution; solvers, offsets, masks and record order vary; records too short to separate are skipped.',
        'tests analyse one record.'),
'C08': ('Own sum of fifteen Cartwright-Tayler-Edden lines times P20 and the Love numbers; node constituent; compute function with datetimes.',
        'tests have one latitude and a fixed line list.'),
'C09': ('lib/setref.py evaluates IERS equations in radial/north/east components for one station and time; displacements, free bodies (any positions), permanent tide, and the compute function with ephemerides.',
        'the IERS test case is one station and four dates; each correction term needs its own geometry to be visible.'),
'C10': ('IERS formulas for pole tide radial/tangential displacement in polar-motion deviation, for every mean pole convention, ECEF rotation, ocean pole tide with generated complex coefficients, and the compute functions on synthetic coefficient files.',
        'tests reuse the formula of the code on one station.'),
'C11': ('Own Meeus/Simon/IERS series for mean longitudes, solar and lunar ephemerides (low resolution), elementary rotations for precession, nutation, polar motion and sidereal rotation; synthetic SPK kernels with known polynomials; orthonormality.',
        'tests compare one date each.'),
'C12': ('The same places and instants asked as grid, drift and time series, in every function of pyTMD.compute and from models on disk; drift with one value is the reference.',
        'broadcasting mistakes need unequal sizes, several stations and times together.'),
'C13': ('The same place in degrees, projected coordinates or +/-360 longitudes and the same instant in UTC, GPS, TAI, LORAN or datetimes with any epoch must give the same value; deprecated names equal new ones; invalid options are refused.',
        'tests use EPSG 3031 and epoch 2000 or 1992 only.'),
'C14': ('Synthetic models are written by own writers, so the exact constants at any point are known; tides must be reference interpolation + reference prediction by the convention of the format + inference of minors, and the fill value where invalid; named: every entry of database.json in a scratch directory.',
        'the shipped tests need model data that cannot be fetched; nothing end to end runs offline.'),
'C15': ('Reference bilinear weights with masks, uneven grids, complex fields, both bounds modes; nodes reproduce their values; fields in the space of the method (constant, bilinear, spline order) are exact.',
        'corner cases sit on nodes, edges, seams and next to invalid nodes.'),
'C16': ('Brute-force nearest valid node by ECEF (geographic) or planar distance with ties, seams, poles, cutoff; models: the same through the readers (borrowed from C20).',
        'a KD-tree on a subset of nodes fails only near seams, bounds and cutoffs.'),
'C17': ('Files written by own writers of OTIS (several layouts, open boundaries, lists of files), ATLAS-compact (local solutions) and TMD3 must decode to their arrays, masks and coordinates; constants at points equal the reference interpolation.',
        'no OTIS file is in the repository tests offline.'),
'C18': ('The same for ATLAS netCDF (z, u, v nodes, compressed or not).', 'as C17.'),
'C19': ('The same for FES text and netCDF versions, EOT20, HAMTIDE11 and GOT text/netCDF; mixed: constituent files on different grids or longitude conventions.',
        'as C17; files on different grids are an explicit branch the tests do not have.'),
'C20': ('Histories of read/interpolate calls on one object against fresh extraction; batches against single points; cropped against full grids; permuted files; longitude +/-360; extrapolation leaves valid points alone.',
        'state shared between calls shows only in histories.'),
'C21': ('Models written by the library and read by the library and by own readers; types: any byte order, memory order, integer, float, masked or list input must give the bytes of the contiguous native array.',
        'tests write one array.'),
'C22': ('Model-based: sequences of append, get, pop, update, reorder, copy, amplitude/phase, serialize against an ordered dictionary; names of files parsed to constituents.',
        'histories; aliases of returned arrays.'),
'C23': ('Every model of the database and generated definition files/dictionaries against the JSON text read independently; histories of read/extract/interpolate with one definition.',
        'tests check a few models.'),
'C24': ('Closed formulas of Snyder for each family, round trips, EPSG in every spelling, other input systems, refusals; batch shape kept; cached transformers do not leak between calls.',
        'tests check round trips, which a wrong pair passes.'),
'C25': ('Vector geometry for every conversion (all methods of cartesian to geodetic), on and near the axis, the equator and the dateline, any ellipsoid; local frames (ENU, look angles, zenith); refusals.',
        'singular places, mixed batches and convergence of iterations.'),
'C26': ('Identities of ellipsoid geodesy, Somigliana gravity, potential theory, both unit systems; conversions between ellipsoids keep the ECEF point; polar stereographic distortion by numerical differentiation; angle conversions.',
        'tests check constants of one ellipsoid.'),
'C27': ('write, (append), read back: netCDF, HDF5, ascii, parquet, geotiff, by path, other case, compressed, stream; foreign: files written by the format library itself; filename: naming rules of options.',
        'combinations of type, missing values, attributes and ways of reading.'),
'C28': ('Loopback HTTP/FTP servers with generated directories, truncated or failing transfers and existing local files; dates, hashes, Roman numerals, argument files against closed definitions.',
        'faults at particular points, sizes around the chunk, host time zones.'),
'C29': ('scipy/exact rational Legendre functions, addition theorem of spherical harmonics, polynomial and rotation helpers.', 'degrees, orders and colatitudes with limits.'),
'C30': ('The ellipse is evaluated in time and compared with the rotating vector; inverse round trip; masks.', 'quadrants and circular, linear and zero motion.'),
'C31': ('Generated coefficient files; interpolation at seam, dateline and cell corners by each method; header variants.', 'the shipped file is large, and only default nodes are tested.'),
'C32': ('Reference domain and mask of synthetic models at nodes, edges and other longitudes against the mask and point-check functions, every method.', 'both answers must occur at the same grid.'),
'C33': ('Programs run on generated csv, netCDF, HDF5, geotiff, COG and parquet inputs with all options; the output must hold what pyTMD.compute gives, with places, times, fill and reference system kept; stations: time series of several stations; named: models of the database.',
        'the programs have no tests.'),
'C34': ('The program reduces synthetic models of every OTIS name it offers; own readers of the records compare every node within the box (computed with pyproj), and all other files must be untouched; a second run must not overwrite the first.',
        'the program has no tests (it could not run at all).'),
'C35': ('Servers on the loopback interface accept one generated pair of credentials (by a challenge, by the header, or through redirects with a session cookie); a model of the order netrc, arguments, environment, prompts gives the pairs that must reach them, and the pair that must be accepted.',
        'logins are never tested: they need the network and an account.'),
'C36': ('Histories of events on ipyleaflet maps (without a browser) against the last position set; pyproj for the projections, the database for the menus.', 'the notebook tools have no tests.'),
'C37': ('Histories of runs of the programs against a model of the folder of the user; archives, HTTPS and FTP servers are stand-ins on loopback, reached under their own names because the look-up of names is replaced; the model database for the places.', 'the download programs have no tests.'),
}
TAIL = '''## Alarms that were wrong, and what was corrected

While the checks were built every violation on the unchanged tree was traced to its cause. Those where the check was wrong led to a narrower
statement or a corrected oracle; the domain that resulted is under "assumes" of each property. The ones worth knowing:

* C11: the complement of the equinoxes is compared with the IERS series to 2e-14 rad, first to 1e-10 (too loose, a mutant survived).
* C12/C09: stations exactly on the rotation axis have no east direction: outside the domain.
* C13: instants within two minutes of a leap second are ambiguous in UTC seconds: not generated.
* C14/C32: a point on the edge of the domain or of a cell, up to round-off, may be valid or not.
* C15: `spline` evaluates outside points at the edge of the grid (scipy), `bilinear` snaps to nodes within `np.isclose`.
* C16/C20: equidistant nodes are ties; a node exactly at the cutoff may or may not be used.
* C20: longitudes are wrapped by one period only by the readers, as documented by the bounds they accept.
* C23: a definition file is not verified to name existing files; a lookup by name is.
* C27: geotiff readers give bands first while writers take bands last (as on the original tree).
* C33: csv output keeps datetimes to the second; csv and parquet hold drift data.

## Known limits

* The programs that need remote data are not run; `scripts/reduce_OTIS_files.py` is not run for ATLAS-compact (TPXO8).
* Time scales, leap seconds and Earth orientation series come from the `timescale` package and are trusted.
* Ocean tide models that cannot be fetched are replaced by synthetic ones in the layouts the providers document.
* The equilibrium long-period tide with as many latitudes as times is ambiguous by design (point by point), and not generated as a grid.
'''
