#!/usr/bin/env python3
"""Writes ../properties.jsonl (one JSON object per property)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
             observe_at=observe, hook_needed=None)
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop('C01', 'Tide prediction is the nodally corrected harmonic sum, in every mode',
 'For any set of supported constituents, complex constants, times and nodal convention, the predicted height equals the sum over constituents of f*|h|*cos(argument + u - phase), with the argument and nodal factors that the chosen correction convention (OTIS-type or Greenwich-argument type) defines. '
 'The map, drift (trajectory) and time-series modes give the same value for the same point and time.',
 ['inputs','configurations'],
 'all constituent subsets and orders, complex constants, times within decades of 1992, TT-UT1 offsets, correction conventions, prediction modes',
 'The existing prediction tests need downloaded models and are excluded from the stable suite; none compares the three modes or an independent harmonic sum.',
 ['pyTMD/predict.py','pyTMD/arguments.py'],
 [('harmonic sum over constituents','pyTMD/predict.py: map, drift, time_series'),('choice of frequency/phase or Greenwich argument by correction type','pyTMD/predict.py: map, drift, time_series'),('per-constituent 1992 phase and angular frequency','pyTMD/arguments.py: _constituent_parameters')],
 ['pyTMD.predict.map','pyTMD.predict.drift','pyTMD.predict.time_series'])

prop('C02', 'Prediction is linear, point-wise and mask-exact',
 'Predicted tides and inferred minor tides are linear in the harmonic constants, do not depend on the order in which constituents are listed, and the value for one point and time does not depend on which other points or times are in the batch. '
 'An output is masked exactly where one of the constants it was summed from is masked, and inputs are never modified.',
 ['inputs','histories'],
 'all constant arrays and masks, permutations of constituents, subsets and permutations of points and times, scalings and sums of constants',
 'Tests use fixed complete constituent sets on fixed points; no test permutes, splits, scales or masks the inputs.',
 ['pyTMD/predict.py'],
 [('per-constituent accumulation on masked arrays','pyTMD/predict.py'),('inference from major constituents','pyTMD/predict.py: infer_minor')],
 ['pyTMD.predict.map','pyTMD.predict.drift','pyTMD.predict.time_series','pyTMD.predict.infer_minor'])

prop('C03', 'Equilibrium arguments follow the constituents\' Doodson definitions',
 'For any time and any list of supported constituents, the astronomical argument returned for a constituent is its published Doodson multiplier combination of the lunar/solar mean longitudes plus its phase constant, and it advances at that constituent\'s tabulated angular frequency. '
 'The result for a constituent never depends on which other constituents are requested with it, and the minor-constituent arguments agree with the same definitions.',
 ['inputs','configurations'],
 'all supported constituents (and lists of them), times over centuries, correction conventions, TT-UT1 offsets',
 'The tests compare one legacy table at a few random dates with an exact copy; they do not tie arguments, frequencies and Doodson numbers to each other.',
 ['pyTMD/arguments.py','pyTMD/astro.py','pyTMD/math.py'],
 [('coefficient table','pyTMD/arguments.py: coefficients_table, _arguments_table, _minor_table'),('mean longitudes','pyTMD/astro.py: mean_longitudes, doodson_arguments'),('frequency','pyTMD/arguments.py: frequency')],
 ['pyTMD.arguments.arguments','pyTMD.arguments.minor_arguments','pyTMD.arguments.frequency','pyTMD.arguments.coefficients_table'])

prop('C04', 'Nodal corrections follow the published expansions of each convention',
 'For any lunar node and perigee angle the nodal amplitude factor and phase shift of every supported constituent equal the published expansion of the selected convention (OTIS, FES or GOT/perth families), are periodic in both angles, and the compound (shallow-water) constituents the convention expands take the product of factors and the signed sum of phase shifts of their parents. '
 'The result for one constituent never depends on the other constituents requested or on how many times are evaluated at once.',
 ['inputs','configurations'],
 'all node and perigee angles, all supported constituents and lists of them, each correction convention, modern and 1941 tables',
 'The tests compare a handful of angles at one epoch with a copy of the same code, and never check periodicity, compounding or independence from the request list.',
 ['pyTMD/arguments.py'],
 [('nodal expansions by convention','pyTMD/arguments.py: nodal'),('minor nodal terms','pyTMD/arguments.py: minor_arguments')],
 ['pyTMD.arguments.nodal','pyTMD.arguments.minor_arguments','pyTMD.arguments.arguments'])

prop('C05', 'Doodson, Cartwright and extended codes identify constituents losslessly',
 'Encoding a constituent\'s Cartwright multipliers as a Doodson number or an extended alphabetic code and decoding it gives the multipliers back, and the codes reported for every supported constituent agree with each other, with the shipped table and with the constituent\'s angular frequency. '
 'Aliasing periods follow from the frequency and the sampling interval by the Nyquist folding rule, and the tide potential tables parse to the multipliers and amplitudes printed in them.',
 ['inputs'],
 'all valid multiplier 6-tuples (and 7-tuples for extended codes), all supported constituents, all sampling intervals',
 'Tests look up a handful of codes; the code space and the fold rule are not explored.',
 ['pyTMD/arguments.py','pyTMD/math.py','pyTMD/data/doodson.json'],
 [('encode/decode','pyTMD/arguments.py: _to_doodson_number, _from_doodson_number, _to_extended_doodson, _from_extended_doodson'),('aliasing','pyTMD/math.py: aliasing; pyTMD/arguments.py: aliasing_period')],
 ['pyTMD.arguments.doodson_number','pyTMD.arguments.aliasing_period','pyTMD.math.aliasing'])

prop('C06', 'Minor constituents are inferred by interpolating the major admittances',
 'For any constants of the major constituents, the inferred minor tide equals the harmonic sum of the requested minor constituents that are not already given, each with the admittance obtained from the neighbouring majors by the documented linear or spline interpolation for its species. '
 'Inference over a list of minors is the sum of inference over its parts, and nothing is inferred when too few majors are available.',
 ['inputs','configurations'],
 'all complex constants on the majors, all subsets and orders of majors and requested minors, all correction conventions, times',
 'Only downloaded-model tests exercise inference; the stable tests do not.',
 ['pyTMD/predict.py','pyTMD/arguments.py'],
 [('short period inference','pyTMD/predict.py: _infer_short_period, _infer_diurnal, _infer_semi_diurnal'),('long period inference','pyTMD/predict.py: _infer_long_period')],
 ['pyTMD.predict.infer_minor'])

prop('C07', 'Harmonic analysis recovers the constants a series was predicted from',
 'For any set of separable constituents and any amplitudes and phases, solving a sufficiently long series that was predicted from them (plus a constant offset) with the same convention returns those amplitudes and phases, for every supported solver. '
 'An ill-posed request (fewer observations than unknowns) is refused rather than answered.',
 ['inputs','configurations'],
 'all separable constituent sets, amplitudes, phases, sampling patterns (regular, shuffled, gappy), solvers, correction conventions',
 'No stable test calls the solver.',
 ['pyTMD/solve/constants.py','pyTMD/predict.py'],
 [('design matrix and least squares','pyTMD/solve/constants.py: constants')],
 ['pyTMD.solve.constants'])

prop('C08', 'Equilibrium tides equal the Cartwright-Tayler-Edden potential sum',
 'For any latitude and time the long-period equilibrium tide equals the tilt-factored sum of the published long-period spectral lines, including only the lines of the requested constituents, and its latitude dependence is the degree-2 zonal Legendre polynomial. '
 'The 18.6-year node equilibrium constants have the same latitude dependence and a phase of 180 degrees.',
 ['inputs','configurations'],
 'all latitudes and times (scalars, trajectories, grids), all constituent sub-lists, correction conventions',
 'Tests compare one drift and one grid case with a copy of the line table for the full sum.',
 ['pyTMD/predict.py','pyTMD/io/model.py'],
 [('spectral line table','pyTMD/predict.py: equilibrium_tide'),('node constants','pyTMD/io/model.py: node_equilibrium')],
 ['pyTMD.predict.equilibrium_tide','pyTMD.io.model.node_equilibrium'])

prop('C09', 'Solid earth tides reproduce the IERS two-step convention',
 'For any station and lunar/solar position and time, the displacement equals that of the IERS solid-earth-tide convention (degree 2 and 3 in-phase terms, out-of-phase, latitude-dependent and frequency-dependent corrections), rotates with the configuration about the polar axis for its time-independent parts, and mean-tide minus tide-free displacement is the permanent-tide deformation alone. '
 'Each station\'s displacement is independent of the other stations and times in the batch, and diurnal Love numbers follow the published resonance formula.',
 ['inputs','configurations'],
 'all stations on and near the Earth surface, all Moon/Sun geocentric vectors in their distance ranges, times, tide systems, batch layouts',
 'The tests of this code are in a module that downloads an ephemeris and cannot run; the stable tests never reach it.',
 ['pyTMD/predict.py','pyTMD/arguments.py'],
 [('step 1 and step 2 terms','pyTMD/predict.py: solid_earth_tide and helpers'),('Love numbers','pyTMD/arguments.py: _love_numbers')],
 ['pyTMD.predict.solid_earth_tide','pyTMD.arguments._love_numbers'])

prop('C10', 'Pole tide displacements equal the IERS formulas in polar-motion deviation',
 'For any station and time the load pole tide displacement equals the IERS formula in the deviation of the pole from the chosen convention\'s mean/secular pole, and the ocean pole tide displacement is the real/imaginary admittance combination of that same deviation scaled by the documented constants. '
 'Both vanish when the pole is at its mean position and each station\'s value is independent of the batch.',
 ['inputs','configurations'],
 'all stations, times in the polar-motion record, mean-pole conventions, complex admittances, gravity and density constants',
 'One load-pole-tide case per layout is compared with a re-typed formula; the ocean pole tide map is not in the repository so its test is excluded.',
 ['pyTMD/predict.py','pyTMD/compute.py'],
 [('load pole tide','pyTMD/predict.py: load_pole_tide'),('ocean pole tide','pyTMD/predict.py: ocean_pole_tide')],
 ['pyTMD.predict.load_pole_tide','pyTMD.predict.ocean_pole_tide'])

prop('C11', 'Solar and lunar positions and Earth rotation are geometrically sound',
 'For any date, the mean longitudes, Delaunay and Doodson arguments, obliquity, sidereal time and approximate solar and lunar Earth-fixed positions equal the published series they implement, with the Sun and Moon within their physical distance ranges. '
 'Every rotation and celestial-to-terrestrial matrix is orthonormal with determinant one, all angles are in range, and results for a date do not depend on the batch it is in.',
 ['inputs'],
 'all dates within centuries of J2000, scalar and array inputs, all series options',
 'Tests need a downloaded JPL kernel for the ephemerides; only one rotation matrix is checked.',
 ['pyTMD/astro.py','pyTMD/math.py'],
 [('series','pyTMD/astro.py'),('rotation matrices','pyTMD/math.py: rotate; pyTMD/astro.py: itrs')],
 ['pyTMD.astro.mean_longitudes','pyTMD.astro.doodson_arguments','pyTMD.astro.delaunay_arguments','pyTMD.astro.solar_ecef','pyTMD.astro.lunar_ecef','pyTMD.astro.itrs','pyTMD.astro.gast'])

prop('C12', 'Correction values do not depend on the data layout they are requested in',
 'For any set of points and times, the grid, drift and time-series layouts of the correction functions (ocean tide, currents, long-period equilibrium, load pole, ocean pole, solid earth) return the same value for the same place and instant, in an array whose shape is the documented one for that layout. '
 'The layout option is accepted in any letter case, and when it is not given it is deduced from the input dimensions as documented.',
 ['inputs','configurations'],
 'all point and time sets, three layouts, automatic and explicit layout, correction types',
 'Stable tests compute one case per layout and do not compare layouts with each other.',
 ['pyTMD/compute.py','pyTMD/spatial.py'],
 [('layout handling','pyTMD/compute.py'),('layout detection','pyTMD/spatial.py: data_type')],
 ['pyTMD.compute.LPET_elevations','pyTMD.compute.LPT_displacements','pyTMD.compute.OPT_displacements','pyTMD.compute.SET_displacements','pyTMD.compute.tide_elevations','pyTMD.compute.tide_currents','pyTMD.spatial.data_type'])

prop('C13', 'Correction values do not depend on how place and time are expressed',
 'For any place and instant, the correction functions return the same value when the place is given in any coordinate reference system or equivalent longitude, and when the instant is given as seconds since any epoch, as datetimes, or in UTC, TAI, GPS or LORAN seconds. '
 'Every dispatcher and deprecated alias returns exactly what the function it stands for returns, and unknown options are refused.',
 ['inputs','configurations'],
 'all places, instants, epochs, time standards, coordinate reference systems, correction types',
 'Stable tests use one EPSG code, one epoch and one standard.',
 ['pyTMD/compute.py','pyTMD/compute_tide_corrections.py','pyTMD/crs.py'],
 [('time conversion','pyTMD/compute.py'),('coordinate conversion','pyTMD/crs.py'),('dispatch','pyTMD/compute.py: corrections; pyTMD/compute_tide_corrections.py')],
 ['pyTMD.compute.corrections','pyTMD.compute_tide_corrections.compute_corrections'])

prop('C14', 'Model tides are interpolated constants plus prediction, with fill outside',
 'For any tide model on disk, tide elevations and currents at points and times equal the model\'s constants interpolated to those points, predicted with the model\'s convention (plus inferred minors and scaled by flexure when requested). '
 'Values are valid exactly where the model is valid at the point and are the fill value elsewhere, and the cropping, extrapolation and buffering options never change the value at points the model already covers.',
 ['inputs','configurations','histories'],
 'synthesized models of each format, points inside, outside and on the edge of the domain, times, options (inference, crop, bounds, extrapolation, node tide, constituent sub-lists, flexure)',
 'All end-to-end tests need downloaded models and are excluded from the stable suite.',
 ['pyTMD/compute.py','pyTMD/io/model.py','pyTMD/predict.py'],
 [('elevations and currents','pyTMD/compute.py: tide_elevations, tide_currents'),('model dispatch','pyTMD/io/model.py: extract_constants, read_constants, interpolate_constants')],
 ['pyTMD.compute.tide_elevations','pyTMD.compute.tide_currents','pyTMD.io.model'])

prop('C15', 'Gridded interpolation is exact where the field is in the method\'s space',
 'For any ascending regular grid and any query points in its domain, the interpolators return the grid value at a node, reproduce every field that is bilinear in the coordinates, agree with each other on such fields, and stay within the surrounding node values for the bilinear and nearest methods. '
 'Points outside the grid (which the spline method clamps to its edge) and points whose surrounding nodes are all invalid are masked, valid points never are, and the value at a point does not depend on the other points in the batch.',
 ['inputs','configurations'],
 'all regular grids, real and complex fields, masks, query points at nodes, edges, interior and outside, methods and spline orders',
 'The only interpolation test module needs downloaded data and is excluded.',
 ['pyTMD/interpolate.py'],
 [('interpolators','pyTMD/interpolate.py: bilinear, spline, regulargrid')],
 ['pyTMD.interpolate.bilinear','pyTMD.interpolate.spline','pyTMD.interpolate.regulargrid'])

prop('C16', 'Extrapolation returns the nearest valid model value within the cutoff',
 'For any model grid, mask and query points, extrapolation returns the value of the nearest valid grid node (by straight-line distance through the ellipsoid for geographic grids and plane distance for projected ones) whenever that node is within the cutoff distance, and is masked otherwise. '
 'It never uses an invalid node, and the result for a point is independent of the batch.',
 ['inputs','configurations'],
 'all grids and masks, query points in any longitude convention including across the dateline and near the poles, cutoffs including infinite, real and complex fields',
 'Not reached by any stable test.',
 ['pyTMD/interpolate.py'],
 [('nearest-neighbour search','pyTMD/interpolate.py: extrapolate')],
 ['pyTMD.interpolate.extrapolate'])

prop('C17', 'OTIS, ATLAS-compact and TMD3 files decode to the constants they encode',
 'For any model stored in OTIS binary (single or per-constituent files), ATLAS-compact binary with local solutions, or TMD3 netCDF form, the constants at a node of the appropriate grid are the stored complex values, with transports divided by the depth there to give velocities and phases as Greenwich lags in 0-360 degrees. '
 'Land nodes are invalid, and the depth, mask and constituent list read back equal those written.',
 ['inputs','configurations'],
 'synthesized grids (global or regional, geographic or projected), masks, complex fields, constituent lists and orders, file layouts',
 'Needs downloaded models; no stable test reads a model file.',
 ['pyTMD/io/OTIS.py'],
 [('binary and netCDF decoders','pyTMD/io/OTIS.py'),('staggered-grid masks and depths','pyTMD/io/OTIS.py: _interpolate_mask, _interpolate_zeta, _mask_nodes')],
 ['pyTMD.io.OTIS.extract_constants','pyTMD.io.OTIS.read_constants','pyTMD.io.OTIS.read_otis_grid','pyTMD.io.OTIS.read_atlas_grid','pyTMD.io.OTIS.read_netcdf_grid'])

prop('C18', 'ATLAS netCDF files decode to the constants they encode',
 'For any model stored as ATLAS netCDF grid and constituent files, the constants at a valid node are the stored complex values times the scale factor (divided by depth to give velocities for currents), with phases as Greenwich lags in 0-360 degrees and the node\'s bathymetry alongside. '
 'Nodes that are land in the model are invalid, and constituents are reported in file order.',
 ['inputs','configurations'],
 'synthesized global and regional grids, masks, complex fields, scale factors, constituent lists, compressed or plain files',
 'test_atlas_read downloads its inputs and is excluded.',
 ['pyTMD/io/ATLAS.py'],
 [('netCDF decoders','pyTMD/io/ATLAS.py')],
 ['pyTMD.io.ATLAS.extract_constants','pyTMD.io.ATLAS.read_constants','pyTMD.io.ATLAS.interpolate_constants'])

prop('C19', 'FES and GOT files decode to the constants they encode',
 'For any model stored in FES or GOT ascii or netCDF form (plain or gzip-compressed), the constants at a valid node are the stored amplitude (times the scale factor) and phase, and missing nodes are invalid. '
 'The number of columns of the file and its version never change the values, and constituents are reported in file order.',
 ['inputs','configurations'],
 'synthesized grids of any size, masks, amplitudes, phases, scale factors, file formats and versions, compressed or plain',
 'test_fes_predict and test_perth3_read download their inputs and are excluded.',
 ['pyTMD/io/FES.py','pyTMD/io/GOT.py'],
 [('ascii and netCDF decoders','pyTMD/io/FES.py, pyTMD/io/GOT.py')],
 ['pyTMD.io.FES.extract_constants','pyTMD.io.GOT.extract_constants'])

prop('C20', 'Model interpolation is invariant to access path, batch, crop and longitude',
 'For any model format and query points, extracting constants in one step equals reading then interpolating them (once or repeatedly), and the result at a point does not depend on the other points requested, on the longitude convention (-180..180 or 0..360) of the points, on cropping or buffering the grid around the points, or on file compression. '
 'Across the longitude seam of a global grid the interpolated constants are continuous.',
 ['inputs','configurations','histories'],
 'synthesized models of every format, global and regional, points near seams, edges and masks, batches, longitude conventions, crop bounds and buffers',
 'Tests of extract-versus-read equality need downloads and use one fixed batch per model.',
 ['pyTMD/io/OTIS.py','pyTMD/io/ATLAS.py','pyTMD/io/FES.py','pyTMD/io/GOT.py'],
 [('crop, shift, extend','_crop, _shift, _extend_array, _extend_matrix in each reader'),('longitude adjustment','extract_constants and interpolate_constants in each reader')],
 ['extract_constants, read_constants, interpolate_constants of each reader'])

prop('C21', 'Model files written by the library read back as the same model',
 'For any grid, mask and constants, writing an OTIS, ATLAS netCDF, FES netCDF or GOT netCDF grid, elevation or transport file and reading it with the corresponding reader returns the same coordinates, depths, masks, constituents and complex constants to file precision. '
 'The written bytes do not depend on the byte order, dtype or container type of the inputs.',
 ['inputs','configurations'],
 'all grid sizes, masks, complex fields, constituent lists, dtypes, byte orders, array or list inputs',
 'No stable test writes a model file.',
 ['pyTMD/io/OTIS.py','pyTMD/io/ATLAS.py','pyTMD/io/FES.py','pyTMD/io/GOT.py'],
 [('writers','output_* functions of each reader module')],
 ['pyTMD.io.OTIS.output_otis_grid','pyTMD.io.OTIS.output_otis_elevation','pyTMD.io.OTIS.output_otis_transport','pyTMD.io.ATLAS.output_netcdf_*','pyTMD.io.FES.output_netcdf_file','pyTMD.io.GOT.output_netcdf_file'])

prop('C22', 'The constituents container behaves as an ordered named map of fields',
 'Under any sequence of append, get, update, pop, iteration and item operations, the container holds exactly the named complex fields a plain ordered dictionary would, in insertion order, and rejects operations on absent names. '
 'Amplitude and phase of a field recombine to the field with its mask, retrieved copies are independent of the container, and names are recognised in any letter case and inside file names.',
 ['histories','inputs'],
 'all operation sequences over all constituent names and small complex masked fields; all canonical names embedded in file names',
 'One test appends a fixed list and checks amplitude and phase; no sequences with pop or update.',
 ['pyTMD/io/constituents.py'],
 [('container operations','pyTMD/io/constituents.py: constituents'),('name parser','pyTMD/io/constituents.py: parse')],
 ['pyTMD.io.constituents'],
 state=[('fields','ordered names of stored constituents','pyTMD/io/constituents.py')])

prop('C23', 'Model definitions resolve to the files, format and variables they name',
 'For any model definition (from the database, an extra database, a JSON definition file or a dictionary), the model object exposes exactly the named attributes, resolves every grid and model file under the working directory in the listed order (with the compressed suffix when requested), and refuses unknown names, unknown formats and missing files. '
 'Exporting a model to a dictionary or JSON and loading it again gives an equal model, requesting constants never changes the model definition, and the shipped database is the union of the definitions of the providers.',
 ['inputs','configurations','histories'],
 'all database models, generated definitions of every format with list, glob and single-file forms, sequences of calls',
 'Tests load a few shipped definition files and never call extraction repeatedly or round-trip generated definitions.',
 ['pyTMD/io/model.py','pyTMD/data/database.json'],
 [('definition parsing','pyTMD/io/model.py: from_file, _parse_json, from_dict, to_dict'),('path resolution','pyTMD/io/model.py: pathfinder')],
 ['pyTMD.io.model','pyTMD.io.model.load_database'])

prop('C24', 'Model coordinate conversions are inverse pairs of the documented projections',
 'For every supported model projection and any point in its domain, converting geographic coordinates to model coordinates and back returns the point, and the forward conversion equals the map projection documented for that model family (distance unit kilometres, documented origin and rotation). '
 'Results keep the input shape and are independent of the batch, and unknown projections or directions are refused.',
 ['inputs','configurations'],
 'all supported projection names, EPSG codes and definition dictionaries; all points within each projection\'s region',
 'The tests check four projections at fixed random-free points forward and back against the same pyproj strings.',
 ['pyTMD/crs.py'],
 [('projection table and dispatch','pyTMD/crs.py: crs')],
 ['pyTMD.crs.crs'])

prop('C25', 'Geodetic, cartesian, spherical, local and horizontal conversions are consistent',
 'For any point, converting geodetic to cartesian coordinates satisfies the ellipsoid equation, every inverse method returns the original longitude, latitude and height to its stated precision, and east-north-up and spherical conversions are inverse isometries. '
 'Elevation/azimuth and zenith angles equal those of the vector geometry, and scalars, arrays and masked inputs give the same values.',
 ['inputs','configurations'],
 'all longitudes, latitudes including poles and equator, heights from ocean floor to satellites, ellipsoids, inverse methods, array layouts',
 'test_spatial is excluded from the stable suite and samples a few points.',
 ['pyTMD/spatial.py'],
 [('conversions','pyTMD/spatial.py: to_cartesian, to_geodetic, to_sphere, to_ENU, from_ENU, to_horizontal, to_zenith')],
 ['pyTMD.spatial.to_cartesian','pyTMD.spatial.to_geodetic','pyTMD.spatial.to_sphere','pyTMD.spatial.to_ENU','pyTMD.spatial.from_ENU','pyTMD.spatial.to_horizontal','pyTMD.spatial.to_zenith'])

prop('C26', 'Ellipsoid parameters and ellipsoid-dependent conversions satisfy geodesy',
 'For every supported reference ellipsoid (and any user-defined one), the derived parameters satisfy the defining geometric and normal-gravity identities and match the published constants, and converting latitude and height between two ellipsoids keeps the same physical point. '
 'Polar stereographic area scale factors equal the projection\'s true area distortion, degree-minute-second conversion round-trips with sign, and longitude wrapping keeps the angle modulo 360.',
 ['inputs','configurations'],
 'all named ellipsoids and units, user-defined axes, latitudes and heights, reference latitudes, angles',
 'test_spatial is excluded; no stable test touches ellipsoid parameters.',
 ['pyTMD/crs.py','pyTMD/spatial.py'],
 [('ellipsoid parameters','pyTMD/crs.py: datum'),('ellipsoid conversion and scale','pyTMD/spatial.py: convert_ellipsoid, compute_delta_h, scale_factors, to_dms, from_dms, wrap_longitudes')],
 ['pyTMD.crs.datum','pyTMD.spatial.convert_ellipsoid','pyTMD.spatial.compute_delta_h','pyTMD.spatial.scale_factors','pyTMD.spatial.to_dms','pyTMD.spatial.from_dms','pyTMD.spatial.wrap_longitudes'])

prop('C27', 'Data files written by the library read back with the same data',
 'For any coordinates, times, data with missing values and attributes, writing to ascii, netCDF4, HDF5, (geo)parquet or (cloud optimized) geotiff as drift, grid or time series, to a new or an existing file, and reading back returns the same values (to the stated text precision), the same missing points, and the attributes and coordinate metadata. '
 'Writing never changes the caller\'s data or attributes, reading accepts paths, compressed files and byte streams alike, and file names are matched ignoring letter case only.',
 ['inputs','configurations','histories'],
 'all drift, grid and time-series data sets with missing values, file types, groups, compression modes, attribute dictionaries',
 'Only one parquet round trip is in the stable suite; test_spatial is excluded.',
 ['pyTMD/spatial.py'],
 [('readers and writers','pyTMD/spatial.py: from_*, to_*'),('case-insensitive lookup','pyTMD/spatial.py: case_insensitive_filename')],
 ['pyTMD.spatial.to_file','pyTMD.spatial.from_file','pyTMD.spatial.to_ascii','pyTMD.spatial.to_netCDF4','pyTMD.spatial.to_HDF5','pyTMD.spatial.to_parquet','pyTMD.spatial.from_*'])

prop('C28', 'Downloads, listings, hashes and text helpers are faithful',
 'For any remote directory and file, a listing returns exactly the matching names with their own modification times, and a download delivers exactly the served bytes (ftp: with the modification time of the remote file), skipping the local file only when its given checksum already matches, and reporting failed or incomplete transfers without leaving a wrong file behind. '
 'Checksums, URL and argument splitting, roman numerals, rounding and date parsing helpers equal their mathematical definitions for every input and do not depend on the host time zone.',
 ['inputs','configurations','fault_sequences'],
 'all byte contents, names, patterns, sort orders, date strings and formats, argument lines, numerals; HTTP errors',
 'Four tiny unit tests; network helpers are untested offline.',
 ['pyTMD/utilities.py'],
 [('http helpers','pyTMD/utilities.py: http_list, from_http, from_json'),('text helpers','pyTMD/utilities.py: get_hash, url_split, convert_arg_line_to_args, roman_to_int, even, ceil, get_unix_time, isoformat, copy')],
 ['pyTMD.utilities'])

prop('C29', 'Legendre functions, harmonics and polynomial helpers equal their definitions',
 'For any degree, order and argument in range, the unnormalized and normalized Legendre functions and their derivatives, the associated Legendre table and the spherical harmonics equal their mathematical definitions (and satisfy the recurrence and orthonormality relations). '
 'Polynomial sums, angle normalisation, rotations and quotients of angles equal their definitions elementwise for scalars and arrays.',
 ['inputs'],
 'all degrees up to the supported maximum, all orders, all colatitudes including the poles and equator, array shapes',
 'Tests sample degrees 1-3 with a copy of the closed forms at a few latitudes.',
 ['pyTMD/math.py'],
 [('special functions','pyTMD/math.py: legendre, assoc_legendre, sph_harm'),('helpers','pyTMD/math.py: polynomial_sum, normalize_angle, rotate')],
 ['pyTMD.math'])

prop('C30', 'Tidal ellipses and current constants are inverse representations',
 'For any complex zonal and meridional constants, the tidal ellipse has semi-axes equal to the extreme speeds of the elliptical motion, the inclination of its major axis, the phase of maximum speed and a minor-axis sign giving the rotation sense, within the documented ranges. '
 'Converting to an ellipse and back returns the constants, with masked points staying masked.',
 ['inputs'],
 'all complex pairs including linear, circular and zero motion, array shapes and masks',
 'No stable test calls the ellipse functions.',
 ['pyTMD/ellipse.py'],
 [('ellipse and inverse','pyTMD/ellipse.py')],
 ['pyTMD.ellipse.ellipse','pyTMD.ellipse.inverse'])

prop('C31', 'Ocean pole tide coefficients are read and interpolated faithfully',
 'For any ocean pole load coefficient file in the IERS layout, the real and imaginary components at a grid node are those in the file, and interpolation between nodes follows the chosen method for every longitude in either convention, continuously across the seam and dateline. '
 'The value at a point does not depend on the batch or on whether the file is compressed.',
 ['inputs','configurations'],
 'synthesized coefficient files, all longitudes and latitudes, methods, longitude conventions',
 'The coefficient file is not in the repository, so nothing runs this code.',
 ['pyTMD/io/IERS.py'],
 [('reader','pyTMD/io/IERS.py: read_binary_file, extract_coefficients')],
 ['pyTMD.io.IERS.extract_coefficients','pyTMD.io.IERS.read_binary_file'])

prop('C32', 'Domain checks and tide masks agree with where the model is valid',
 'For any model and points, the point check and the tide mask report a point as within the domain exactly when it lies within the extent of the grid (all longitudes of a global grid, in any longitude convention) and at least one of the nodes the chosen method interpolates from is valid, whatever the model format, coordinate system or shape of the input. '
 'The result for one point never depends on the others.',
 ['inputs','configurations'],
 'synthesized models of each format, points inside, outside and on the edge, interpolation methods, coordinate systems, input shapes',
 'No stable test calls these functions.',
 ['pyTMD/compute.py','pyTMD/check_points.py'],
 [('mask interpolation','pyTMD/compute.py: tide_masks')],
 ['pyTMD.compute.tide_masks','pyTMD.check_points.check_points'])

prop('C33', 'Command-line programs write what the library computes for every layout of input',
 'For any readable input file (csv, netCDF4, HDF5, parquet or raster; drift, grid or time-series layout, any time standard and units, any column or variable names given on the command line), the compute programs write exactly the values the library gives for the coordinates, dates and options of the call, in the requested output layout. '
 'Masked points are written as fill values and coordinates and dates are carried through unchanged.',
 ['inputs','configurations'],
 'input formats, layouts, time standards, epochs, column orders, projections and option combinations of the scripts',
 'The scripts have no stable tests.',
 ['scripts/compute_tidal_elevations.py','scripts/compute_tidal_currents.py','scripts/compute_SET_displacements.py','scripts/compute_LPET_elevations.py','scripts/compute_LPT_displacements.py','scripts/compute_OPT_displacements.py'],
 [('model programs','scripts/compute_tidal_elevations.py, compute_tidal_currents.py'),('other programs','scripts/compute_SET_displacements.py, compute_LPET_elevations.py, compute_LPT_displacements.py, compute_OPT_displacements.py')],
 ['scripts/compute_tidal_elevations.py','scripts/compute_SET_displacements.py'])

prop('C34', 'Regional subsets of OTIS models hold the nodes of the model within the bounds',
 'For any OTIS model (single or per-constituent files, elevations or currents) and any bounds in any coordinate reference system, the reduced grid, elevation and transport files hold exactly the nodes of the model within the box of the bounds, with their limits, depths, mask and the constants of every constituent in order. '
 'The files of the model are never changed, and reducing again writes new files beside the earlier ones.',
 ['inputs','configurations','histories'],
 'synthesized models under every OTIS name of the program, bounds and reference systems, repeated runs',
 'The program has no tests.',
 ['scripts/reduce_OTIS_files.py','pyTMD/io/OTIS.py'],
 [('program','scripts/reduce_OTIS_files.py: make_regional_OTIS_files, create_unique_filename'),('writers','pyTMD/io/OTIS.py: output_otis_grid, output_otis_elevation, output_otis_transport')],
 ['scripts/reduce_OTIS_files.py','pyTMD.io.OTIS.output_otis_grid'])

prop('C35', 'Earthdata logins use the stated credentials and reach only their servers',
 'A login tries the credentials of the netrc file, else those of the arguments, else those of the environment, and asks for what is missing; it succeeds exactly when one of the pairs tried within the retries is accepted, and raises otherwise. '
 'With a password manager the credentials reach only the host they are for; requests that follow (downloads, listings, token requests) carry exactly the accepted pair, follow the redirects and cookies of the servers, and return what the server answered.',
 ['inputs','histories','fault_sequences'],
 'credentials with any characters, netrc files (missing, malformed, other hosts), environments, refusals, challenges, redirects with session cookies',
 'Logins need the network, and have no stable tests.',
 ['pyTMD/utilities.py'],
 [('logins','pyTMD/utilities.py: attempt_login, build_opener, check_credentials'),('tokens','pyTMD/utilities.py: get_token, list_tokens, revoke_token'),('archive','pyTMD/utilities.py: cddis_list, from_cddis')],
 ['pyTMD.utilities.attempt_login','pyTMD.utilities.build_opener','pyTMD.utilities.get_token'])

prop('C36', 'Notebook maps keep marker, text and cursor in agreement',
 'After any history of moves of the marker, edits of its text, pans and zooms, the marker and its text hold the same position (the longitude of a moved marker within 180 degrees), and the cursor label holds the position of the cursor. '
 'Each map has the controls that were asked for, its projection transforms to the same geographic coordinates as the reference system it names, and the model menu holds exactly the elevation models of the database.',
 ['inputs','configurations','histories'],
 'projections, controls, positions at the poles and beyond the antimeridian, histories of events',
 'The notebook tools have no tests.',
 ['pyTMD/tools.py'],
 [('maps','pyTMD/tools.py: leaflet'),('menus','pyTMD/tools.py: widgets')],
 ['pyTMD.tools.leaflet','pyTMD.tools.widgets'])

prop('C37', 'Model downloads arrive unchanged where the database looks for them',
 'The download programs bring every file of an archive that was asked for (and no other) below the folder given, with the bytes of the archive (compressed with gzip only when asked, and only the tide files), its modification time and the permissions asked for, at the places where the model database looks for it. '
 'A later run replaces a file exactly when the archive holds a newer one (to the even second). The credentials used are those of the netrc file, the arguments, the environment or the prompt; a server that is missing, refuses, or lacks the archive is an error that leaves no files. Verification against the checksums of a server fails on any file that differs, and dates the others.',
 ['inputs','configurations','histories','fault_sequences'],
 'histories of runs with options, archives with generated members, contents, times and versions, local edits between runs, refused logins, missing servers',
 'The download programs need the network, and have no tests.',
 ['scripts/arcticdata_tides.py','scripts/gsfc_got_tides.py','scripts/aviso_fes_tides.py','scripts/verify_box_tpxo.py'],
 [('Arctic models','scripts/arcticdata_tides.py'),('GOT','scripts/gsfc_got_tides.py'),('FES','scripts/aviso_fes_tides.py'),('TPXO9-atlas','scripts/verify_box_tpxo.py')],
 ['scripts/gsfc_got_tides.py','scripts/aviso_fes_tides.py','pyTMD.utilities.from_http'])

out = pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
