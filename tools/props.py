"""Writes /verif/properties.jsonl (kept as code so that the wording is reviewed in one place)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(obs), hook_needed=None)))

T='trackeddy/trackeddy.py'; U='trackeddy/utils.py'; D='trackeddy/decorators.py'; G='trackeddy/geometry.py'; E='trackeddy/eddy.py'
GEN='trackeddy/generator/field_generator.py'; GG='trackeddy/generator/gaussian_field_functions.py'; C='trackeddy/src/cntr.c'

p('C01','Contour extraction is complete, connected and on the level set',
  'For any gridded field and level, the extracted contours cross every grid edge whose two end values straddle the level (strictly above / not above) exactly once, at the linearly interpolated position, and no other edge. '
  'Consecutive vertices share a grid cell, with the higher values always on the left of a closed contour; in an ambiguous (saddle) cell the higher corners are joined if and only if the mean of the four corners is above the level. '
  'A contour ends where it started (same first and last vertex) unless both ends are on the boundary of the domain.',
  ['inputs'],'every grid shape, every field (ties with the level, plateaus, saddles, missing values) and every level',
  'The tests only look at smooth Gaussians, where no saddle, tie with the level, boundary contour or missing value ever occurs.',
  [G,C],[('extract_contours',G),('Cntr.trace / curve_tracer / zone_crosser / edge_walker',C)],obs=['geometry.extract_contours'])

p('C02','Identified eddies are closed contours of the requested level',
  'The path of every identified eddy is one of the closed contours of the tracked field at exactly the requested level: its first and last vertices coincide, it has no missing coordinates and the field interpolated at each vertex equals the level. '
  'Contours that end at the boundary of the domain, that run into missing data, or that collapse to a single point are never identified, and no closed contour gives two eddies.',
  ['inputs','configurations'],'every field, grid, level and set of identification criteria',
  'The tests count eddies in a handful of fields with well separated Gaussians inside the domain; none has an eddy at the boundary or next to missing data.',
  [T,G,C],[('_detect_one_level: closed / degenerate contour checks',T),('extract_contours',G)],obs=['TrackEddy._detect_one_level','TrackEddy.time_tracking'])

p('C03','Each candidate is identified or discarded once, with its first failed test',
  'Detecting at a level reports each closed, non degenerate contour (one that is more than a point, to a part in 100000 of its coordinates) exactly once: either in the table of identified eddies or in the table of discarded ones. '
  'The reason of a discarded contour is the first test it fails, in the order size, ellipse area, eccentricity, contour-ellipse similarity, island (extreme value of exactly zero), Gaussian fit failure and Gaussian similarity; a contour that fails no test is identified. '
  'A contour on which no ellipse can be fitted is discarded as such and never aborts the detection.',
  ['inputs','configurations'],'every field, level and set of criteria, with and without the Gaussian test',
  'No existing test looks at the discarded table or at the reasons, and all of them use one set of criteria.',
  [T,E,D],[('_detect_one_level gate cascade',T),('Eddy.store / Eddy.discarded',E),('eddy_identifier',D)],obs=['TrackEddy._detect_one_level'])

p('C04','Identified eddies meet every user criterion, and thresholds are exact',
  'Every identified eddy has a radius not above the allowed multiple of the Rossby radius at its latitude, an ellipse area within the allowed fraction (a tenth of the ellipse criterion, relative to the ellipse area) of its own, an eccentricity and a contour-ellipse score not above their criteria and, unless the Gaussian test is switched off, a Gaussian score not below its criterion. '
  'A measurement exactly equal to its criterion is accepted, and the criteria in force are those currently set by the user on that object. '
  'Loosening one criterion never removes an identified eddy.',
  ['inputs','configurations'],'every field, level and combination of criteria, including criteria equal to a measured value',
  'Tests use default-like criteria and fields far away from every threshold, so they would accept a test that is skipped, swapped, or compared the wrong way at the limit.',
  [T,'trackeddy/physics.py',G],[('_detect_one_level thresholds',T),('approx_RD_lat','trackeddy/physics.py')],
  [('identification_criteria','user thresholds',T)],obs=['TrackEddy._detect_one_level'])

p('C05','A detection depends only on its own inputs, not on what ran before',
  'The eddies and the discarded contours returned for a field, level and set of criteria are the same whatever detections were done before in the process: on other levels, other times, other objects, with or without any identified or discarded eddy, and even if an earlier detection failed half way. '
  'Identifiers within a level always start at zero and are consecutive.',
  ['histories','fault_sequences'],'every sequence of detections on any number of objects, with failures at any point',
  'The tables are accumulated in state shared by the whole process; each test runs a single history, and never looks at the discarded table or continues after an error.',
  [D,E,T],[('eddy_identifier registries (calls, df_store)',D),('Eddy.exit',E),('check_return_eddies',D)],
  [('store.df_store / store.calls','eddies identified so far',D),('discarded.df_store / discarded.calls','contours discarded so far',D)],obs=['TrackEddy._detect_one_level','TrackEddy.time_tracking'])

p('C06','Reported sign, extreme value and position agree with the field',
  'The position reported for the extreme of an eddy is a point of the grid and the reported extreme is the value of the field at that point. '
  'The interior is the set of grid points nearest to the vertices of the contour plus those they enclose: the point is in the interior and, with respect to the reported sign, no point of the interior has a more extreme value. '
  'The reported sign (-1, 0 or 1) is the sign of the mean of the field over the interior.',
  ['inputs'],'every identified eddy of every field, grid spacing, size of eddy and position on the globe',
  'The tests check positions of isolated Gaussians of small size away from the boundary.',
  [T,U],[('_data_in_contour / _get_data_in_contour window',T),('_mask_data_in_contour',U)],obs=['TrackEddy._detect_one_level'])

p('C07','Detections of several levels merge into one entry per eddy',
  'Levels are processed in the given order. A contour whose extreme lies closer to the nearest already identified extreme (great circle) than its own radius is the same eddy: it replaces the earlier entry only if both its recorded ellipse and Gaussian scores are strictly lower, and is dropped otherwise. '
  'Every other contour is added, no entry is lost or duplicated, an entry is replaced at most once per level (by the closest contour), and identifiers are 0..n-1.',
  ['inputs','histories'],'every sequence of levels and every set of detections on each of them',
  'One test uses more than one level, with one or two eddies; none exercises replacement, drops with several neighbours, or two contours inside one.',
  [T,U],[('_detect_snapshot',T),('_detect_nearest',U),('_update_better_eddy',U),('_merge_reindex_eddies',U)],
  [('joint_eddies','catalogue of the snapshot so far',T)],obs=['TrackEddy.time_tracking'])

p('C08','Levels: zero is ignored, every entry carries its own level',
  'A level of zero is ignored, and adding it anywhere in the list changes nothing. '
  'Every entry of the catalogue carries the level it was found at, which is one of the requested levels, and eddies found at a single level, away from any other detection, appear in the catalogue exactly as when only that level is requested.',
  ['inputs','configurations'],'every list of levels (positive, negative, zero, repeated, in any order)',
  'Tests never request level zero, nor compare the merged catalogue with the catalogue of each level.',
  [T],[('_detect_snapshot',T)],obs=['TrackEddy.time_tracking'])

p('C09','Tracks partition the detections: one track each, one detection per time',
  'Every eddy detected in a time step of the window appears in the output exactly once, with all of its properties and contour points unchanged, and belongs to exactly one track. '
  'A track has at most one eddy per time step. ',
  ['histories','inputs'],'every sequence of snapshots with any number of eddies, including merging, splitting, vanishing and appearing eddies',
  'The tests track one or two eddies that always exist and never interact.',
  [T,U],[('time_tracking',T),('track_online',U),('_rename_eddies_in_time',U),('_merge_reindex_eddies',U)],
  [('track_in_time','all the tracks so far',T)],obs=['TrackEddy.time_tracking'])

p('C10','A track continues only to the nearest eddy, within its radius',
  'A new detection continues a track if and only if, among the last positions of the tracks that are still alive, the nearest one (great circle distance between extremes) belongs to that track and is closer than the radius of the new detection; otherwise it starts a new track. '
  'If several new detections claim the same track, the closest continues it and the others start new tracks.',
  ['histories','inputs'],'every set of tracks and every set of new detections, at any distance',
  'The tests move one or two eddies slowly; they never place an eddy at the limit of the radius or between two tracks.',
  [U],[('_detect_nearest',U),('_rename_eddies_in_time',U)],obs=['TrackEddy.time_tracking'])

p('C11','Tracks survive exactly the allowed number of missing time steps',
  'A track that was not seen in up to ntimes consecutive time steps can still be continued, from its last known position, and one that missed more than ntimes steps never is. '
  'A time step without any detection counts as a missed step for all tracks.',
  ['histories','configurations'],'every pattern of missing detections and every ntimes (including 0)',
  'In every test all eddies are detected in all time steps, so the memory of the tracks is never used.',
  [U,T],[('unlink_eddies_in_previous_times',U),('track_online',U)],obs=['TrackEddy.time_tracking'])

p('C12','Track identifiers are stable: 0..n-1, never reused nor changed later',
  'Track identifiers are 0..n-1 in order of first appearance in time, and the identifier of a track, finished or not, is never given to an eddy that does not continue it. '
  'Tracking a longer window gives exactly the same table for the time steps of the shorter window with the same start: later data never changes earlier results.',
  ['histories'],'every sequence of snapshots and every cut of the window',
  'It relates the results of several runs over different windows, while tests make one run.',
  [U,T],[('_update_counter',U),('_merge_reindex_eddies',U),('track_online',U)],obs=['TrackEddy.time_tracking'])

p('C13','Tracking covers exactly the requested window, empty snapshots included',
  'Tracking from t0 to tf uses exactly the time steps t0..tf-1 (to the end of the record when tf is not given) and labels each detection with its absolute time step. '
  'It finishes for any pattern of time steps without eddies - first, last, in the middle or all of them - and then reports exactly the detections of the other time steps.',
  ['histories','configurations'],'every window and every pattern of empty time steps',
  'The tests always start at 0, give tf and have eddies in all snapshots.',
  [T],[('time_tracking',T)],obs=['TrackEddy.time_tracking'])

p('C14','Offline mode writes one faithful file per time step with eddies',
  'Without online tracking, each time step of the window with eddies produces exactly one file, named after the absolute time step and format, in the chosen folder and no other file is written. '
  'Each file holds exactly the detections of that time step, independent of the other time steps. Running again replaces the files of the same time steps and format and touches no other, and a run that is interrupted leaves the complete files of the time steps before. '
  'An unknown format is rejected as soon as there is something to store; online tracking writes no file.',
  ['histories','configurations','crash_points'],'every sequence of runs in the same folders, window, pattern of empty time steps, output format csv, json or hd5, and time step at which a run is interrupted',
  'No test runs the offline mode.',
  [T,U],[('time_tracking',T),('store_snapshot',U)],obs=['TrackEddy.time_tracking(online_track=False)'])

p('C15','Detection never modifies its inputs and is repeatable',
  'Detecting and tracking leave the dataset, its coordinates, the arrays behind them, the array of levels, the criteria and the filter setup exactly as they were. '
  'Repeating the same call on the same object, or on a new object over the same data, gives an identical table.',
  ['inputs','histories'],'every dataset, configuration, and sequence of calls',
  'Tests make one call per dataset and never look at the inputs afterwards.',
  [T,D],[('treat_nan copy',D),('_space_filter copy',T),('_detect_snapshot',T)],obs=['TrackEddy.time_tracking','TrackEddy._filter_data_'])

p('C16','Coordinates are recognised by name whatever the order or extra variables',
  'A dimension named with "time" (or t) is time, with "lon" (or x) is zonal, with "lat" (or y) is meridional, whatever their order; data variables with such names take precedence when both are present, and extra dimensions of one element do not disturb the rest. '
  'Coordinates given as vectors or as matrices give the same 2D grid, and a dataset without recognisable or usable coordinates is rejected with an error instead of tracked.',
  ['inputs','configurations'],'every combination of coordinate names, orders, and 1D or 2D coordinates',
  'The tests use a single layout (time, lat, lon) with vectors.',
  [T],[('identify_coords/_get_dims/_get_vars',T),('check_coords',T)],[('coords','role of each dimension',T)],obs=['TrackEddy.__init__'])

p('C17','Results do not depend on how the same field is stored',
  'The same field stored with its dimensions in another order, with 2D coordinates, without time (a single snapshot), as part of a longer record, in chunks, or in one or several files gives the same eddies. '
  'Shifting the longitude origin by any amount only shifts the reported longitudes.',
  ['inputs'],'every field, layout, and position in longitude (including 0 and 180 degrees)',
  'It relates runs on different encodings of the same data; tests use one encoding around one place.',
  [T,G],[('_detect_snapshot transpose',T),('check_coords',T),('area_latlon_polygon',G),('_data_in_contour',T)],obs=['TrackEddy.time_tracking'])

p('C18','Missing data: filled only if asked, never part of an eddy path',
  'With NaN treatment the field is tracked exactly as if every missing value were zero, with or without filter. '
  'Without it missing values are preserved in the tracked field, and no eddy has a vertex, extreme or measure that is not finite.',
  ['inputs','configurations'],'every pattern of missing data, filter and treatment',
  'No test field has missing values.',
  [D,T],[('filter_data wrapper',D),('treat_nan',T)],obs=['TrackEddy._filter_data_','TrackEddy._detect_one_level'])

p('C19','Spatial filters remove exactly the selected mean',
  'The tracked anomaly is the field minus its mean: along x for the meridional filter, along y for the zonal filter, and over a centred square window for the convolution filter, whose side is the kernel, plus one if even, counting points outside of the domain as zero and ignoring missing values. '
  'Without filter the field is tracked unchanged, and an unknown filter type is rejected.',
  ['inputs','configurations'],'every field (with missing values), shape, kernel, and filter type',
  'Tests run with one kernel and one shape and only check how many eddies come out.',
  [T,D],[('_space_filter',T),('_filter_data_',T),('filter_data wrapper',D)],[('data2track','field that is tracked',T)],obs=['TrackEddy._filter_data_'])

p('C20','The curve distance is the exact discrete Frechet distance, for any length',
  'For two curves of at most 300 points the distance is the minimum, over all order preserving couplings that visit both curves from start to end, of the longest leash. '
  'For those it is symmetric, zero only for curves that are equal up to repeated points, and never smaller than the distance between both starts or both ends. For longer curves, which are thinned, it is still defined, at least the distance between both starts and at most the largest distance between both curves.',
  ['inputs'],'every pair of curves of any length',
  'No test calls it; eddy tests only see the score after rounding and a threshold.',
  [G],[('frdist / _c',G)],obs=['geometry.frdist'])

p('C21','The similarity score is one minus the scaled curve distance, within [0,1]',
  'The score of two curves is one minus their Frechet distance divided by the geometric mean of their lengths over the square root of two, not less than zero and rounded to four decimals. '
  'It is symmetric, is one for identical curves, and does not change if both curves are moved or scaled together.',
  ['inputs'],'every pair of curves with positive length',
  'No test calls it directly.',
  [G],[('compute_similarity',G),('arc_length',G)],obs=['geometry.compute_similarity'])

p('C22','Eddy records keep a fixed schema and reject unknown properties',
  'The record of an eddy has one row per contour point with the full path, and scalars for all other properties: identifier, level, area, radius, ellipse (3), scores, eccentricity, centre (2), sign, extreme (3) and, when fitted, the Gaussian (5); the caller can select any subset. '
  'A multi-valued property without a known layout is rejected with ValueError. '
  'Eddies stored one after the other get consecutive identifiers and keep their rows in order.',
  ['inputs','histories'],'every subset of properties, contour length, and sequence of stored eddies',
  'Tests read two columns of one table.',
  [E,D],[('Eddy.to_dict/to_table',E),('Eddy.store',E),('eddy_identifier',D)],obs=['Eddy.to_dict','Eddy.to_table','TrackEddy._detect_one_level'])

p('C23','Recorded measures belong to the contour in the same record',
  'In every identified record the area is that of the recorded path on the sphere, the radius is that of the circle of the same area, the centre is the mean of the path vertices, the eccentricity is that of the recorded ellipse axes (major not shorter than minor), and the scores are within [0,1]. '
  'The ellipse score is that of the recorded path against its fitted ellipse.',
  ['inputs'],'every identified eddy of every field',
  'Tests compare a few fitted Gaussian parameters with those used to create an isolated feature.',
  [T,G],[('_detect_one_level measures',T),('area_latlon_polygon, eccentricity, fit_ellipse, compute_similarity',G)],obs=['TrackEddy._detect_one_level'])

p('C24','Generated fields are the sum of their eddies, well separated if requested',
  'A generated field has one frame per time step on the requested grid plus margins, and each frame is the sum of the Gaussians of its eddies, each centred on a point of the requested grid and reaching its amplitude there. '
  'When no interaction is requested, in every frame all eddies are at least five radii apart whenever there is ample room, and the placement always ends. '
  'Moving Gaussian sequences have a unit peak at the given centre of each frame. '
  'A random walk moves by the given step along one of the eight directions, each of which occurs.',
  ['inputs','histories'],'every grid shape, number of eddies, margin, random seed, and number of frames',
  'Tests use square grids and only count detections.',
  [GEN,GG],[('Generate_field.checkposition',GEN),('assemble_field/reconstruct_field/pass_args',GEN),('moveGaussian',GG),('make_random_walk',GEN)],
  [('eddies','location, size, angle and amplitude of each eddy',GEN)],obs=['Generate_field','moveGaussian'])

p('C25','Fitted ellipses are exact on ellipses and move with the curve',
  'For vertices on an ellipse, in any position, size, elongation and orientation, the fitted axes, orientation and centre are those of that ellipse, and the outline returned is on it. '
  'For any contour, translating it translates the fit, scaling it scales the axes, and the outline returned is an ellipse with the returned axes.',
  ['inputs'],'every closed contour',
  'One test checks the orientation of a few ellipses.',
  [G],[('fit_ellipse',G)],obs=['geometry.fit_ellipse'])

p('C26','The recorded Gaussian is within its bounds, is the scored one, and is recovered',
  'The Gaussian recorded with an eddy is centred within one grid spacing of its extreme, and its widths and orientation are within 70% of those of the fitted ellipse. The recorded score is that of the recorded path against the contour at the same level of the recorded Gaussian with the amplitude of the extreme. For an isolated Gaussian eddy centred on the grid, the fit finds its centre, widths, orientation and amplitude.',
  ['inputs'],'every eddy identified with the Gaussian fit; isolated Gaussians of every width, elongation, orientation, amplitude and level','Tests check a few sizes of round Gaussians.',
  [G,T],[('Fit_Surface',G),('_detect_one_level',T)],obs=['TrackEddy._detect_one_level'])

p('C27','The contour tracer is memory safe on every grid',
  'Tracing any grid (any shape from 2x2, any values including infinities and missing data) never reads or writes outside of its buffers and releases all its memory.',
  ['inputs'],'every grid and level','Tests run a few smooth fields without instrumentation.',
  [C],[('cntr_init, cntr_trace, reorder',C)],obs=['geometry.extract_contours'])

p('C28','Pictures of detections show exactly what was detected and change nothing',
  'The picture of a multi-level catalogue draws the path of every entry, and nothing else, in the colour that the legend (if there is one) gives to its level. The picture of one level draws every identified path and every discarded contour, the latter in the colour of its reason in the legend. Both show the tracked field behind, work for empty results, and change neither the tables nor the field.',
  ['inputs'],'every result of a detection, including empty ones, any number of levels and every reason','No test makes a picture.',
  [T],[('plot_eddy_detection_multilevel',T),('plot_eddy_detection_in_level',T)],obs=['TrackEddy.plot_eddy_detection_multilevel','TrackEddy.plot_eddy_detection_in_level'])

p('C29','Gaussian kernels have the requested centre, width and unit peak',
  'A kernel is one at its centre (the middle point of the grid if none is given), half of it at half of the full width in every direction, and follows the same Gaussian law everywhere else, wherever the centre is. The frame of each time step of a moving kernel is the kernel at the centre of that step, with the first coordinate along x.',
  ['inputs','histories'],'every size, width, centre (on and off the grid points and the grid) and track','The tests never look at the values of a kernel.',
  [GG],[('makeGaussian',GG),('moveGaussian',GG)],obs=['makeGaussian','moveGaussian'])

p('C30','Isolated eddies are found exactly once and followed as one track',
  'In a record of isolated, well resolved Gaussian eddies of either sign that move by less than their radius between time steps, the catalogue of each time step has exactly one entry for each eddy that exceeds a requested level of its sign, and no other entry. '
  'The entry has the position, the sign and the extreme value of the eddy, and one of those levels. All the detections of an eddy form one track until it is missing for more than ntimes steps, after which it starts another one, and different eddies are never in the same track.',
  ['inputs','histories'],'every set of eddies, levels and criteria, over every history of moves, disappearances and returns','Tests count the detections of a few fields at few levels and track a single moving pair.',
  [T,U],[('time_tracking',T),('_detect_snapshot, _detect_one_level',T),('track_online, _detect_nearest',U)],obs=['TrackEddy.time_tracking'])

if __name__=='__main__':
    with open('/verif/properties.jsonl','w') as f:
        for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
    print(len(P))
