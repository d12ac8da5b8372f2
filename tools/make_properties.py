#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so that they are reviewable)."""
import json, os
P = []
PKG = 'beam_telescope_analysis/'


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=[PKG + f for f in files],
                               mechanism=[dict(name=n, where=PKG + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


prop('C01', 'Chunked reading partitions a table without splitting an event',
     """Reading any event-sorted table in chunks yields every selected row exactly once, in file order, and never
     hands rows of one event to two chunks, whatever the chunk size. Event-number and row-index limits select exactly
     the rows they describe, and the reported next row index is where reading can resume.""",
     ['inputs', 'configurations'],
     """all event-sorted tables (gaps, huge and empty events, event 0, negative and 64-bit numbers, empty tables),
     all chunk sizes larger than the biggest event, all start/stop event and index limits""",
     """the unit tests read one fixture with a few chunk sizes; event boundaries meet chunk boundaries only for
     particular sizes""",
     ['tools/analysis_utils.py'],
     [('data_aligned_at_events', 'tools/analysis_utils.py:451'), ('get_data_in_event_range', 'tools/analysis_utils.py:402')],
     ['chunks handed to the caller'])

prop('C02', 'Results do not depend on chunk size or number of workers',
     """Every analysis step (masking, clustering, correlating, merging, track finding, track fitting, track selection,
     residuals, efficiency, coordinate conversion) produces the same data whatever chunk size is used to process it
     and however many processes share the work. Rows come out in the same order, and every histogram holds the
     same counts. (Steps that pick random events to respect a maximum number of events, and histogram ranges that are by
     design derived from the first chunk, are exempt.)""",
     ['configurations', 'schedules', 'inputs'],
     """all chunk sizes larger than the biggest event, all worker counts and completion orders of the workers, all
     hit data""",
     """fixtures of the chunking tests are absent here and cover two chunk sizes each with the default pool; order
     of completion is never varied""",
     ['hit_analysis.py', 'track_analysis.py', 'result_analysis.py', 'dut_alignment.py', 'tools/smc.py', 'tools/data_selection.py'],
     [('chunk loops', 'tools/analysis_utils.py:451'), ('split-map-combine', 'tools/smc.py:38'), ('pool.map in fit_tracks', 'track_analysis.py:538')],
     ['HDF5 output files'])

prop('C03', 'Native and jitted kernels compute their definition, within bounds',
     """The native helpers for event intersection, event maxima, sorted membership and 1D/2D/3D histograms, and the
     jitted helpers for pairing by event number, index lookup and uniqueness, return exactly what their definition
     says for every legal input, including empty event arrays. They never read or write outside the arrays they are given,
     and out-of-range histogram input is refused with an error instead of corrupting memory.""",
     ['inputs'],
     """all sorted event arrays (empty, duplicates, negative, 64-bit), all histogram coordinates inside and outside the
     declared shape, all contiguous and strided arrays""",
     """memory errors do not fail a unit test, and the tests use one random set per helper""",
     ['cpp/AnalysisFunctions.h', 'cpp/analysis_functions.pyx', 'tools/analysis_utils.py'],
     [('getEventsInBothArrays/getMaxEventsInBothArrays/in1d_sorted/histogram_*', 'cpp/AnalysisFunctions.h'),
      ('merge_on_event_number, in1d_index, unique', 'tools/analysis_utils.py:32')],
     ['return values', 'AddressSanitizer and UBSan reports'])

prop('C04', 'Coordinate transformations are rigid motions and mutually inverse',
     """Rotations built from any three angles are proper rotations, applied as rotation about x, then y, then z, and
     the angles recovered from a rotation reproduce that rotation. Local-to-global and global-to-local transformations are inverse
     to each other, preserve distances and map the sensor origin to its translation. The intersection of a line with
     a plane lies on both, and a line parallel to the plane has no intersection (NaN).""",
     ['inputs'],
     """all angles including gimbal lock and multiples of pi, all translations, all lines and planes including
     nearly parallel and exactly parallel ones""",
     """three geometry tests use a handful of angles; singular configurations are not tested""",
     ['tools/geometry_utils.py'],
     [('rotation_matrix, euler_angles', 'tools/geometry_utils.py:263'), ('transformation matrices', 'tools/geometry_utils.py:392'),
      ('get_line_intersections_with_plane', 'tools/geometry_utils.py:91'), ('spherical coordinates', 'tools/geometry_utils.py:145')],
     ['return values'])

prop('C05', 'Pixel index, local and global position are mutually consistent',
     """For every sensor type with a regular pixel matrix, converting a pixel index to a local or global position and
     back returns the same index, the position is the pixel centre inside the sensor extent, and every position within a pixel
     maps to that pixel. Indices and positions outside the sensor (NaN included) are refused with an error when converted
     between index and position, global positions that are not on the sensor plane are refused, and global extents
     enclose exactly the rotated and translated sensor.""",
     ['inputs', 'configurations'],
     """all sensor types, all pixel matrices and pitches, all placements in space, all indices and positions including
     borders and outside""",
     """no unit test covers the sensor classes at all""",
     ['telescope/dut.py'],
     [('index_to_local_position', 'telescope/dut.py:285'), ('local_position_to_index', 'telescope/dut.py:304'),
      ('local_to_global_position', 'telescope/dut.py:326'), ('extents', 'telescope/dut.py:261')],
     ['return values'])

prop('C06', 'Saving and loading a telescope configuration loses nothing',
     """A telescope saved to a configuration file and loaded again has the same sensors in the same order with the
     same types and exactly the same parameters, and saving it again writes the same content. Saving with the option to keep
     other entries preserves the entries of the file that do not belong to the telescope. Invalid sensor parameters are
     refused when set.""",
     ['configurations', 'histories'],
     """all sensor types and parameter values, sequences of add, modify, replace, save and load""",
     """the configuration round trip has no unit test""",
     ['telescope/telescope.py', 'telescope/dut.py'],
     [('load_configuration/save_configuration', 'telescope/telescope.py:140'), ('Dut attribute validation', 'telescope/dut.py:30')],
     ['configuration files', 'attributes of the loaded telescope'])

prop('C07', 'Clustering assigns each accepted hit to exactly one correct cluster',
     """Every hit that is inside the charge window and not masked belongs to exactly one cluster of
     its own event, and no other hit contributes. Hits closer than the column, row and frame distance are clustered together
     following the documented algorithm, and each cluster reports the right number of hits, total charge, seed, charge-weighted or
     geometric centre, shape and local position. The cluster size and shape histograms count exactly the stored clusters.""",
     ['inputs', 'configurations'],
     """all hit tables (dense, sparse, noisy, duplicate and out-of-range hits), all cluster distances, charge windows,
     masks, and all chunk sizes""",
     """fixtures are absent, and each test compares a single stored result""",
     ['hit_analysis.py'],
     [('cluster_hits', 'hit_analysis.py:782'), ('end_of_cluster_function_with_index', 'hit_analysis.py:890'),
      ('pos_error_func_with_index', 'hit_analysis.py:1145')],
     ['Clusters and ClusterHits tables, histograms'])

prop('C08', 'Occupancy and pixel masks reflect exactly the recorded hits',
     """The occupancy map stored by the masking step is the exact number of hits per pixel. A pixel is in the noisy mask if and
     only if in one of the iterations its occupancy exceeds the median-filtered occupancy of its surroundings by more than
     the threshold times the normalized standard deviation, and pixels are disabled only when requested, exactly as requested.""",
     ['inputs', 'configurations'],
     """all hit tables, sensor sizes, thresholds, filter sizes and number of iterations""",
     """the fixture based test compares one sensor with one setting and cannot run here""",
     ['hit_analysis.py'],
     [('mask_pixels', 'hit_analysis.py:521'), ('hist_2d_index', 'tools/analysis_utils.py:338')],
     ['mask and occupancy arrays'])

prop('C09', 'Correlation histograms count every same-event pair exactly once',
     """The correlation histogram of two sensors contains, for every event, each pair of one hit of the reference
     sensor and one hit of the other sensor exactly once in the bin of their positions, and nothing else. This holds for
     any event composition, for hits missing in either sensor, and for data that is longer in one sensor than in the other.""",
     ['inputs', 'configurations'],
     """all pairs of hit or cluster tables, all resolutions, all choices of reference sensors, all chunk sizes""",
     """one fixture is compared with one stored histogram, and it is absent here""",
     ['hit_analysis.py', 'tools/analysis_utils.py'],
     [('correlate', 'hit_analysis.py:1244'), ('correlate_position_on_event_number', 'tools/analysis_utils.py:95')],
     ['Correlation_x/y arrays'])

prop('C10', 'Merging keeps every cluster exactly once, in its event and sensor',
     """The merged table holds every cluster of every sensor exactly once, with unchanged values in the columns of its
     own sensor and in a row of its own event; rows are ordered by event number. A sensor without a cluster in a row is marked
     by NaN position and a cleared hit flag, and hit flags are set if and only if the sensor has a cluster in that row.""",
     ['inputs', 'configurations'],
     """all sets of cluster tables with arbitrary, different and missing events per sensor, all chunk sizes""",
     """one fixture is compared with one stored table, and it is absent here""",
     ['hit_analysis.py', 'tools/analysis_utils.py'],
     [('merge_cluster_data', 'hit_analysis.py:1532'), ('map_cluster', 'tools/analysis_utils.py:262'),
      ('getMaxEventsInBothArrays', 'cpp/AnalysisFunctions.h')],
     ['MergedClusters table'])

prop('C11', 'Track finding only regroups hits, and reassembles separated tracks',
     """Track finding keeps, for every event and every sensor, exactly the hits it was given, with all their values, and only
     regroups them into track candidates; each hit is used exactly once. Tracks that are separated by much more
     than their measurement scatter are reassembled completely whatever the order of the hits in the event, provided that
     every track has a hit in the first sensor along the beam (hits may be missing in the other sensors).
     This includes tracks with large, different angles that cross between the sensors, when the sensors used for the
     extrapolation measure precisely and the first two sensors are close together and have a hit of every track. A maximum
     number of events keeps all hits of the kept events, and no more events than requested.""",
     ['inputs', 'configurations'],
     """all events with any number of hits per sensor and missing hits, telescopes with up to 19 sensors, any order
     of the sensors along the beam""",
     """one fixture is compared with one stored table, and it is absent here""",
     ['track_analysis.py'],
     [('find_tracks', 'track_analysis.py:30'), ('_find_tracks', 'track_analysis.py:346')],
     ['TrackCandidates table'])

prop('C12', 'Straight-line fit is the least-squares optimum of the selected hits',
     """For every stored track the offset and slope at each sensor describe the straight line minimising the summed squared
     distance to the hits of the selected fit sensors in global coordinates, expressed in the local frame of that
     sensor, and chi2 is derived from those hits. A track is stored if and only if it has a hit in every required sensor and enough
     hits (at least two) in the fit sensors; when a sensor is excluded from its own fit, moving its hit does not change its
     track. When all candidates are kept on request, the candidates are unchanged and only the fitted ones carry track parameters.
     A maximum number of events keeps all tracks of the kept events,
     and no more events with tracks than requested.""",
     ['inputs', 'configurations'],
     """all track candidates, all telescope geometries including rotated sensors, all selections of fit sensors, hit
     sensors and minimum number of hits""",
     """stored reference tracks are absent here and cover one telescope""",
     ['track_analysis.py'],
     [('fit_tracks', 'track_analysis.py:538'), ('line_fit_3d', 'track_analysis.py:1462'), ('store_track_data', 'track_analysis.py:1035')],
     ['Tracks tables'])

prop('C13', 'Kalman fit equals the weighted least-squares track model',
     """The Kalman track fit returns at every sensor the state that an independent generalised least-squares fit of the same
     track model gives, with the measurement errors of the hits and the multiple scattering of all material. Planes that
     do not take part in the fit do not influence it by their hits, and the result does not depend on the order in which the
     sensors are listed.""",
     ['inputs', 'configurations'],
     """all track candidates with arbitrary hit errors and missing hits, all material budgets, scattering planes,
     beam energies and sensor placements""",
     """one stored reference that contains whatever the code computed when it was recorded; absent here""",
     ['track_analysis.py', 'tools/kalman.py'],
     [('_fit_tracks_kalman_loop', 'track_analysis.py:1485'), ('_filter_f/_filter_b', 'tools/kalman.py:157'), ('smooth', 'tools/kalman.py:730')],
     ['Tracks tables'])

prop('C14', 'Hit, quality and isolation flags mean what they say',
     """In every track table, the hit flag of a sensor is set if and only if the track has a hit there. The quality
     flag is set if and only if the track has a hit there that lies within the requested distance of the fitted track (inside
     an ellipse, or a rectangle if a distance is smaller than 2.5 pixels) and, if limits are used, inside the limits of the
     sensor. The isolation flags are set if and only if no other track (hit) of the same event is closer to the
     track (hit) than the isolation distance at that sensor.""",
     ['inputs', 'configurations'],
     """all events with any number of tracks, all distances per sensor, elliptical and rectangular regions, use of
     limits""",
     """stored reference tracks are absent here and contain one setting""",
     ['track_analysis.py'],
     [('quality flags', 'track_analysis.py:1035'), ('_find_small_distance', 'track_analysis.py:1315')],
     ['flag columns of the Tracks tables'])

prop('C15', 'Track selection returns exactly the tracks that satisfy all criteria',
     """Selecting tracks copies exactly those rows, unchanged and in order, that satisfy every given criterion: hits, no hits, quality,
     no quality, isolation and no isolation in the named sensors, the text query and the event limit. Quality and hit isolation
     are only demanded of sensors where the track has a hit. A criterion that is not given selects everything, and an
     empty result is a valid result.""",
     ['inputs', 'configurations'],
     """all track tables, all combinations of criteria and query expressions over all columns, all chunk sizes""",
     """no unit test covers track selection""",
     ['tools/data_selection.py'],
     [('select_tracks', 'tools/data_selection.py:192'), ('table_where', 'tools/data_selection.py:481')],
     ['selected tracks file'])

prop('C16', 'Combining and reducing files neither loses nor alters rows',
     """Combining files appends all rows of all tables in order, changing nothing but the event numbers, which continue
     increasing over the files by the given or implied offsets. Limiting a file to a maximum number of events keeps whole
     events only, never more of them than the limit (and exactly as many, if there are enough, when the file is
     processed in one chunk), with all their rows unchanged and in order.""",
     ['inputs', 'configurations'],
     """all file lists incl. empty tables, all offsets, chunk sizes and event limits""",
     """no unit test covers these functions""",
     ['tools/data_selection.py'],
     [('combine_files', 'tools/data_selection.py:21'), ('reduce_events', 'tools/data_selection.py:110')],
     ['output files'])

prop('C17', 'Residual histograms are the distribution of hit minus track',
     """The residual histograms of a sensor contain every track with a hit and a valid fit within the limits exactly once, in the bin of the
     difference between measured hit and fitted track intersection in local coordinates. The two-dimensional histograms against a
     position count the tracks inside the limits of the other axis. The histogram edges stored with the counts describe the bins used, and
     the residual bins divide the pixel pitch into the requested number of bins.""",
     ['inputs', 'configurations'],
     """all track tables, bin widths, sensor limits, chunk sizes""",
     """one fixture is compared with one stored histogram; absent here""",
     ['result_analysis.py'],
     [('calculate_residuals', 'result_analysis.py:27')],
     ['residual histograms and edges'])

prop('C18', 'Efficiency counts each selected track once and counts its hit correctly',
     """In the efficiency map every selected track crossing the sensor (or region) is counted exactly once in the bin of its
     intersection, it is counted as detected if and only if the sensor has a hit on the track within the cut distance, and the efficiency of a
     bin is detected over total. Bins with too few tracks and masked pixels are excluded, efficiencies lie between zero
     and one, and region efficiencies equal the ratio of the tracks inside the region.""",
     ['inputs', 'configurations'],
     """all track tables, bin sizes, cut distances, regions, masks, minimum densities, chunk sizes""",
     """one fixture is compared with one stored map; absent here""",
     ['result_analysis.py'],
     [('calculate_efficiency', 'result_analysis.py:575')],
     ['efficiency output file'])

prop('C19', 'Pre-alignment recovers sensor offsets from correlations',
     """From the correlation histograms of correlated sensors, pre-alignment finds the relative x and y offset of every sensor to within a few correlation
     bins, and the sign of the correlation, also in presence of uncorrelated background. It changes only translation x and y, orientation flips and limits
     (to the region of the correlated hits), and leaves the reference sensor and all other parameters untouched.""",
     ['inputs', 'configurations'],
     """all offsets within the sensor overlap, all pixel sizes, inverted axes, background levels""",
     """one fixture with a fixed tolerance; absent here""",
     ['dut_alignment.py', 'tools/analysis_utils.py'],
     [('prealign', 'dut_alignment.py:189'), ('find_ransac/hough', 'dut_alignment.py:445')],
     ['written telescope configuration'])

prop('C20', 'Alignment recovers a known misalignment and keeps fixed parameters',
     """Aligning a telescope whose sensors were displaced and rotated by known small amounts recovers the true relative
     positions and angles within the statistical resolution of the data, up to a common movement of all sensors, which tracks do not
     determine. Parameters and sensors that are not selected keep their values (angles up to the cross-talk of rotations;
     while telescope planes are aligned, all sensors are moved along x and y with the frame), and an already aligned telescope stays aligned.""",
     ['inputs', 'configurations'],
     """all small displacements and rotations, all selections of sensors and alignment parameters, both alignment
     methods""",
     """one fixture per method with a fixed tolerance; absent here""",
     ['dut_alignment.py'],
     [('align', 'dut_alignment.py:528'), ('calculate_transformation', 'dut_alignment.py:1725'), ('align_kalman', 'dut_alignment.py:914')],
     ['written telescope configuration'])

prop('C21', 'Parallel table processing equals sequential, and never fails silently',
     """Processing a table in parallel chunks applies the given function to every row exactly once and combines the
     results in the order of the input, or sums histograms exactly, for any function, chunk size and number of processes. If
     the function fails for any chunk the call raises, it does not hang and it never returns normally with incomplete output.""",
     ['schedules', 'fault_sequences', 'inputs'],
     """all tables, chunk sizes, worker counts, completion orders and delays, and failures at any chunk in worker or
     writer""",
     """no unit test covers it; completion order and failures are not controlled in the pipeline tests""",
     ['tools/smc.py'],
     [('SMC', 'tools/smc.py:38'), ('_writer', 'tools/smc.py:225'), ('_async_worker', 'tools/smc.py:203')],
     ['output file', 'exceptions raised to the caller'])

prop('C22', 'Simulated data obeys the configured geometry and statistics',
     """The simulator produces hits that lie on the configured pixel matrix at the place where the generated track crosses the sensor, with
     event numbers ascending and the requested number of events, and the same seed gives the same data. The number of particles per event,
     efficiency, noise, threshold, beam profile, beam angle (also of beams so wide that angles beyond pi have to be drawn again), beam direction and multiple scattering follow the configuration (within statistics). With charge sharing every pixel of the
     matrix, including the last column and row, gets its part of the charge cloud, whose width follows the configured bias, temperature, thickness and correction factor; charge sharing never
     creates more charge than was deposited. Mixing the hits of an event changes their order only.""",
     ['inputs', 'configurations'],
     """all geometries, rotations, beam settings, seeds and chunk sizes of the simulation""",
     """no test of the simulation runs here""",
     ['tools/simulate_data.py'],
     [('SimulateData', 'tools/simulate_data.py:361')],
     ['simulated hit files'])

prop('C23', 'Converting files between coordinate systems is lossless and row-preserving',
     """Converting a hit file between pixel indices and local positions, or a merged or track file between local and
     global coordinates (optionally in the frame of the beam), keeps every row in order, leaves all columns other than positions, directions
     and their errors unchanged, and gives each position and direction the value of the sensor's own coordinate transformation. Converting
     there and back returns the original positions.""",
     ['inputs', 'configurations'],
     """all hit and cluster tables, all sensor types and placements, all chunk sizes""",
     """no unit test covers the conversion of files""",
     ['hit_analysis.py', 'dut_alignment.py'],
     [('convert_coordinates', 'hit_analysis.py:88'), ('apply_alignment', 'dut_alignment.py:50')],
     ['converted files'])

prop('C24', 'Cluster shape numbers encode the pixel pattern uniquely',
     """The number stored as cluster shape identifies the pattern of hit pixels relative to the corner of the cluster: decoding it
     gives back exactly that pattern, different patterns have different numbers, and the same pattern has the same number
     wherever it is on the sensor. Patterns too large to encode are marked as such.""",
     ['inputs'],
     """all patterns of up to 8 by 8 pixels, all positions on the sensor""",
     """no unit test covers the shape code""",
     ['tools/analysis_utils.py', 'hit_analysis.py'],
     [('calculate_cluster_shape/array, xy2d_morton, d2xy_morton', 'tools/analysis_utils.py:987'), ('cluster shape', 'hit_analysis.py:890')],
     ['return values', 'cluster_shape column'])

prop('C25', 'Every output file records the arguments that produced it',
     """Each analysis step stores in its output file the values of all arguments it was called with, positional and
     keyword ones, so that they can be read back, and steps applied to a file keep the records of earlier steps of that file.""",
     ['configurations', 'histories'],
     """all analysis steps and all ways of passing their arguments, sequences of steps on one file""",
     """no unit test reads the stored arguments; comparisons ignore them""",
     ['tools/storage_utils.py'],
     [('save_arguments', 'tools/storage_utils.py:71'), ('save_configuration_dict', 'tools/storage_utils.py:23')],
     ['/arguments group of output files'])

prop('C26', 'Analysis steps never modify their input',
     """No analysis step changes the content of its input files or of the arguments passed in, or leaves additional files behind besides its outputs. Repeating a
     step on the same input replaces its output by an identical result.""",
     ['histories', 'configurations'],
     """all analysis steps in any order and repeated, with all argument forms""",
     """tests compare the outputs only""",
     ['hit_analysis.py', 'track_analysis.py', 'result_analysis.py', 'dut_alignment.py', 'tools/data_selection.py'],
     [('file handling of the steps', 'hit_analysis.py:647')],
     ['input files, output directory'])

prop('C27', 'Track angle histograms hold the true track angles',
     """The track angle histograms count every selected track exactly once, at its total angle and its projections onto
     the two axes with respect to the beam and to the sensor, and the stored mean and width describe the distribution.""",
     ['inputs', 'configurations'],
     """all track tables, sensor rotations, numbers of bins, chunk sizes""",
     """no unit test checks track angles""",
     ['result_analysis.py'],
     [('histogram_track_angle', 'result_analysis.py:2309'), ('get_angles', 'result_analysis.py:2541')],
     ['track angle histograms'])

prop('C28', 'Hit data consistency check reports the true hit statistics',
     """The consistency check of a hit or cluster file stores the true number of hits per event, the
     true event numbers, the true distances between consecutive non-empty events and the true number of events, and correlates every hit with every hit
     of the neighbouring events in range exactly once, for any chunk size. Decreasing event numbers and positions outside of the sensor
     are refused.""",
     ['inputs', 'configurations'],
     """all hit and cluster files, event ranges, resolutions and chunk sizes""",
     """no unit test covers the stored numbers""",
     ['hit_analysis.py', 'tools/analysis_utils.py'],
     [('check_file', 'hit_analysis.py:249'), ('correlate_hits_on_event_range', 'tools/analysis_utils.py:148')],
     ['check output file'])

prop('C29', 'Statistics, fits and areas of distributions are right',
     """The numbers derived from distributions are right: mean, standard deviation and median of a histogram equal those of
     its entries; fits of residuals find the mean, width and slope of the distribution they were filled from; peak searches return the
     position and full width at half maximum of a single peak and refuse none or several; the Hough transform counts every pixel
     once for every angle, at its distance; the cells around points share out the whole sensor area, each with the points nearest
     to it, and polygon areas are exact; values are assigned to the bin, the gap, the bit and the neighbour they belong to.""",
     ['inputs'],
     """all histograms, distributions, images and sets of points within the documented use""",
     """no unit test covers them; they decide every resolution, alignment and efficiency number that is reported""",
     ['tools/analysis_utils.py'],
     [('get_mean_from_histogram', 'tools/analysis_utils.py:701'),
      ('get_rms_from_histogram', 'tools/analysis_utils.py:705'),
      ('get_median_from_histogram', 'tools/analysis_utils.py:709'),
      ('fit_residuals_gauss', 'tools/analysis_utils.py:861'),
      ('fit_residuals_gauss_box_erf', 'tools/analysis_utils.py:875'),
      ('fit_residuals_vs_position', 'tools/analysis_utils.py:889'),
      ('peak_detect', 'tools/analysis_utils.py:828'),
      ('simple_peak_detect', 'tools/analysis_utils.py:839'),
      ('hough_transform', 'tools/analysis_utils.py:934'),
      ('binned_statistic', 'tools/analysis_utils.py:976'),
      ('voronoi_finite_polygons_2d', 'tools/analysis_utils.py:1068'),
      ('polygon_area', 'tools/analysis_utils.py:1148'),
      ('number_of_set_bits', 'tools/analysis_utils.py:1056'),
      ('hist_quantiles', 'tools/analysis_utils.py:200'),
      ('in1d_index', 'tools/analysis_utils.py:1175'),
      ('count_unique_neighbors', 'tools/analysis_utils.py:1257'),
      ('fill', 'tools/analysis_utils.py:1298')],
     ['return values'])

prop('C30', 'Raw data converters keep every hit, in the file of its plane, with its position',
     '''The converters of interpreted raw data (pymosa_converter for Mimosa26, pybar_fei4_converter for FE-I4; format_hit_table and process_dut) write, whatever the chunk_size, every hit of the interpreted table exactly once and in the recorded order. Mimosa26: one file per selected header ID, in the order of the selection and with the given or generated names, holding exactly the hits whose plane is that ID (hits of planes that were not selected are in no file), column and row counted from 1 (one more than recorded), frame and charge 0. FE-I4: one file with event number, column and row as recorded, frame = relative_BCID and charge = tot. The output has the columns of the analysis (default_hits_dtype). A table with a decreasing event number is refused (RuntimeError), also when the decrease lies between two chunks; a wrong number of output names is refused (ValueError). With the interpreter in front (process_dut), the file that the interpreter wrote is converted (of a list of FE-I4 raw data files, the one named after the first in sorted order). The input file is not changed.''',
     ['inputs'],
     '''all interpreted tables, selections of planes and chunk sizes''',
     '''no test runs the converters (the interpreters are not installed); a hit lost, doubled, shifted or put in another plane's file falsifies every later step''',
     ['converter/pymosa_converter.py', 'converter/pybar_fei4_converter.py'],
     [('pymosa format_hit_table', 'converter/pymosa_converter.py:60'),
      ('pymosa process_dut', 'converter/pymosa_converter.py:24'),
      ('FE-I4 format_hit_table', 'converter/pybar_fei4_converter.py:88'),
      ('FE-I4 process_dut', 'converter/pybar_fei4_converter.py:26')],
     ['hit tables'])

prop('C31', 'Purity counts every hit once, and as pure only with a track close to it',
     '''calculate_purity fills, whatever the chunk_size, for every selected sensor a map of all hits of the track table (Total_hits: every row with a hit, at the local position of the hit, with or without a fitted track) and of the pure ones (Pure_hits: the row has a fitted track whose intersection is nearer to the hit than cut_distance and inside local_x_range and local_y_range). The bins cover the extent of the sensor with int(size / bin size) bins. Purity is pure over all hits in percent (not rounded), bins with fewer than minimum_hit_density hits are masked; purity_average is the ratio of the sums; returned are the mean purity of the bins that are not masked, the sums of pure hits and of all hits and the mean purity weighted with the hits. Chunks without pure hits do not end the counting. If no bin has a purity above 0, it fails with RuntimeError and reports no number. Given arguments and the input file are not changed.''',
     ['inputs', 'configurations'],
     '''all track tables, binnings, cuts, ranges and chunk sizes''',
     '''no test calls the function (it failed always); a wrong count is not visible in a map of percentages''',
     ['result_analysis.py'],
     [('calculate_purity', 'result_analysis.py:2119'),
      ('purity_plots', 'tools/plot_utils.py:2453')],
     ['purity files', 'return values'])

prop('C32', 'Switching plots on changes no result',
     '''Every step that can plot (check, check_file, mask, mask_pixels, cluster, cluster_hits, correlate, prealign, align, fit_tracks, calculate_residuals, histogram_track_angle, calculate_efficiency) writes with plot=True the same output as with plot=False: the same nodes, tables, histograms and attributes (floating point results to rounding) and the same configuration files. With plots it does not fail where it succeeds without them, and it writes a complete PDF document.''',
     ['inputs', 'configurations'],
     '''all input tables and telescopes that the steps process without plots''',
     '''plots are on by default, but the tests switch them off; plotting code works on the arrays that are written afterwards''',
     ['tools/plot_utils.py', 'hit_analysis.py', 'track_analysis.py', 'result_analysis.py', 'dut_alignment.py'],
     [('efficiency_plots', 'tools/plot_utils.py:1273'),
      ('calculate_efficiency', 'result_analysis.py:576'),
      ('plot_2d_pixel_hist', 'tools/plot_utils.py:86')],
     ['output files', 'plots'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    print(len(P))
