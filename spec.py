"""Single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (mk.py writes them)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, design, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, design=design, level=level))


prop('C01', 'mppnccombine rebuilds exactly the global file its pieces were cut from',
     'For any set of per-processor netCDF files that a domain decomposition can produce, the unified file has the dimensions, variables, types, '
     'attributes and, bit for bit, the values of the global field, whatever the order, numbering, netCDF format, record count, blocking factor and '
     'output options. Regions no piece covers hold zero, or the missing value when that option is given. Decomposition bookkeeping does not appear in the output.',
     ['inputs', 'configurations'], 'all layouts, uneven extents, variable shapes, types, formats, record counts, option combinations, file orders',
     'The tests combine a few fixed sets and compare attributes or a checksum of one layout; block sizes, masked processors, staggered axes and most types are never mixed.',
     ['src/mpp-nccombine/mppnccombine.c'],
     [('record blocking and hyperslab copy', 'process_file, process_vars, flush_decomp'), ('header and attribute merging', 'process_file')],
     'ASan/UBSan execution of generated decompositions with a bit-exact reconstruction oracle',
     'Exploration: every generated set is checked completely (header and all values); sets are random, up to 16 pieces. Trusts the netCDF library and the Python reader.',
     'vlib/decomp.py draws a global file, cuts it like FMS does, and keeps the global file as the oracle. The sanitizer-built mppnccombine runs under random '
     'options; the output is read as raw bits and compared in full. Memory is pattern-filled so stale bytes differ from expected data.')
prop('C02', 'mppnccombine never loses input data and never reports a broken output as good',
     'Input files are never modified and are removed only when removal was asked for and after the complete combined file has been written; no file outside the set is touched. '
     'An existing output is not overwritten unless asked for. When an input is damaged or missing, a write fails or the process dies at any point, the run does not exit successfully with an output that differs '
     'from the right one, and no input is lost.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every write/open/close failure point, kill point and damaged input of generated sets',
     'No test injects an I/O error, kills the program or gives a damaged file; removal is tested on one happy set.',
     ['src/mpp-nccombine/mppnccombine.c'],
     [('removal after success only', 'main'), ('error returns of the netCDF layer', 'process_file, flush_decomp')],
     'fault injection and system-call trace monitoring (LD_PRELOAD) with an online ordering rule',
     'Fault enumeration over the library-call trace of each generated set (sampled in quick, dense in thorough).',
     'preload/iotrace.c records open/write/unlink/rename and can fail or kill at the n-th event. The monitor checks: no write to an input, unlink only of set members, '
     'only after the last write/close of the output, exit code against output correctness for each injected fault or kill.', level='fault_enumeration')
prop('C03', 'mppncscatter partitions a file and combining its pieces gives the file back',
     'Scattering a global file over any layout gives one file per domain (or per i/o domain) which together hold every decomposed point exactly once with its value, while undecomposed data and '
     'attributes are in each. Combining the pieces with mppnccombine gives back the original file bit for bit. A dry run writes nothing, and the requested numbering, prefix and output directory are used.',
     ['inputs', 'configurations'], 'all layouts, i/o layouts, axis conventions, variable shapes, types, formats and options',
     'The tests scatter one file with one or two layouts and compare it with ncdump output.',
     ['src/mpp-ncscatter/mppncscatter.c', 'src/mpp-ncscatter/scatterdim.c', 'src/mpp-ncscatter/opt.c'],
     [('domain extents', 'mpp_compute_extent, scatter dims'), ('hyperslab copy', 'scatter_put_*')],
     'ASan/UBSan execution with partition, conservation and round-trip monitors',
     'Exploration; each generated file is checked in full against the partition implied by the written decomposition attributes and by the reference extents.',
     'Random files with X/Y axes declared by cartesian_axis, axis, units or names are scattered; the monitor checks exactly-once coverage, values, attributes, names, then runs the '
     'real mppnccombine and compares bits.')
prop('C04', 'combine-ncc keeps every valid compressed point exactly once, in index order',
     'Combining compressed-by-gathering restart pieces gives a file whose compressed dimensions hold every valid index of the pieces exactly once in ascending order, with each variable carrying that point\'s '
     'value, and everything else as in the pieces. The result does not depend on the order of the files or of the points inside them. Inputs are not modified.',
     ['inputs', 'configurations'], 'all tilings, empty pieces, several compressed dimensions, variable shapes, record counts and formats',
     'The test combines one data set and compares it to a stored answer.',
     ['src/land_utils/combine-ncc.F90', 'lib/libnfu/nfu_compress.F90', 'lib/libnfu/nfu.F90'],
     [('global index sort and placement', 'combine-ncc.F90'), ('gather/scatter of compressed variables', 'lib/libnfu')],
     'ASan/bounds-checked execution with an exactly-once and bit-equality oracle',
     'Exploration over generated land grids (1-4 tiles, cohorts, 1-6 pieces).',
     'vlib/land.py draws a dense land mask, builds the global compressed file and cuts pieces (points shuffled, empty pieces hold one invalid entry); the output must equal the global file.')
prop('C05', 'scatter-ncc partitions compressed points by domain and combining restores them',
     'Scattering a compressed restart over an i/o layout puts every point in exactly the file whose rectangle holds it, with its values for every level and record, in ascending order; combining the files gives the input back bit for bit. '
     'A layout that does not divide the grid is refused.',
     ['inputs', 'configurations'], 'all layouts, masks, shapes, records and formats',
     'No test scatters and recombines; one file is scattered.',
     ['src/land_utils/scatter-ncc.F90', 'lib/libnfu/nfu_compress.F90'], [('owner of a point', 'scatter-ncc.F90 main loop')],
     'ASan/bounds-checked execution with partition and round-trip monitors', 'Exploration over generated land restarts.',
     'Owner of each point recomputed independently from its index; conservation of the number of points; round trip through the real combine-ncc.')
prop('C06', 'decompress-ncc puts every compressed value at its grid point and fill elsewhere',
     'The decompressed file holds, for every compressed variable, each value at the grid point its index names, and the missing or ocean fill value at every other point; uncompressed variables, dimensions and attributes are kept. '
     'With several input files the union of their points is written.',
     ['inputs', 'configurations'], 'all masks, tiles, cohorts, shapes, records, several inputs, with and without fill attributes',
     'One stored data set is decompressed.',
     ['src/land_utils/decompress-ncc.F90', 'lib/libnfu/nfu_compress.F90'], [('index arithmetic', 'nfu_get_compressed_var')],
     'ASan/bounds-checked execution with a dense reference array', 'Exploration over generated land restarts.',
     'The generator keeps the dense array; the output is compared point by point.')
prop('C07', 'combine_restarts combines each set of a directory once and touches nothing else',
     'In a directory with restart pieces of any mix of kinds, each set is combined by the program for its kind into a file equal to what that program gives on exactly the pieces of that set, and no other file is changed, created or removed. '
     'Pieces are removed only on request and only after their own set was combined successfully; a failure gives a non-zero exit. A dry run changes nothing and prints the commands.',
     ['inputs', 'histories', 'configurations'], 'all mixes of sets, confusable names, options and damaged sets',
     'The tests run one directory per kind; no confusable names, failures, dry runs or removal checks.',
     ['src/combine-restarts/combine_restarts.in', 'src/iceberg-comb/iceberg_comb.sh.in', 'src/land_utils/is-compressed.c'],
     [('grouping of names into sets', 'combine_restarts.in'), ('dispatch', 'is-compressed, iceberg_comb.sh -c')],
     'whole-directory before/after monitor over generated run directories', 'Exploration; the script is the real one, the programs are the sanitizer builds.',
     'Directory snapshots before and after; combined files compared with the three reference oracles of C01, C04, C08.')
prop('C08', 'iceberg_comb.sh keeps every iceberg once and refuses incomplete or foreign sets',
     'The combined iceberg restart holds the records of all pieces, in the order given, each exactly once, including when some or all pieces are empty, and no longer claims to be part of a set. '
     'A set with a missing, extra, foreign or damaged file, or an output that exists, is refused with a non-zero exit and nothing is written or changed.',
     ['inputs', 'fault_sequences'], 'all piece counts, empty pieces, formats, and defects of the set',
     'The tests run one set and a few error cases.',
     ['src/iceberg-comb/iceberg_comb.sh.in'], [('set validation', 'iceberg_comb.sh.in'), ('concatenation of non-empty files', 'ncrcat call')],
     'conservation and refusal monitors over generated sets', 'Exploration; trusts NCO.',
     'Random sets with a concatenation oracle; nine kinds of broken set.')
prop('C09', 'timavg writes the time-weighted mean of each file, honouring missing values',
     'Each output record is the mean over the records of one input file weighted by the length of the time intervals, leaving out missing values and giving the missing value where too little valid time remains; static data and attributes are kept. '
     'The output time is the end or the middle of the averaged period as requested and the written bounds span that period. Inconsistent or unreadable inputs give a non-zero exit.',
     ['inputs', 'configurations'], 'all file counts, record counts, intervals, types, shapes, missing patterns, formats and options',
     'The tests average a few files and check for success or one checksum.',
     ['src/timeavg/time_average.f90', 'src/timeavg/timavg.sh.in'], [('weighted sums', 'time_average.f90 SUM FIELDS'), ('time bounds', 'time_average.f90 OUTPUT SECTION')],
     'ASan/bounds-checked execution with a float64 reference mean', 'Exploration; tolerance of a few ulp of the variable type.',
     'Random history files, reference means in float64, all attributes, bounds and time axis compared, plus refused inputs.')
prop('C10', 'split_ncvars puts every field, complete and unchanged, in its own file',
     'For any history files with CF variable names, each requested field is written to its own file (per tile) with its values from all input files bit for bit in time order, its attributes, its axes and the '
     'bounds, edges, coordinates, formula and time-average data it refers to. No other fields leak into the file, inputs are not modified and nothing temporary stays behind. A failing helper program makes the run exit non-zero.',
     ['inputs', 'configurations', 'fault_sequences'], 'all header structures, axis references, names, tiles, file counts and options',
     'The tests split one file per option and look at header text.',
     ['src/split_ncvars/split_ncvars.pl.in'],
     [('selection of companion variables', 'get_variable_bounds, get_variables_from_att, get_formula_terms'), ('append over files', 'main loop, ncrcat')],
     'execution of generated history sets with an independent selection and bit-exact data oracle, failing helper stubs',
     'Exploration over generated headers; NCO is trusted.',
     'Random headers with every kind of reference are split by the script; the monitor recomputes from the header which companions belong to a field and compares files, data, dimensions and attributes. ncks/ncrcat stubs that fail check the exit status.')
prop('C11', 'list_ncvars, ncexists and is-compressed answer exactly what the file holds',
     'For any netCDF file, list_ncvars lists, in file order, precisely the non-character variables of the requested kind (static or not) and rank except the documented suffixes; ncexists prints 1 exactly when the named variable or attribute exists, '
     'else 0; is-compressed succeeds exactly when the variable of some dimension has a compress attribute. An unreadable file or an empty request never gives an answer with a zero exit status. The file is never changed.',
     ['inputs', 'configurations'], 'all files (formats, types, ranks, names), all queries and damaged inputs',
     'The tests query one or two files for present names.',
     ['src/list-ncvars/list_ncvars.f90', 'src/list-ncvars/list_ncvars.sh.in', 'src/nc-exists/ncexists.c', 'src/land_utils/is-compressed.c'],
     [('variable filter', 'list_ncvars main loop'), ('existence answers', 'ncexists main'), ('compress lookup', 'is-compressed main')],
     'sanitizer execution of generated files and queries against a direct reading of the file',
     'Exploration over random files and queries, including damaged ones.',
     'Each random file is read by an independent reader and every answer of the three tools is compared with it; damaged, absent and empty inputs must be refused. list_ncvars lists axis variables too (the usage text says otherwise, the tests rely on it).')
prop('C12', 'make_hgrid gives the requested vertices and consistent metrics (non-cubic)',
     'For every accepted request for a longitude-latitude, tripolar, spectral, plane, cartesian or user-supplied grid the supergrid has the requested size, its vertices are those the request defines (bounds hit exactly, monotone, Gaussian latitudes, '
     'bipolar cap joined and folded exactly), and dx, dy, area and angles agree with the vertices; areas are positive and add up to the area of the region. A request that is inconsistent is refused with a non-zero exit and no output file.',
     ['inputs', 'configurations'], 'all bounds, region counts, resolutions, cell centrings, grid types and area methods',
     'The tests make a few grids and check for success or a checksum.',
     ['src/make-hgrid/make_hgrid.c', 'src/make-hgrid/create_lonlat_grid.c', 'src/make-hgrid/create_grid_from_file.c', 'lib/libfrencutils/tool_util.c', 'lib/libfrencutils/mosaic_util.c'],
     [('axis bounds', 'compute_grid_bound, compute_grid_bound_legacy'), ('tripolar cap', 'tp_trans, bipolar_dist, bipolar_area'), ('gaussian latitudes', 'create_spectral_grid')],
     'sanitizer execution of generated requests against an independent construction of the grid',
     'Exploration over random requests; tolerances 1e-10 to 1e-5 by quantity.',
     'Random requests; vertices, lengths, areas and angles are compared with an independent construction and spherical geometry; total area with the exact region; wrong requests must be refused. A join latitude exactly half way between two rows is not generated.')
prop('C13', 'make_hgrid cubed-sphere tiles share their edges and cover the sphere exactly',
     'For every accepted gnomonic or conformal cubic request (any size, shift, Schmidt or cube transform, global refinement) the six tiles have the requested vertices, neighbouring tiles share their edges, areas are positive and add up to the sphere, '
     'and lengths and areas are those of the vertices; halo output repeats the neighbours. Nests coincide with the parent cells they refine, also inside other nests. Impossible requests are refused with a non-zero exit and no output.',
     ['inputs', 'configurations'], 'all sizes, shifts, stretch factors, targets, nest layouts, refinement ratios and output options',
     'The tests make a few cubic grids and compare one checksum or only the exit status.',
     ['src/make-hgrid/create_gnomonic_cubic_grid.c', 'src/make-hgrid/create_conformal_cubic_grid.c', 'src/make-hgrid/make_hgrid.c'],
     [('faces and their shared edges', 'gnomonic_ed, mirror_grid'), ('stretching', 'direct_transform, cube_transform'), ('nests', 'setup_aligned_nest'), ('halo', 'fill_cubic_grid_halo')],
     'sanitizer execution of generated requests against a closed-form construction on the sphere',
     'Exploration over random requests; rotation angles are not claimed (a documented workaround).',
     'Random requests; vertices from the closed form (u = sqrt2 tan(theta) on the cube face, Schmidt map as vectors), shared edges, great-circle midpoints, lengths, areas, totals, nests by spherical interpolation, halos from the neighbours. Points closer than 5e-4 rad to a pole may be put on it; dy of an unstretched refined grid is that of the mirrored edge (3%).')

prop('C14', 'make_solo_mosaic records every contact between tiles, and only true ones',
     'For every set of grid tiles, the mosaic lists each edge two tiles share (also across a given period, or where a tile folds onto itself at the north) and each nest inside its parent exactly once, with index ranges whose vertices '
     'coincide point for point in the recorded direction. No other contact is listed, and the names, files and location are those given. A wrong number of tiles or a missing file gives an error and no mosaic.',
     ['inputs', 'configurations'], 'cubed-sphere, stretched, refined, nested, tripolar, lon-lat, periodic and multi-tile grids with partly shared edges',
     'Tests make the mosaic of a few fixed grids and look at exit codes or one stored answer.',
     ['src/make-solo-mosaic/make_solo_mosaic.c', 'src/make-solo-mosaic/get_contact.c'],
     [('edge search', 'get_align_contact, get_contact_index'), ('nest search', 'get_overlap_contact'), ('fold', 'get_align_contact')],
     'ASan/UBSan execution with an independent contact search (3-D coincidence, interval arithmetic)',
     'Exploration over generated mosaics of 1-12 tiles.',
     'checks/c14.py generates tiles (with make_hgrid or directly), computes the set of contacts independently and compares sets, strings and refusals.')

prop('C15', 'fregrid exchange grid holds exactly the overlaps of the two grids',
     'For every pair of source and target mosaics, the exchange grid lists each pair of overlapping cells exactly once, with the area of their intersection (only overlaps below a millionth of the smaller cell may be left out); the overlaps of a '
     'cell lying inside the other grid add up to its area. Second-order distances are the offsets of the overlap centroids from the source cell centroid and cancel over a covered cell. The result is the same for any number of processes.',
     ['inputs', 'configurations'], 'all pairs of cubed-sphere, tripolar, lon-lat, regional, multi-tile and curvilinear grids, lon-lat and great-circle sides, both orders, process counts',
     'The tests remap between two or three fixed grids and look at exit codes or stored answers.',
     ['lib/libfrencutils/create_xgrid.c', 'src/fre-grid/conserve_interp.c', 'src/fre-grid/fregrid_util.c', 'lib/libfrencutils/mosaic_util.c'],
     [('clipping', 'clip_2dx2d, clip_2dx2d_great_circle'), ('overlap search', 'create_xgrid_2dx2d_order1, create_xgrid_2dx2d_order2, create_xgrid_great_circle'), ('centroids', 'poly_ctrlat, poly_ctrlon'), ('gather over processes', 'setup_conserve_interp')],
     'ASan/UBSan execution (serial and MPI) with an independent polygon intersection as reference monitor',
     'Exploration over random grid pairs; areas to 2e-7 of the smaller cell.',
     'checks/c15.py builds random grid pairs, runs fregrid and compares every recorded overlap, index and distance with vlib/xg.py (own clipping in lon-lat or on the sphere, moments by quadrature). The zonal distance may be the exact one or the published trapezoidal line integral along the sides, which the code uses.')

prop('C16', 'fregrid first-order data are the area-weighted averages of the source cells',
     'Every value fregrid writes with first-order conservative remapping is the average of the non-missing source values over the exchange grid (times weights or cell measures where given), or their area share for "area: sum" fields; a target cell '
     'is missing exactly when nothing but missing data covers it, and constants stay constant. This holds for each record, level and type, also packed, selected, from a stored exchange grid or on several processes; '
     'axes, bounds, attributes and copied variables are those of the input.',
     ['inputs', 'configurations'], 'grids, field shapes, types, packing, missing-value conventions, cell methods and measures, weights, level/record selections, stored exchange grids, process counts',
     'The tests regrid a few fields and compare an exit status or stored answers of default runs.',
     ['src/fre-grid/conserve_interp.c', 'src/fre-grid/fregrid_util.c', 'src/fre-grid/fregrid.c', 'lib/libfrencutils/mpp_io.c'],
     [('averaging', 'do_scalar_conserve_interp'), ('reading and unpacking', 'get_input_data'), ('writing and packing', 'write_field_data'), ('stored exchange grid', 'set_remap_file, setup_conserve_interp')],
     'ASan/UBSan execution (serial and MPI) with a reference monitor recomputing every value from the exchange grid',
     'Exploration over random fields and grids; single precision 3e-7, integers to rounding.',
     'checks/c16.py writes random fields (types, packing, missing conventions, axes, cell methods/measures, weights) on random grids, runs fregrid directly, from a stored exchange grid or with several processes, and recomputes every output value, missing point and axis. Weights are ignored by design when a field has cell measures; mixed lists are not generated.')
prop('C17', 'fregrid second-order data are conservative, use true gradients, respect bounds',
     'With second-order conservative remapping from a cubed sphere every value fregrid writes is the average over the exchange grid of the source value plus its gradient times the offset of the overlap from the source cell centre, where the gradient is taken across '
     'face edges and is zero next to missing data. The total of the target equals that of the source, and with the monotonic method every value stays within the range of the source cells below it and their neighbours. It does not matter whether '
     'the method comes from the command line or from the attribute of the field, whether the exchange grid was stored, or how many processes and output tiles there are.',
     ['inputs', 'configurations'], 'cube sizes, stretching, fields, missing points (also at face edges and corners), output grids, weights, cell methods and measures, process counts',
     'The tests run second-order remapping on one grid and look at the exit status.',
     ['src/fre-grid/conserve_interp.c', 'src/fre-grid/fregrid_util.c', 'lib/libfrencutils/gradient_c2l.c'],
     [('remapping and limiter', 'do_scalar_conserve_interp'), ('gradients', 'grad_c2l, a2b_ord2'), ('halo and gradient mask', 'get_input_data, update_halo')],
     'ASan/UBSan execution (serial and MPI) with a reference monitor for gradients, bounds and totals',
     'Exploration over random cubes and fields; single precision.',
     'checks/c17.py reuses the fields of C16 on cubed spheres; vlib/cubed.py computes halos, gradients and neighbourhood ranges from the supergrid alone and every output value is recomputed. Constants are only kept to the discretisation error of the gradient, which is by design.')

prop('C18', 'make_coupler_mosaic exchange grids hold exactly the overlaps of the components',
     'For every set of atmosphere, land, ocean and wave mosaics and ocean mask, each exchange grid lists each pair of overlapping cells once, with the area of their intersection times the ocean (or land) fraction, ocean and land parts of an atmosphere cell '
     'add up to the cell, centroid offsets are those of the overlaps, and masks and file lists agree with the exchange cells. Nothing depends on the number of processes. Too small limits or bad options give an error.',
     ['inputs', 'configurations'], 'cubed-sphere, lon-lat, tripolar and multi-tile components, shared or separate land and wave grids, fractional masks, oceans ending before the pole, both orders, process counts',
     'Tests make the coupler mosaic of a few fixed grids and look at the exit status.',
     ['src/make-coupler-mosaic/make_coupler_mosaic.c', 'lib/libfrencutils/create_xgrid.c'],
     [('exchange grids', 'main'), ('clipping', 'clip_2dx2d'), ('masks', 'get_grid_global_area')],
     'ASan/UBSan execution (serial and MPI) with an independent polygon intersection and conservation monitor',
     'Exploration over random component grids; tolerances follow the thresholds of the tool.',
     'checks/c18.py builds random component grids and masks, runs the tool and compares every exchange cell, offset, mask, contact and file list with vlib/xg.py and the sum rules. Cells at the recorded area threshold may be there or not.')
prop('C19', 'make_vgrid levels pass through the bounds, monotone and centred as asked',
     'For every list of bounds with level counts or resolutions the vertical grid passes through each bound at its level, is strictly monotone, follows the documented monotone cubic (or cosine) spacing and is centred on t or c cells as asked. '
     'Inconsistent counts, odd counts with centering, regions that are no whole number of levels and unknown options give an error and no file.',
     ['inputs', 'configurations'], 'numbers of bounds, level counts, resolutions, directions, centering and both algorithms',
     'The tests make a single vertical grid.',
     ['src/make-vgrid/make_vgrid.c', 'src/make-vgrid/create_vgrid.c', 'lib/libfrencutils/tool_util.c', 'lib/libfrencutils/interp.c'],
     [('levels', 'create_vgrid, compute_grid_bound'), ('spacing', 'cubic_spline_sp')],
     'ASan/UBSan execution with an independent construction as reference monitor',
     'Exploration over random requests of 2-99 bounds.',
     'checks/c19.py compares every level with an independent Fritsch-Carlson (or cosine) construction and the promises of the grid, and expects the refusals.')
prop('C20', 'runoff_regrid conserves runoff and puts all of it on the nearest wet points',
     'For every runoff field and ocean grid the total runoff of the output equals that of the valid source cells that overlap the ocean grid, no land point holds any, and each land point that received runoff hands all of it to its nearest wet point. '
     'This holds for each record, either latitude order, missing points and any number of processes; with no wet point at all the run is refused.',
     ['inputs', 'configurations'], 'source grids, latitude orders, ocean grids and depths, sea levels, records, types, missing values, process counts',
     'The test regrids one field and looks at the exit status.',
     ['src/runoff-regrid/runoff_regrid.c', 'lib/libfrencutils/create_xgrid.c'],
     [('overlap weights', 'setup_remap, process_data'), ('nearest wet point', 'setup_remap')],
     'ASan/UBSan execution (serial and MPI) with a reference monitor for totals and every output value',
     'Exploration over random fields, grids and masks.',
     'checks/c20.py recomputes the overlaps with vlib/xg.py and the nearest wet points on the sphere (ties within rounding accepted) and compares totals, values and dry land.')
prop('C21', 'check_mask masks out exactly the domains without a wet point in their halo',
     'For every mask, boundary condition, halo width and layout (or range of processor counts) check_mask writes one table for each usable layout with something to mask, listing exactly the domains whose compute domain and halo (cyclic, doubly cyclic or '
     'folded, and across cube faces for land) hold no wet (land) point. Wrong requests give an error and no table.',
     ['inputs', 'configurations'], 'masks, depths and sea levels, grid versions, boundary types, halos, layouts, processor ranges, cubed-sphere land areas',
     'The test runs one mask with one range and looks at the exit status.',
     ['src/check-mask/check_mask.c', 'lib/libfrencutils/tool_util.c', 'lib/libfrencutils/mpp_domain.c'],
     [('ocean domains', 'check_ocean_mask'), ('land domains', 'check_land_mask, update_cubic_halo, get_land_area'), ('boundaries', 'get_boundary_type'), ('layouts', 'mpp_define_layout, mpp_compute_extent')],
     'ASan/UBSan execution with a point-by-point search as reference monitor',
     'Exploration over random masks and layouts.',
     'checks/c21.py finds the wet points of each halo point by point (across cube faces through shared cell edges) and compares every table. Tables with open boundaries and --show_valid_only are not judged: that option has no consistent meaning in the code.')
prop('C22', 'make_topog depths average the wet source cells and agree with their levels',
     'For every ocean grid and source topography each depth is the mean of the wet source cells over the grid cell, weighted by overlap and zero where there is none, or follows the formula of the idealised type asked for. With a vertical grid '
     'the number of levels and the depth agree, shallow and isolated cells are treated as the options say, and filtering keeps the land mask. Nothing depends on the number of processes, and inconsistent options give an error.',
     ['inputs', 'configurations'], 'ocean grids (also great-circle, cyclic, tripolar), source grids, types, missing values, scale factors, vertical grids, options for shallow, isolated and thin cells, all idealised types, process counts',
     'The tests run a few idealised types and one real topography and look at the exit status.',
     ['src/make-topog/make_topog.c', 'src/make-topog/topog.c', 'lib/libfrencutils/interp.c', 'lib/libfrencutils/create_xgrid.c'],
     [('means', 'create_realistic_topog, conserve_interp'), ('levels', 'process_topo'), ('filter', 'filter_topo'), ('idealised', 'create_gaussian_topog, create_bowl_topog, create_idealized_topog')],
     'ASan/UBSan execution (serial and MPI) with an independent mean, filter and level model as reference monitor',
     'Exploration over random grids, sources and options.',
     'checks/c22.py recomputes the overlap means with vlib/xg.py (straight or great-circle sides), and from the depths the tool wrote before level processing recomputes filter, levels, partial cells and isolated cells for random options. A partial cell may exceed its level when min_thickness is larger than the level.')

prop('C23', 'plevel interpolates every field to the pressure levels asked for',
     'For every hybrid-coordinate file each value plevel writes is the input interpolated linearly in the logarithm of pressure between the two model levels around it, missing (or extrapolated with -x) below the lowest level; heights and sea level pressures follow '
     'the hydrostatic formulas, and fields without levels, the axes and the selected times are copied unchanged. Missing values mark the same points before and after. A run that fails reports it and has no effect on the next one.',
     ['inputs', 'configurations', 'fault_sequences'], 'vertical coordinates with and without a zero top, level counts, surface pressures, packed and unpacked fields, missing lower levels, output levels, field lists, time selections, extrapolation and missing-value options, failing inputs',
     'The tests run the script on one file and look at the exit status.',
     ['src/plevel/plevel.sh.in', 'src/plevel/run_pressure_interp.F90', 'src/plevel/pressure_interp.F90', 'src/plevel/pinterp_utilities.F90', 'src/plevel/moisture_convert.F90'],
     [('script', 'plevel.sh'), ('interpolation', 'pres_interp_init, pres_interp'), ('heights', 'compute_height'), ('fields', 'copy_variable_information, read_variable, write_variable')],
     'bounds- and init-checked execution with a float64 reference interpolation as monitor',
     'Exploration over random files and options.',
     'checks/c23.py builds random model-level files, runs the script, and recomputes every interpolated value, the missing points, heights and sea level pressures; humidity extrapolated with -x (a lookup table) is not recomputed. Failing inputs must give a '
     'non-zero status, and the run after a failure in the same directory is compared like any other.')

prop('C24', 'make_quick_mosaic shares every cell exactly between land and ocean',
     'For every mosaic with a topography, a land fraction or a coupled mosaic, make_quick_mosaic gives each cell the land and ocean area its mask, fraction or land exchange cells say, land and ocean add up to the cell, and the masks and the three kinds of exchange files hold '
     'exactly these cells and areas. The coupler mosaic names the files that were written, the grids are copied unchanged, and inconsistent requests give an error and no coupler mosaic.',
     ['inputs', 'configurations'], 'mosaics of one and several tiles, topographies with depths or masks and sea levels, land fraction files, coupled mosaics with split exchange cells, directories, inconsistent requests',
     'The test makes one single-tile mosaic and looks for the files.',
     ['src/make-quick-mosaic/make_quick_mosaic.c', 'lib/libfrencutils/read_mosaic.c', 'lib/libfrencutils/create_xgrid.c'],
     [('areas', 'main'), ('exchange cells read', 'read_mosaic_xgrid_order1'), ('cell areas', 'get_grid_area')],
     'ASan/UBSan execution with recomputed land and ocean areas and a conservation monitor',
     'Exploration over random mosaics, masks and fractions.',
     'checks/c24.py builds mosaics, topographies, fraction files and coupled mosaics, recomputes the areas of every cell with vlib/xg.py and compares masks, exchange files, contacts and names; exchange areas must add up to the cells.')

prop('C25', 'make_regional_mosaic cuts exactly the region of the output out of its tile',
     'For every mosaic and regional output file the grid written is, bit for bit, the supergrid of the cells the file covers on the tile its name gives, and the regional mosaic names it. Index axes with gaps, regions that leave the tile and files of unknown tiles '
     'give an error and no mosaic.',
     ['inputs', 'configurations'], 'mosaics of several tiles, regions from one cell to the whole tile, axis types and rounding, directory names, inconsistent requests',
     'The test runs random regions of one grid and looks at the exit status.',
     ['src/make-regional-mosaic/make_regional_mosaic.c', 'lib/libfrencutils/mpp_io.c'],
     [('region', 'main')],
     'ASan/UBSan execution with a bitwise reference of the cut-out',
     'Exploration over random mosaics and regions.',
     'checks/c25.py gives every supergrid point a random position and compares the part written bit by bit; requests that must fail are generated as often as valid ones.')

prop('C26', 'make_land_domain lists every land point once with its number of tiles',
     'For every coupled mosaic and land restart the domain file lists, face by face in grid order, exactly the points that the land exchange grid gives a positive area, each with the number of tiles the restart holds there. '
     'A restart whose points differ from the mask, and faces of different size, give an error and no file.',
     ['inputs', 'configurations'], 'mosaics of one and several faces, land masks, exchange files in pieces and with names that contain each other, restart orders and tile counts, inconsistent requests',
     'No test runs this tool.',
     ['src/make-land-domain/make_land_domain.c', 'lib/libfrencutils/read_mosaic.c'],
     [('mask, packing', 'main'), ('exchange cells', 'read_mosaic_xgrid_order1')],
     'ASan/UBSan execution with an exact reference of mask, order and counts',
     'Exploration over random masks and restarts.',
     'checks/c26.py writes random masks as exchange grids and random restarts and compares the three arrays exactly; restarts that disagree by one point must be refused.')


prop('C27', 'river_regrid gives a network that ends, conserves area and follows the source',
     'For every source river network and land grid each full land cell drains to the neighbour with the largest source drainage area (coast and ocean first, but large rivers stay on land), following tocell always ends at an outlet, and travel, basin and subA are the steps, outlet and accumulated land area of that network, with basins numbered by decreasing area. '
     'Cell areas and lengths are those of the cells and links, ocean cells hold missing values and land cells never do; the same holds across cyclic boundaries and the edges of a cube. '
     'Inconsistent masks, grids and sources give an error and no file.',
     ['inputs', 'configurations'], 'source networks with ties, missing points and several missing values, land masks from exchange grids and mask files, thresholds, cubes, cyclic, torus, regional and many-tile mosaics',
     'No test runs this tool; whether a network ends and conserves area depends on the whole mask.',
     ['src/river-regrid/river_regrid.c', 'lib/libfrencutils/read_mosaic.c', 'lib/libfrencutils/create_xgrid.c'],
     [('flow directions', 'calc_max_subA, calc_tocell'), ('travel, basin, area', 'calc_river_data, sort_basin'), ('boundaries', 'update_halo_double'), ('land fraction', 'get_mosaic_grid')],
     'ASan/UBSan execution with a graph monitor over the written network and a reference of the neighbour rule',
     'Exploration over random networks and masks.',
     'checks/c27.py follows every written flow direction over a topology built from the corner coordinates and compares steps, outlets and accumulated areas; flow directions are compared with the rule on reference overlaps wherever these are unambiguous.')


prop('C28', 'fregrid fills missing points and interpolates levels as documented',
     'With --extrapolate every valid source point keeps its value and every missing one is filled with a value that agrees with the average of its neighbours to the stopping criterion (on at most 4000 steps) and lies within the range of the data, across cyclic boundaries and at the edges of the grid; fields without a missing value are not changed. '
     'With --dst_vgrid each level written is the linear interpolation of the source levels around it, or the nearest one beyond the first or last. '
     'This holds for every record, hour, type and output tile and any number of processes; target cells without source hold the missing value.',
     ['inputs', 'configurations'], 'global and regional lon-lat grids, missing patterns, types and packing, records, levels, target grids and tiles, vertical grids inside, across and outside the source levels, stopping criteria, process counts',
     'No test runs these options.',
     ['src/fre-grid/fregrid.c', 'src/fre-grid/fregrid_util.c', 'src/fre-grid/conserve_interp.c', 'lib/libfrencutils/interp.c'],
     [('filling', 'do_extrapolate, fill_boundaries'), ('levels', 'setup_vertical_interp, do_vertical_interp, linear_vertical_interp'), ('reading', 'get_input_data')],
     'ASan/UBSan execution with monitors of the Laplace residual and of the interpolated values',
     'Exploration over random fields and grids.',
     'checks/c28.py regrids fields onto their own grid to see the filled values and evaluates the discrete equation there, then checks other targets and levels against the average and interpolation of what was seen.')

prop('C29', 'remap_land moves whole tiles of the nearest source cell to the new grid',
     'Every cell of the new restart that has soil, glacier or lake in the cold restart gets all soil tiles of the nearest source cell with soil, and the glacier and lake tile of the nearest source cells that have one, numbered consecutively in that order; no other tile appears. '
     'All variables of a tile (levels, cohorts, carbon pools, tags) come unchanged from that one source tile, soil fractions are scaled to the total of the cold restart and glacier and lake fractions kept, for every file type, number of faces and processes and record; a remap file reproduces the result. '
     'Inconsistent files, or cells needing more tiles than the source restart has, are refused.',
     ['inputs', 'configurations'], 'source and target grids of one or six faces, tile populations, file types, variables and dimensions, cohorts, records, empty faces, remap files, process counts',
     'No test runs remap_land.',
     ['src/remap-land/remap_land.c', 'lib/libfrencutils/read_mosaic.c'],
     [('search', 'full_search_nearest'), ('tiles', 'get_land_tile_info, compress_int_data, compress_double_data'), ('cohorts', 'compute_dst_coho_idx')],
     'ASan/UBSan execution; every source tile carries an identity that the monitor traces through the output',
     'Exploration over random restarts.',
     'checks/c29.py writes restarts in which each tile and cohort has an identity, runs remap_land for the file type and traces each entry of the output to its source tile: nearest cell, order, numbering, fractions and all other variables are compared with that tile.')

prop('C30', 'fregrid bilinear gives the weighted mean of the cells around each point',
     'With --interp_method bilinear every target point gets the weighted mean of the four cell centres of the cubed sphere around it (three at a corner of the cube), weights that sum to one and reproduce a cell centre exactly; with --finer_step the mean of such values over the finer points around it. '
     'Vectors are rotated from the grid directions of each cell to east and north before they are interpolated, missing cells are skipped as --fill_missing asks, and stored weights give the same result as computed ones. '
     'This holds for every cube (plain, shifted, stretched), global, regional or date-line crossing target, record and level.',
     ['inputs', 'configurations'], 'cube sizes, shifts and stretching, target boxes and sizes, finer steps, centre placement, missing patterns, types, records, levels, scalars and vectors, stored weights',
     'No test runs the bilinear method.',
     ['src/fre-grid/bilinear_interp.c', 'src/fre-grid/fregrid.c', 'src/fre-grid/fregrid_util.c', 'lib/libfrencutils/mosaic_util.c'],
     [('search', 'setup_bilinear_interp, get_index, get_closest_index'), ('values', 'do_scalar_bilinear_interp, do_vector_bilinear_interp'), ('refinement', 'redu2x, do_latlon_coarsening')],
     'ASan/UBSan execution with an independent interpolation on the sphere as monitor',
     'Exploration over random cubes, targets and fields.',
     'checks/c30.py finds, with its own search over all quadrangles of cell centres, the cells around each target point, and compares every written value with their weighted mean; points on a border of quadrangles may take either side.')

prop('C31', 'transfer_to_mosaic_grid carries an old grid file over to a mosaic unchanged',
     'For every old-style grid file (ocean only or coupled, with the positions, lengths and angles it has under any of their accepted names) the mosaic grid files hold the same vertices, lengths, angles, levels, depths and exchange cells at their places, with areas of the vertices in square metres. '
     'The mosaics name these files and list the contacts of the cyclic or folded grid in supergrid indices of its own size. '
     'The old file is not changed, and one that lacks a needed field is refused with a non-zero exit.',
     ['inputs', 'configurations'], 'grid sizes, types, optional fields and their names, boundary types, exchange grids of both orders, directories, missing fields',
     'No test runs transfer_to_mosaic_grid.',
     ['src/transfer-mosaic-grid/transfer_to_mosaic.c', 'lib/libfrencutils/mpp_io.c'],
     [('ocean grid', 'main: ocean_hgrid'), ('exchange grids', 'main: atmosXland, atmosXocean, landXocean'), ('contacts', 'main: ocean_mosaic')],
     'ASan/UBSan execution with the supergrid the old file was cut from as monitor',
     'Exploration over random grids and fields.',
     'checks/c31.py cuts a random supergrid and random exchange cells into the fields of an old grid file and compares every value, name and contact of the converted files with the originals.')
