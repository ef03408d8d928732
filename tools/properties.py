"""Source of properties.jsonl (run: python3 tools/properties.py)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None,
         observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = [observe]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('P01', 'Frame discovery reads exactly the consecutive run of numbered files',
     'For any set of files on disk and any begin, end, extension, bundle size and rolling choice, the frames read are exactly the longest run of consecutively numbered files starting at begin and not passing end, each once and in order. '
     'Bundles are exactly the complete windows of that run (side by side, or sliding by one when rolling), an incomplete last bundle being dropped. '
     'The output number paired with a single frame is that frame\'s number; bundles are numbered consecutively from begin divided by the bundle size rounded up, or from begin when rolling.',
     ['inputs', 'configurations'],
     'All subsets of present files x begin x end x bundle size x rolling x extension, with decoy files, up to the bound.',
     'The tests use contiguous files and a few begin/end values; gaps, partial bundles at a limit, rolling windows over gaps and number widths are combinations no example set covers.',
     ['strata/utils.py'],
     [('consecutive scan and bundling', 'strata/utils.py:find_datamap_files'),
      ('pairing with output names', 'strata/utils.py:find_singles_to_singles, find_groups_to_singles')],
     observe='paths and pairs yielded')

prop('P02', 'Writing a result never destroys a file that was already there',
     'Whatever files exist when a result is written to a path, every earlier file keeps its content: one standing at the path is moved, unchanged, to the lowest-numbered backup name of the form #name.N# that is free, in the same directory, and nothing else is touched. '
     'The new result stands complete at the requested path, missing directories being created. '
     'This holds for every kind of data file the tools write (figures excepted) and for any sequence of runs writing to the same paths.',
     ['histories', 'inputs'],
     'All sequences of writes (map files, interface, spreading, fit, sample, angle outputs) up to the depth bound, from all initial patterns of pre-existing target and backup files and directories.',
     'The tests back up one or two files in an otherwise empty directory; holes in the backup numbering, nested paths and mixed histories of several tools are not sampled.',
     ['strata/utils.py', 'strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/simple/write.py', 'strata/interface/collect.py', 'strata/spreading/collect.py', 'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/sample_average.py', 'strata/interface/sample.py', 'strata/interface/angle.py'],
     [('back up and create directory before writing', 'strata/utils.py:prepare_path')],
     observe='directory tree contents before and after each write')

prop('P03', 'A sparse flow map survives being written and read back',
     'For every grid shape, origin, spacing and pattern of empty and filled bins, including maps with very few or no filled bins, reading back a map written in the sparse flow format returns every filled bin with its own values at its own position, all other bins empty, on the same regular grid. '
     'Any two maps that differ in a filled bin read back as different maps.',
     ['inputs'],
     'All occupancy patterns of all grid shapes up to the bound, x origin/spacing/value assignments from the alphabet.',
     'The tests write 2 x 2 random maps that are completely filled; the file is short or long relative to read buffers and the sparse index lists only matter for patterns that are not sampled.',
     ['strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/gmx_flow_version_1/read.py', 'strata/dataformats/read.py', 'strata/dataformats/write.py'],
     [('sparse writer', 'strata/dataformats/gmx_flow_version_1/write.py:write_data'),
      ('header scan and scatter onto the grid', 'strata/dataformats/gmx_flow_version_1/read.py:read_data')],
     observe='fields and grid information returned for a file')

prop('P04', 'Simple map files are recognised and read back bin for bin',
     'For every grid shape, origin, spacing and assignment of values, a map written as simple binary or simple plain text is recognised as what it is and read back with every bin\'s values at that bin\'s position and with the right shape, spacing and origin. '
     'Recognition depends only on the file\'s content: no choice of values makes a binary map be parsed as text or a map of one format be taken for another.',
     ['inputs'],
     'All shapes up to the bound x origins x spacings x value alphabets chosen to make every byte pattern class (zeros, ASCII-range floats, negative, large) x three formats.',
     'The tests read two fixed files (one of which is missing) and one random map; format detection is a function of raw bytes and shape recovery of float coordinates, so it is the unsampled values that break it.',
     ['strata/dataformats/simple/read.py', 'strata/dataformats/simple/write.py', 'strata/dataformats/read.py', 'strata/dataformats/write.py'],
     [('text or binary decision', 'strata/dataformats/simple/read.py:read_data'),
      ('shape, spacing and origin recovery', 'strata/dataformats/simple/read.py:calc_information'),
      ('format guess', 'strata/dataformats/read.py:guess_read_module')],
     observe='fields and grid information returned for a file')

prop('P05', 'Converting a series of maps preserves every frame through any route',
     'Converting a file series produces exactly one output per input frame read, under the same number, in the requested format, with every bin\'s mass, number, temperature and flow unchanged and the bins in the same arrangement and spacing (bins without mass are empty in the sparse format). '
     'Any chain of conversions between the formats ends with the same bin values as the original series, and the input files are left as they were.',
     ['histories', 'inputs'],
     'All chains of conversions over the three formats up to the depth bound x frame-number sets x begin/end x map contents.',
     'The tests run two single conversions on random fully filled maps; chains, gaps in numbering and partially empty maps are not sampled.',
     ['strata/convert.py', 'strata/dataformats/read.py', 'strata/dataformats/write.py'],
     [('per-frame read and write', 'strata/convert.py:convert')],
     observe='output files, read back')

prop('P06', 'Averaging maps gives the mean mass and the momentum-weighted flow',
     'The average of a bundle of maps holds, bin by bin, the arithmetic mean of mass and number, the mass-weighted mean flow and the number-weighted mean temperature, with zero where the weights vanish; total mass and momentum of the bundle are conserved. '
     'The result does not depend on the order of the maps, is the map itself for identical maps, and each output file depends only on the frames of its own bundle, for any bundle size, rolling or not; maps whose bins are in different positions are refused.',
     ['inputs', 'histories'],
     'All assignments of the small value alphabet to bins of up to three maps; all series lengths x bundle sizes x rolling through the complete file pipeline.',
     'The unit tests average random positive data whose oracle is the same formula; zero weights, cancelling flows, order and leakage between bundles are not exercised.',
     ['strata/average.py', 'strata/dataformats/simple/average.py'],
     [('weighted means', 'strata/dataformats/simple/average.py:average_data'),
      ('bundle loop', 'strata/average.py:average')],
     observe='averaged output files and arrays')

prop('P07', 'Every averaging option writes a map that is right in values and position',
     'With any combination of limiting the system along x and y, combining bins, supersampling and recentring, averaging completes and the written map is on the grid those options define, each output bin holding the physical average of exactly the input bins that cover it. '
     'Bin positions in the output are the true positions of the averaged bins (shifted only by the recentring asked for), and asking for no progress output changes nothing in the result.',
     ['configurations', 'inputs'],
     'All combinations of option values (limits, combine factors, supersample factor, recentre mode, quiet) x small maps x bundle sizes.',
     'No test runs the averaging command with any of these options; they interact through the grid information that is passed to the writer.',
     ['strata/average.py', 'strata/dataformats/simple/average.py', 'droplets/resample.py'],
     [('option pipeline', 'strata/average.py:average, cut_system, recenter_maps')],
     observe='output files read back: positions, shape and values')

prop('P08', 'Combining bins conserves mass, number, momentum and thermal content',
     'When bins are combined in blocks, each new bin holds the sum of mass and number of its block, the mass-weighted mean flow and the number-weighted mean temperature (zero for a block without weight), at the centre of its block; whatever does not fill a block is cut at the high end. '
     'Over an evenly divided grid total mass, number, momentum and temperature content are unchanged, and combining in two steps equals combining once by the product.',
     ['inputs'],
     'All grid shapes x block sizes up to the bound x all assignments of the value alphabet on small grids, for both combining routines, any bin order.',
     'The tests combine single examples into one or two blocks; divisibility, empty blocks, non-square blocks and composition are universally quantified.',
     ['strata/dataformats/simple/average.py', 'droplets/resample.py'],
     [('block combination on files', 'strata/dataformats/simple/average.py:combine_bins'),
      ('block combination on flow objects', 'droplets/resample.py:downsample_flow_data')],
     observe='returned data and grid information')

prop('P09', 'Supersampling refines the grid without inventing values',
     'Supersampling by n splits every bin into n by n bins on a grid of the same extent with 1/n the spacing, a factor of one or none giving the same map; each new bin is the mean (weighted where asked, zero for zero weight) over its neighbourhood of split bins reaching n-1 bins each way, clipped at the border. '
     'Hence a uniform field stays uniform, every value stays between the extremes of the original bins it can see, the result does not depend on the order of the input bins, and the input map is left untouched.',
     ['inputs'],
     'All shapes x factors x value assignments on small grids x bin orders x weightings up to the bound.',
     'The tests check hand-computed cases of one or two grids; borders, non-square grids and weighting with zero weight are sampled once or not at all.',
     ['droplets/resample.py'],
     [('bin splitting and smoothing', 'droplets/resample.py:supersample_flow_data')],
     observe='returned flow object')

prop('P10', 'Averaging flow objects on different grids places every bin correctly',
     'Averaging flow maps that share a bin spacing but cover different areas gives a map on the smallest common grid where each bin is the mean over all maps with absent bins counted as empty, weighted quantities being weighted by their weights; maps of different spacing are refused. '
     'No bin is moved, lost or duplicated whatever the relative offset of the maps, the result is independent of their order, empty maps can be excluded without effect on the rest, and the inputs are left untouched.',
     ['inputs'],
     'All pairs and triples of map placements, shapes and contents up to the bound x weight lists x empty-set handling x order of the maps.',
     'The tests average maps on a couple of fixed offsets; index arithmetic on float coordinates has to be right for every offset, sign and spacing.',
     ['droplets/average.py'],
     [('common grid and projection', 'droplets/average.py:get_combined_grid, transfer_data'),
      ('averaging', 'droplets/average.py:average_flow_data')],
     observe='returned flow object')

prop('P11', 'Operations on a flow object never alter the object they start from',
     'Selecting, limiting, cutting, translating and copying return new objects holding exactly the requested bins and values, whatever sequence of such operations came before, and later changes to either object never show in the other. '
     'Sorting reorders bins without changing any record, operations that select distinct limits commute, and grid information always agrees with the bins actually held or is unset.',
     ['histories'],
     'All sequences of operations up to the depth bound from the operation alphabet, from several start maps, against a list-of-records model, checking all earlier objects after every step.',
     'The tests apply each operation once; aliasing and stale grid information need sequences of operations and re-checking of older objects.',
     ['droplets/flow.py', 'droplets/data_utils.py'],
     [('copy, lims, cut, sort, translate', 'droplets/flow.py:FlowData'),
      ('index selection', 'droplets/data_utils.py:get_lim_indices')],
     state=[('flow object', 'record array plus grid information', 'droplets/flow.py:FlowData.data, _info')],
     observe='records and grid information of every live object')

prop('P12', 'The droplet interface is the outermost qualifying bin of every layer',
     'For every map, the interface found from outside in has one entry per layer containing a qualifying bin, from bottom to top within the height limits, whose left and right members are the qualifying bins with least and greatest x of that layer; a bin qualifies if its value reaches the cut-off and at least the required number of other such bins lie within the search radius. '
     'The cut-off defaults to midway between the extreme values and the radius to the smallest bin distance, a uniform map has no interface, and the result does not depend on the order in which bins are stored.',
     ['inputs'],
     'All filled/empty patterns of all grids up to the bound x radius x required neighbours x cut-off x height limits x storage orders.',
     'The tests use a handful of drawn droplets; whether a bin qualifies depends on its whole neighbourhood, so only enumeration of patterns covers it.',
     ['droplets/interface.py'],
     [('outside-in search', 'droplets/interface.py:get_interface'),
      ('neighbour criterion', 'droplets/interface.py:_cell_is_droplet')],
     observe='yielded bin positions per layer')

prop('P13', 'The periodic interface search finds the longest connected stretch',
     'With the periodic search, the entry of a layer is the left and right end of its longest unbroken run of qualifying bins on the periodic ring, neighbours being counted across the x boundary; a full layer is reported from its first to its last bin and an empty layer not at all. '
     'Of equally long stretches the one starting furthest left is taken, and the search radius is less than half the box. Shifting the map periodically shifts the interface with it, and neither the position of the box along x nor the storage order of the bins changes the result.',
     ['inputs'],
     'All filled/empty patterns of all grids up to the bound x radius x required neighbours x all periodic shifts x box offsets x storage orders.',
     'The tests place a droplet on the boundary a few times; wrap-around runs, ties, neighbour counting across the boundary and shifted boxes need all patterns and all shifts.',
     ['droplets/interface.py'],
     [('ring search', 'droplets/interface.py:get_interface')],
     observe='yielded bin positions per layer')

prop('P14', 'Edges are followed across the periodic boundary for any trajectory',
     'Following the left and right edge of a droplet through any history of moves in which at most one edge wraps per frame, the reported absolute positions move exactly as the true unwrapped edges do, for edges travelling any number of times around the box in either direction. '
     'The left edge is never reported to the right of the right edge and the width never differs from the true width by a multiple of the box.',
     ['histories'],
     'All edge trajectories (state graph of wrapped positions and crossing counts) up to the depth and position bounds, for several box sizes and grid offsets.',
     'The tests step through a few hand-made crossings; the tracker is a state machine whose errors show only after particular sequences of crossings.',
     ['strata/spreading/collect.py'],
     [('crossing detection', 'strata/spreading/collect.py:check_and_update_periodic_info'),
      ('unwrapping', 'strata/spreading/collect.py:add_pbc_multipliers_to_edges')],
     state=[('PeriodicInfo', 'previous wrapped edges and crossing multipliers', 'strata/spreading/collect.py:PeriodicInfo')],
     observe='absolute edge positions per frame')

prop('P15', 'Spreading collection reports true radii and times in every run',
     'Collecting the spreading of a file series gives, for each frame in which the droplet touches the chosen layer, half the distance between its true (periodically unwrapped) edges in that layer, with times counted from the given start in steps of dt beginning at the first such frame; the chosen layer is the first one above the floor, or the lowest one found. '
     'The written file carries the same numbers under a header naming the impact frame and its time, and every run in a process gives the same result and file however many runs went before.',
     ['histories', 'inputs'],
     'All droplet histories (impact frame, positions with periodic wrapping, widths) up to the bound x floor x begin/end x dt, and all sequences of two and three collections in one process.',
     'The tests collect once or twice from synthetic series and never look at a second run in the same process; the impact header depends on state kept between calls.',
     ['strata/spreading/collect.py'],
     [('frame loop', 'strata/spreading/collect.py:collect'),
      ('floor layer', 'strata/spreading/collect.py:get_spreading_edges')],
     state=[('impact flag', 'whether the impact header was written', 'strata/spreading/collect.py:write_spreading.impact')],
     observe='returned arrays and the written file')

prop('P16', 'Interface collection follows every layer through time',
     'Collecting interfaces writes for every frame one closed-ended outline, left side bottom-up then right side top-down, with heights counted from its lowest layer and x positions equal to the true unwrapped edges of each layer, also when layers appear at or vanish from the top or bottom between frames and edges cross the periodic boundary; the header of each outline names the file it was collected from. '
     'Recentring shifts the outline rigidly so that its base is centred on zero, or its mass centre is at zero, and changes nothing else.',
     ['histories'],
     'All frame histories over layer ranges and per-layer edge moves up to the bound, for every recentring mode, spacing and box.',
     'The tests check single frames and one transfer of layer memory; remapping of layer memory between changing height ranges is a history property.',
     ['strata/interface/collect.py'],
     [('layer memory', 'strata/interface/collect.py:transfer_values, fill_pbc_info_for_empty_y_values'),
      ('outline assembly', 'strata/interface/collect.py:get_interface_coordinates')],
     state=[('per-layer periodic info', 'edge memory per height', 'strata/interface/collect.py:pbc_info_per_y')],
     observe='outline files per frame')

prop('P17', 'Contact line extraction returns exactly the box-to-interface region',
     'The cells extracted for each side of the droplet are exactly those in the layers from the lowest interface layer up to the highest one not above the extraction height that lie between the innermost and outermost of the interface positions and the inner edge of the extraction box; the box is anchored at the interface at the synchronisation height. '
     'Left and right are mirror images of each other under mirroring of the map, cells keep their values and the source map is untouched, and moving the cells to the origin is undone by adding the reported adjustment.',
     ['inputs'],
     'All droplet patterns on grids up to the bound x extraction areas x synchronisation heights x interface options.',
     'The tests extract from one rectangular and one sloped droplet; the region depends on the whole interface outline.',
     ['droplets/contact_line.py'],
     [('region selection', 'droplets/contact_line.py:get_contact_line_cells'),
      ('moving to the origin', 'droplets/contact_line.py:adjust_cell_coordinates')],
     observe='returned cells')

prop('P18', 'Contact line averages over files keep each side in its right place',
     'Extracting the contact line from a file series writes one map per complete bundle (side by side or rolling) in which each side\'s bins hold the weighted average of the bundle\'s extracted bins aligned at the contact line, placed at the mean contact line position, or symmetrically around zero when recentred. '
     'Sampling the contact line gives for each bundle the value averaged or summed over both sides with the left side\'s x flow mirrored, at the bundle\'s mid time, and a bundle never sees frames of another bundle; suppressing progress output changes nothing.',
     ['histories', 'configurations'],
     'All small droplet series x bundle size x rolling x recentre x fuse x labels x mean/sum x quiet.',
     'No test runs either contact line command; both depend on bundle bookkeeping and on coordinates adjusted twice.',
     ['strata/contact_line_analysis.py', 'droplets/average.py', 'droplets/contact_line.py'],
     [('bundling', 'strata/contact_line_analysis.py:get_grouped_data'),
      ('averaging and placing', 'strata/contact_line_analysis.py:get_averaged_contact_line_edges, combine_flow_data')],
     observe='output map files, sampled values and times')

prop('P19', 'Sampled flow quantities equal their definitions on every map',
     'On every map the sampled centre of mass, kinetic energy, viscous dissipation and flow angle equal their textbook definitions bin by bin or in total: dissipation is exact for linear and quadratic flow fields and zero for rigid translation, and results follow rotations, mirrorings and scalings of the map as the quantity does. '
     'No result depends on the order in which bins are stored, and apart from a documented reordering of bins the map sampled from keeps all its records.',
     ['inputs'],
     'All polynomial flow fields with coefficients from the alphabet x grid shapes x unequal spacings; all value assignments on tiny grids x storage orders.',
     'The tests check single fields on square grids with particular spacings; sign, axis and spacing mix-ups cancel on symmetric examples.',
     ['droplets/sample.py'],
     [('dissipation', 'droplets/sample.py:sample_viscous_dissipation'),
      ('centre of mass, energy and angle', 'droplets/sample.py:sample_center_of_mass, sample_inertial_energy, sample_flow_angle')],
     observe='returned arrays')

prop('P20', 'Angular sampling puts every bin in exactly one right sector',
     'Sampling per angle around a point puts each bin within the radius limits and angle limits into exactly the sector of half-open angular intervals that contains its direction, counted counter-clockwise from the positive x axis, and reports for each sector the (weighted) mean of its bins or zero for none; a bin at the point itself has no direction and is in no sector of its own. '
     'The reported sectors start at the lower angle limit and cover the requested range, for any sector size, origin and limits.',
     ['inputs', 'configurations'],
     'All small sets of bins on the lattice around the origin x origins x sector sizes x angle and radius limits x weights.',
     'The tests sample a few sector sizes on one grid; boundaries of sectors and limits are exactly where rounding decides.',
     ['droplets/sample.py'],
     [('sector histogram', 'droplets/sample.py:sample_per_angle_from')],
     observe='returned sector record')

prop('P21', 'Sampling files gives each label its own value whatever else is sampled',
     'Sampling any list of quantities from a file series returns and writes, for each frame in order at times of step dt, the mean (with spread) or sum of each quantity over exactly the bins inside the coordinate limits whose cut-off quantity, if one is chosen, reaches the cut-off, which defaults to midway between its extremes. '
     'The printed summary gives the mean and standard deviation of each returned series. The value of a quantity is the same whichever other quantities are asked for and in whatever order, and a slip length is the exact wall distance at which a linear velocity profile vanishes.',
     ['histories', 'configurations'],
     'All ordered lists of labels up to length three x cut-off settings x limits x mean/sum x small maps and series.',
     'Only the slip length of ready-made profiles is tested; the command itself, its cut-offs, and interference between labels sampled from one shared map are not.',
     ['strata/sample_average.py', 'droplets/sample.py'],
     [('label loop on a shared map', 'strata/sample_average.py:sample_average_files'),
      ('cut-off and statistics', 'strata/sample_average.py:sample_value, sample_slip_length')],
     observe='returned lists, the written file and the printed summary')

prop('P22', 'Averaged interfaces are the layer-wise mean of the frames averaged',
     'Viewing interfaces in bundles returns and writes, for each complete bundle, an outline whose left and right x at each height is the mean of the bundle\'s outlines at that height, for the heights all of them have, ordered left side bottom-up then right side top-down. '
     'A bundle of one is the outline itself, order within a bundle does not matter, written outlines read back the same, and output numbering follows the bundles. Outlines which are taken apart into edges, put in tables by height or stitched together from their edges keep every point.',
     ['inputs', 'histories'],
     'All sets of up to three outlines over small height ranges and x alphabets x bundle size x series length x output writing.',
     'The tests average two fixed outlines in memory; heights missing in one frame, saving, and series of bundles are not covered.',
     ['strata/interface/view.py', 'strata/interface/collect.py'],
     [('layer-wise mean', 'strata/interface/view.py:average_interfaces'),
      ('bundle loop', 'strata/interface/view.py:view_interfaces')],
     observe='returned coordinates and written outlines')

prop('P23', 'Area, length and contact angles of an outline are geometrically exact',
     'For every outline file the reported area is that of the enclosed polygon, the length is the sum of its segments, and contact angles are the inclination of the edges between the base and the layer nearest the measuring height, or that of the circle segment through base and top; shifting or mirroring the outline changes no area or length and swaps the left and right angle. '
     'Times advance by the given step per frame and the written file repeats the returned numbers.',
     ['inputs'],
     'All outlines over small height ranges and x alphabets, all shifts and mirrorings, series of outlines, measuring heights and output options.',
     'The tests compute one area and one length; angles of outlines are not tested at all.',
     ['strata/interface/sample.py', 'strata/interface/angle.py'],
     [('area and length', 'strata/interface/sample.py:get_area_of_interface, calc_length'),
      ('angles', 'strata/interface/angle.py:measure_angle, fit_angle_from_segment')],
     observe='returned lists and written files')

prop('P24', 'Spreading curves keep their data through scaling, syncing and files',
     'Scaling divides every curve\'s times and radii by its factor and nothing else; synchronising shifts each curve rigidly in time so that all pass the chosen radius at the same time, that of the earliest; both leave the curves they were given unchanged. '
     'Curves written to a file read back the same, any number of curves and points, and a power-law fit returns amplitude and exponent of an exact power law for any limits containing data, using only the points inside the limits.',
     ['inputs', 'histories'],
     'All small sets of curves x scaling factors (shared or per curve) x sync radii x write/read cycles; all power laws over the parameter alphabet x limits.',
     'The tests scale and sync one pair of files; number of curves and points, repeated write/read and the whole fitting module are not exercised.',
     ['strata/spreading/view.py', 'strata/spreading/fit.py'],
     [('scaling and syncing', 'strata/spreading/view.py:scale_spreading_data, sync_time_at_radius'),
      ('file format', 'strata/spreading/view.py:write_spreading_data, read_spreading_data'),
      ('fit', 'strata/spreading/fit.py:get_fitting_parameters')],
     observe='returned curves, parameters and files')

prop('P25', 'Every command runs to completion and does what its library call does',
     'Each command line command, with any combination of its documented options on a valid series, exits successfully and leaves the same output files as the corresponding library call with those options, with open-ended limits when none are given. It draws the same figures, and prints the results which that call returns where it is asked to print them.',
     ['configurations'],
     'All commands x all combinations of their option alphabets up to pairs (or complete products where small).',
     'No test invokes the command line at all; option plumbing, defaults and post-processing of results are configuration properties.',
     ['strata/strata.py'],
     [('commands', 'strata/strata.py')],
     observe='exit status, output files, figures and printed results')

prop('P26', 'A failing run loses nothing that existed and leaves finished frames whole',
     'If any single file operation fails, or a frame is unreadable, at any point of a conversion, averaging or collection run, then every file that existed before still exists with its content (in place or under its backup name), no input is altered, and every output finished before the failure is complete and correct. '
     'Running again once the fault is gone gives the full correct result.',
     ['fault_sequences', 'crash_points'],
     'Every file-system operation of each run as the failing one (error before or after a partial write), and process death at each operation, over several initial directory states; every frame as the damaged one.',
     'No test injects a failure; the number of failure points grows with frames and tools.',
     ['strata/utils.py', 'strata/convert.py', 'strata/average.py', 'strata/interface/collect.py', 'strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/simple/write.py'],
     [('backup by rename before writing', 'strata/utils.py:prepare_path'),
      ('frame by frame output', 'strata/convert.py:convert')],
     observe='directory tree after the failure and after the re-run')

prop('P27', 'Density-gradient fields and drawn maps show the data that is in the map',
     'Derived fields drawn in maps equal their definitions on every grid, the spacing along x used for x derivatives and the one along y for y derivatives, exact for linear densities and independent of bin storage order. '
     'Height maps, contours, arrows and stream lines are drawn from exactly the bins that pass limits and cut-off, each at its own position with its own value; no contour line is drawn at a value beyond the limits set for contour values.',
     ['inputs', 'configurations'],
     'All linear and quadratic density fields x grid shapes x unequal spacings x storage orders; all small maps x cut-off and limit settings, observed at the plotting calls.',
     'The tests use equal spacings along x and y for gradients; nothing checks what is handed to the plotting library.',
     ['strata/view_flowmap.py', 'droplets/flowfield.py'],
     [('gradients', 'strata/view_flowmap.py'), ('drawn data', 'strata/view_flowmap.py')],
     observe='derived fields and arguments of plotting calls')

prop('P28', 'Contact angles of a droplet map follow from its interface',
     'The left and right contact angles reported for a map are the inclinations, measured through the liquid, of the lines from the edges of the base layer to the edges of the highest interface layer not more than the measuring height above it, and are swapped by mirroring the map. '
     'With a floor given, no angle is reported unless the interface has its base in that layer; without layers above the base in reach, nothing is reported and nothing fails.',
     ['inputs'],
     'All droplet patterns on grids up to the bound x measuring heights x floors x interface options, with all mirror images.',
     'The tests measure two droplets; the angle depends on which layers the interface has within reach, including none.',
     ['droplets/interface.py'],
     [('angle from interface', 'droplets/interface.py:get_contact_angle')],
     observe='returned angles')

prop('P29', 'A map file that is cut short is refused and never read as another map',
     'Reading any proper beginning of a sparse flow map file, wherever it ends, fails, and so does reading a simple binary file which ends within a bin; a stored bin whose index is outside of its grid is refused, not moved onto the grid. '
     'No tool writes a result for a frame that is cut short, and the results of the frames before it are those of the whole series.',
     ['inputs', 'crash_points'],
     'Every length of every file of all filled/empty patterns of small grids, in several field orders and header lengths, and every length of every frame of a series through every tool that reads maps.',
     'The tests read complete files only; where a file ends relative to its header, its buffers and its columns decides what a reader makes of it.',
     ['strata/dataformats/gmx_flow_version_1/read.py', 'strata/dataformats/simple/read.py', 'strata/dataformats/read.py'],
     [('header and value reading', 'strata/dataformats/gmx_flow_version_1/read.py:read_header, read_values'),
      ('simple binary reading', 'strata/dataformats/simple/read.py:read_binsimple'),
      ('format guess', 'strata/dataformats/read.py:guess_read_module')],
     observe='exception from reading, and output files of the tools')

prop('P30', 'Text results state what they were made from and with which settings',
     'Every text file of results (spreading data and fits, interfaces, sampled lengths and areas, contact angles, contact lines, sampled quantities) begins with comment lines which name the module that made it and, in full, what it was made from: the input files of that file, or the resolved base path with the first and last frame asked for. '
     'The last comment before columns of data names them in order, and files of several curves hold one named set for each of them. '
     'They state the settings of that run, those given and the defaults of those not given: time step, floor or measuring height, cut-off value and label, search radius, number of bins, averaging, recentring, fit and drawing limits, fitted parameters. '
     'What is stated does not depend on earlier runs in the process; everything which is not data is marked as a comment, so that reading the file gives just the data.',
     ['configurations', 'inputs', 'histories'],
     'The complete product of option values of nine tools, run one after another in one process, with input paths given absolute, relative and through a link.',
     'The tests look at one header or none; what is stated depends on each option given or left out and on what was run before.',
     ['strata/utils.py', 'strata/spreading/collect.py', 'strata/spreading/fit.py', 'strata/interface/sample.py', 'strata/interface/angle.py', 'strata/interface/collect.py', 'strata/contact_line_analysis.py', 'strata/sample_average.py'],
     [('module header', 'strata/utils.py:write_module_header'),
      ('tool headers', 'strata/spreading/collect.py, strata/spreading/fit.py:write_fitting_data, strata/interface/angle.py:write_angle_data, strata/interface/sample.py:write_header')],
     observe='comment lines of written files')

prop('P31', 'Figures show the data of their own run with the options asked for',
     'Each drawing tool draws one figure for each of its results, which holds exactly the curves of its own run: spreading curves (scaled if asked), fits with their parameters in full in the legend, interface outlines, areas, lengths or angles against time; or exactly its map. '
     'Title, axis labels, limits (each side of them alone), logarithmic scales, legend, axes, colour map, limits of the colours, colour bar with its label, ticks and texts are those asked for, otherwise the defaults of the tool. '
     'A figure is shown if that is asked for and saved to the path asked for, whether it is shown or not, with the resolution, size in pixels and background asked for; figures of a series are numbered like the bundles of files they are drawn from. Arrows of a record are those of its bins, by the labels asked for. '
     'Nothing in a figure comes from figures drawn before it in the process, except for curves of a figure which was asked not to be cleared.',
     ['configurations', 'histories'],
     'All single options and pairs of options of twelve tools; all ordered pairs of tools with options set on either of them; all settings of saved images.',
     'The tests do not look at figures; drawing keeps global state (current figure, colour map, keyword arguments) which carries over in combinations that no test draws.',
     ['strata/utils.py', 'strata/spreading/view.py', 'strata/spreading/fit.py', 'strata/interface/view.py', 'strata/interface/sample.py', 'strata/interface/angle.py', 'strata/view_flowmap.py'],
     [('options of figures', 'strata/utils.py:decorate_graph'),
      ('drawing of curves', 'strata/spreading/view.py:plot_spreading_data, strata/spreading/fit.py:plot_fitting_data'),
      ('drawing of outlines', 'strata/interface/view.py:view_interfaces, plot_interface_data'),
      ('drawing of maps', 'strata/view_flowmap.py:height, contour, plot_quiver, plot_streamlines')],
     state=[('current figure', 'figure which the next tool draws into', 'strata/utils.py:decorate_graph')],
     observe='figures as shown, image files as saved')

prop('P32', 'What comes of a frame depends on that frame, not on the rest of its series',
     'Every tool which works frame by frame (conversion, averaging with bundles of one, contact line extraction and sampling, sampling of quantities, of lengths, areas and angles, interface collection and viewing, drawing of maps) gives for each frame of a series what it gives for that frame alone: the same file, row or figure, wherever the frame stands, whichever frames with other contents, grids or file formats come before or after it. '
     'Cut-offs, floors, centers and colour limits which are not given are taken from each frame itself. Results of bundles, plain or rolling, depend on the frames of the bundle only. '
     'Choosing the first and last frame gives the results of just those frames. Only times and radii count from the start and impact of the series, and positions follow droplets across the periodic boundary.',
     ['inputs', 'histories'],
     'All series up to length 3 (4) over alphabets of up to 6 kinds of frames, with all beginnings and ends, for 32 ways of running the tools, and all bundles of two out of series of four frames.',
     'The tests run series of equal frames; a value kept from an earlier frame (a default, a guessed format, a grid) shows only in series of frames that differ in just that.',
     ['strata/average.py', 'strata/sample_average.py', 'strata/contact_line_analysis.py', 'strata/interface/collect.py', 'strata/spreading/collect.py', 'strata/view_flowmap.py', 'strata/dataformats/read.py'],
     [('series loops', 'strata/average.py:average, strata/sample_average.py:sample_average_files, strata/interface/collect.py:collect_interfaces, strata/spreading/collect.py:collect'),
      ('reading of series', 'strata/dataformats/read.py:read_from_files'),
      ('rolling bundles', 'strata/contact_line_analysis.py:get_grouped_data')],
     observe='output files, rows of text results, drawn figures')

prop('P33', 'Results follow a droplet that is measured, moved or mirrored otherwise',
     'Counting mass, number, temperature, flow, length or time in another unit, with cut-offs, limits and other options given in that unit, changes the results of every tool by that unit only. '
     'Moving the droplet by whole bins moves positions in the results by as much and changes nothing else; mirroring it along x mirrors maps and outlines, reverses the flow along x and exchanges the left and right side.',
     ['inputs', 'configurations'],
     'All droplets of small maps as series of frames, all outlines of a small alphabet, and a set of spreading curves, through about 35 settings of the tools, under units, moves along x and y, and mirroring.',
     'The tests have droplets near the origin with masses and flows of the order of one; a number which is absolute in the code where it should be relative shows only when the numbers of the input are of another size, place or sign.',
     ['strata/average.py', 'strata/spreading/collect.py', 'strata/interface/collect.py', 'strata/interface/sample.py', 'strata/interface/angle.py', 'strata/contact_line_analysis.py', 'strata/sample_average.py', 'droplets/interface.py', 'droplets/average.py'],
     [('cut-offs and radii', 'droplets/interface.py:get_interface'),
      ('floor', 'strata/spreading/collect.py:get_spreading_edges'),
      ('grids of results', 'droplets/average.py:get_combined_grid, strata/average.py:recenter_maps')],
     observe='maps, outlines and text results written by the tools')

prop('P34', 'A result comes from its input and options, not from what ran before',
     'Every tool gives the same files, returned values and figures, or fails in the same way, in a process which has run other tools before (successful or failed ones, on other files or on the same paths with other contents) as in a fresh process. '
     'A run leaves the arguments it was given, the working directory, the environment, and the settings of numpy, matplotlib and the process as they were. '
     'Nor does it matter how the process was started (hash seed of Python, locale, time zone, home, umask, width of the terminal) or how the result is asked for: quiet or not, with absolute, relative or linked paths, from whichever directory, with numbers given as integers, floats or numpy scalars, and with documented defaults left out or given in full.',
     ['histories', 'configurations'],
     'All ordered pairs (triples of some in depth) out of about 40 settings of all tools, and all combinations of ways to state each of them.',
     'The tests share one process but look at each tool by itself; what one run leaves behind shows only in particular orders of runs.',
     ['strata/utils.py', 'strata/average.py', 'strata/convert.py', 'strata/sample_average.py', 'strata/contact_line_analysis.py', 'strata/view_flowmap.py', 'strata/interface/collect.py', 'strata/spreading/collect.py', 'strata/dataformats/read.py'],
     [('keyword arguments and figures', 'strata/utils.py:decorate_graph, pop_fileopts'),
      ('default arguments', 'strata/average.py:average, strata/sample_average.py:sample_average_files'),
      ('formats', 'strata/dataformats/read.py:guess_read_function')],
     state=[('matplotlib settings', 'settings and current figure shared by all tools of a process', 'strata/utils.py:decorate_graph')],
     observe='output files, returned values, figures, state of the process')

prop('P35', 'A request that can not be carried out is refused and changes nothing',
     'A request that names something which its input does not have, or that is not well formed, ends in an error (an exception, a failing exit status, or no result and a message that says so), whichever part of it and whichever frame of a series carries the mistake. '
     'This holds for labels missing from a map (to be sampled, weighed by, limited, moved, sorted or written), unknown file formats, kinds of figure, variables, directions and reference points, limits and system information of the wrong kind or number, columns of unlike size, maps of other spacings or other coordinates in one average, averages of nothing, centres of no mass, and frames with missing or unreadable header lines, missing fields or a shape their bins do not fit in. '
     'It leaves no result behind except complete ones of frames before the mistake; existing files are kept, in place or backed up; objects and options which were handed in stay exactly as they were, and a correct request afterwards gives its full result.',
     ['inputs', 'configurations'],
     'Every mistake of the catalogue in every place it can be made: map shape, storage order, bin, position in lists, frame of the series, with and without existing results.',
     'The tests try about twenty bad arguments, each once and at one place, and never look at what is left behind.',
     ['droplets/flow.py', 'droplets/average.py', 'droplets/sample.py', 'droplets/contact_line.py', 'droplets/interface.py', 'strata/average.py', 'strata/sample_average.py', 'strata/contact_line_analysis.py', 'strata/interface/sample.py', 'strata/view_flowmap.py', 'strata/dataformats/write.py', 'strata/dataformats/simple/write.py', 'strata/dataformats/gmx_flow_version_1/read.py', 'strata/spreading/view.py'],
     [('data and information of flow objects', 'droplets/flow.py:set_data, set_info, lims, translate'),
      ('grids of an average', 'droplets/average.py:average_flow_data, average_data'),
      ('tool requests', 'strata/sample_average.py:sample_average_files, strata/average.py:average'),
      ('reading of headers', 'strata/dataformats/gmx_flow_version_1/read.py:read_header')],
     observe='exceptions, exit status and messages, objects and files after the refusal')

prop('P36', 'Results come from the maps, not from the form they are stored in',
     'A map can be stored in the sparse, the simple binary or the plain text format, with its bins, fields or columns and header lines in any order, with empty bins left out or written, and its numbers written in any of the usual ways. '
     'Every tool which reads maps (conversion, averaging with all of its options, collection of spreading and of interfaces, extraction and sampling of contact lines, sampling of quantities, drawing of maps, flow fields and streamlines) and every reader gives the same results for the same maps in all of these forms, also when the frames of a series are stored in different ones. '
     'Exceptions: a conversion to the sparse format may place maps of the simple formats half a bin further, and frames which are averaged together are of one kind of format.',
     ['inputs', 'configurations'],
     'All series of three frames over 16 forms (all alike, and all mixtures of several) x about 40 settings of the tools x grids; all orders of the bins of small maps.',
     'The tests read each format once, in the order in which the writer stores it; results of the tools are tested on data in memory.',
     ['strata/dataformats/read.py', 'strata/dataformats/simple/read.py', 'strata/dataformats/gmx_flow_version_1/read.py', 'strata/average.py', 'strata/view_flowmap.py', 'strata/contact_line_analysis.py', 'strata/sample_average.py', 'strata/interface/collect.py', 'strata/spreading/collect.py'],
     [('order of bins', 'strata/dataformats/simple/read.py:get_grid_order'),
      ('grid of an average', 'strata/average.py:get_grid_info, combine_bins'),
      ('limits of drawn grids', 'strata/view_flowmap.py:get_grid_limits, get_streamline_data')],
     observe='data read from a file; output files, returned values and figures of the tools')

prop('P37', 'Fields and axes may carry any names and be stored in any order',
     'Operations which take the labels of the fields that they use (of coordinates, flow, mass, weights, limits, cut-off or sampled values) use exactly the fields named, for any names: other words, the usual names given to other fields (mass in X, height in U, the two coordinates exchanged) and maps which also hold unrelated fields under the usual names. '
     'The fields of a map may be stored in any order, and maps which are averaged together in different ones. Averaging and projection, combining and splitting of bins, sampling of centres, energies, flow angles, dissipation and angular profiles, interfaces, contact angles, spreading edges and contact line cells, and selection, sorting and copying of maps give what they give under the usual names, with results under the names of the caller.',
     ['inputs', 'configurations'],
     'All exchanges of two and rotations of the seven names, fresh names and all permutations x orders of fields x settings of every operation x maps.',
     'The tests use the usual names in the usual order, or one other pair of coordinate names for single functions.',
     ['droplets/average.py', 'droplets/resample.py', 'droplets/sample.py', 'droplets/interface.py', 'droplets/contact_line.py', 'droplets/flow.py', 'droplets/data_utils.py', 'strata/spreading/collect.py', 'strata/interface/collect.py'],
     [('fields moved onto a grid', 'droplets/average.py:transfer_data'),
      ('labels of weights', 'droplets/resample.py:_combine_bins, _supersample_data_on_grid'),
      ('labels of cells', 'droplets/contact_line.py:get_contact_line_cells')],
     observe='returned maps, records, indices and values, under the names of the caller')

prop('P38', 'Analyses may be split into steps, merged and reordered',
     'Files which the tools write are inputs like any other, so averaging (of bundles, rolling, with limits along x and y, combining and splitting of bins, and selection of frames) and conversion can follow each other in any order over whole series. '
     'Every chain gives what its definition gives for the first series: pairs of triples, triples of pairs and bundles of six are the same means weighted by mass and number, combining before and after averaging or in two steps is the same, several steps can be given in one run, and no step loses frames, bins, their positions or grid, also where a later step starts from files with numbers above one or in another format. Positions move by half a bin at most for every conversion between the sparse and the simple formats.',
     ['histories', 'inputs', 'configurations'],
     'All sequences of steps up to a depth, from series in every format.',
     'The tests run one step on one input at a time.',
     ['strata/average.py', 'strata/convert.py', 'strata/dataformats/simple/average.py', 'droplets/resample.py', 'strata/dataformats/gmx_flow_version_1/main.py', 'strata/dataformats/gmx_flow_version_1/write.py', 'strata/dataformats/simple/write.py', 'strata/utils.py'],
     [('grid of an average', 'strata/average.py:get_grid_info, combine_bins'),
      ('numbers of outputs', 'strata/utils.py:find_groups_to_singles'),
      ('grid of a simple map', 'strata/dataformats/simple/read.py:get_grid_order')],
     observe='files of every series after every step')

prop('P39', 'Runs at the same time do not disturb each other',
     'Two tools which run at the same time, reading the same input and writing to different names, also in one directory (which may not exist yet, be empty or hold earlier results of both), end as if they had run one after the other, whichever way their uses of files take turns: both succeed, with the same results and the same backups of earlier files, and leave nothing else behind.',
     ['schedules', 'histories'],
     'All schedules of two processes with one preemption for all pairs of 18 tools, and with two and three for pairs of some, from four initial directories.',
     'The tests run one tool at a time.',
     ['strata/utils.py', 'strata/convert.py', 'strata/average.py', 'strata/dataformats/write.py', 'strata/spreading/collect.py', 'strata/interface/collect.py'],
     [('making directories, backing up', 'strata/utils.py:prepare_path'),
      ('writing of series', 'strata/convert.py:convert, strata/average.py:average')],
     observe='exit of both processes and the directory tree')

prop('P40', 'A series of any length needs few open files and leaves none open',
     'Every tool processes its files one after the other (or a bundle of them): with any number of frames, maps in any format, it completes with the same results where only a few more files can be opened at a time, and once it is done every file it opened is closed.',
     ['inputs', 'configurations'],
     'All tools which read series, in all formats, for series of many lengths, with and without a limit on open files.',
     'The tests read a handful of files, which never meets the limit of a process.',
     ['strata/dataformats/read.py', 'strata/dataformats/gmx_flow_version_1/read.py', 'strata/average.py', 'strata/sample_average.py', 'strata/contact_line_analysis.py', 'strata/interface/view.py', 'strata/spreading/view.py'],
     [('frame by frame reading', 'strata/dataformats/read.py:read_from_files'),
      ('bundles', 'strata/average.py:average')],
     observe='exit, results and open files of processes with a limit on them')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       'properties.jsonl')
    with open(out, 'w') as fp:
        for p in P:
            fp.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
