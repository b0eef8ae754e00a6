"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 props.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
S = 'src/ocgis/'
P = []
NA = {}


def prop(id, title, statement, text, why, mech, over=('inputs',), state=(), observe=(), note=''):
    files = sorted({S + w.split(' ')[0] for _, w in mech})
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=[{'name': n, 'where': S + w} for n, w in mech],
                  state=[{'name': n, 'meaning': m, 'where': S + w} for n, m, w in state], observe=list(observe), note=note))


prop('C01', 'Distributing dimensions over workers is an exact partition',
     'When dimensions are distributed over any number of workers, exactly one dimension (the longest distributed one) stays distributed, and the local bounds, lengths and source indices of the non-empty workers tile it without gap or overlap, in rank order and balanced to within one element; workers beyond the data are empty. '
     'As many workers are used as the minimum number of elements per worker allows, and a non-empty dimension is never lost. Splitting an index range or a grid shape into slices likewise puts every index in exactly one slice.',
     'every dimension length, worker count, minimum element count and split count', 'Tests fix a few lengths and worker counts; remainders, tiny dimensions and large worker counts multiply.',
     [('get_rank_bounds', 'vmachine/mpi.py get_rank_bounds'), ('OcgDist.update_dimension_bounds', 'vmachine/mpi.py OcgDist.update_dimension_bounds'), ('create_slices / create_nd_slices', 'vmachine/mpi.py create_nd_slices')],
     over=('inputs', 'configurations'))

prop('C02', 'Distributed slicing equals slicing the undistributed object',
     'Slicing, gathering, scattering or redistributing a distributed dimension or variable gives every worker exactly the part of the global slice that its local bounds cover: concatenating the workers in rank order reproduces the slice of the undistributed object, with consistent global bounds, contiguous local bounds and matching source indices; coordinates, bounds and other variables sliced along agree with it. Workers outside the slice become empty. Redistributing variables of a file by their source indices keeps every element in order and balances the workers, and global identifiers count through all workers.',
     'every distribution, worker count and global slice, and every local size per worker', 'The test suite runs on one process; multi-worker paths are exercised by hand with a few sizes.',
     [('get_global_to_local_slice', 'vmachine/mpi.py get_global_to_local_slice'), ('Dimension.get_distributed_slice', 'variable/dimension.py Dimension.get_distributed_slice'), ('variable_scatter / variable_gather', 'vmachine/mpi.py variable_scatter'), ('create_distributed_dimension', 'variable/dimension.py create_distributed_dimension')],
     over=('inputs', 'configurations', 'schedules'))

prop('C03', 'Slicing a dimension keeps its length and source indices exact',
     'Slicing a dimension by any integer, start/stop slice (open-ended, negative or past the end included), boolean array or index array gives a dimension whose length and source indices are those of slicing the equivalent sequence of indices, leaving the original unchanged. Repeated slicing composes.',
     'every dimension length, every slice and every chain of slices', 'Only a few slices are sampled; open-ended, negative and out-of-range combinations with both source-index representations are not.',
     [('Dimension.__getitem__', 'variable/dimension.py Dimension.__getitem_main__'), ('slice_source_index', 'variable/dimension.py slice_source_index'), ('get_formatted_slice', 'util/helpers.py get_formatted_slice')])

prop('C04', 'Slicing a variable slices its data, mask, bounds and siblings alike',
     'Slicing a variable or a collection by position, by dimension name, or by index and boolean arrays selects the same elements from its data, its mask, its bounds and from every other variable sharing the sliced dimensions; variables without those dimensions are untouched. Dimension lengths always equal the array shapes, and the object that was sliced is not modified.',
     'every shape, slice, mask and data content within the bounds', 'Tests use fixed arrays and a few slices; masks, bounds and shared dimensions interact combinatorially.',
     [('Variable.__getitem__', 'variable/base.py Variable.__getitem__'), ('VariableCollection.__getitem__', 'variable/base.py VariableCollection.__getitem__'), ('get_dslice / get_formatted_slice', 'util/helpers.py get_formatted_slice')])

prop('C05', 'Value-range subsets select exactly the elements in range',
     'Subsetting a one-dimensional variable to a value range returns, in order, exactly the elements whose value lies in the range (closed or open as requested), or, when bounds are used, exactly those whose cell meets the range (where neighbouring cells share an edge, a limit on that edge is assigned to one of the two cells only, alike for ascending and descending axes); indices, bounds and source indices of the result refer to the same elements. A range that matches nothing raises an empty-subset error.',
     'every coordinate array, bounds array and range', 'Tests use regularly spaced ascending coordinates; descending, unsorted, touching and degenerate cases are not enumerable.',
     [('Variable.get_between', 'variable/base.py Variable.get_between'), ('arr_intersects_bounds', 'spatial/geomc.py arr_intersects_bounds')])

prop('C06', 'Masks only grow and reach every variable sharing the dimensions',
     'Setting a mask on one member of a collection masks, in every other variable that shares any of the masked dimensions, exactly the elements aligned with masked positions (in addition to the elements it already masks); a variable on exactly the same dimensions gets exactly the given mask, or its union with the existing one when updating. Values, variables on other dimensions, coordinate reference systems and shallow copies are unchanged, and setting the mask of a grid keeps the masks data variables already have.',
     'every mask pattern, dimension order and set of shared dimensions', 'Broadcast patterns between mask and target dimensions are sampled for one or two shapes.',
     [('set_mask_by_variable', 'variable/base.py set_mask_by_variable'), ('Variable.set_mask', 'variable/base.py Variable.set_mask'), ('VariableCollection.set_mask', 'variable/base.py VariableCollection.set_mask')])

prop('C07', 'Coordinate box selection keeps exactly the cells meeting the box',
     'Selecting grid cells or points by an x/y box keeps precisely the elements whose coordinate, or whose cell when bounds are used, lies in or touches the box as requested, for vector and two-dimensional coordinates; the trimmed result contains every selected cell and masks the others. A box with no cell raises an empty-subset error.',
     'every coordinate array, cell bounds and box', 'Edges, touching boxes and irregular grids are continuous families a test samples.',
     [('get_xyz_select', 'spatial/geomc.py get_xyz_select'), ('arr_intersects_bounds', 'spatial/grid.py arr_intersects_bounds'), ('Grid.get_intersects', 'spatial/grid.py Grid')])

prop('C08', 'Trimming to a mask keeps every unmasked element in the smallest window',
     'Trimming an array, variable or distributed variable to its unmasked elements returns the smallest window, along every dimension, that contains all unmasked elements, and the mask inside the window is unchanged. The window is the same whether computed on one worker or on several; an entirely masked object is empty.',
     'every mask pattern and worker layout', 'All mask patterns of even small shapes outnumber the tests, and multi-worker layouts are not run.',
     [('get_trimmed_array_by_mask', 'util/helpers.py get_trimmed_array_by_mask'), ('get_masking_slice', 'variable/geom.py get_masking_slice')], over=('inputs', 'configurations'))

prop('C09', 'Wrapping longitudes keeps every point and its place on the sphere',
     'Wrapping or unwrapping longitude coordinates and geometries moves each value by a whole turn into the target range, so that it denotes the same meridian, without loss or reordering of the data attached to it; values already in range are unchanged and stale cell bounds are discarded. A copy-mode wrap leaves its input unchanged, and subsetting a field by a geometry wrapped differently selects the same meridians and leaves field and geometry as they were. The wrapped state reported for coordinates and extents, and the action chosen when subsetting, agree with the values.',
     'every longitude value, bounds array and reordering point', 'The seam values (0, 180, 360 and their neighbours) and cells crossing it are continuous families.',
     [('CoordinateArrayWrapper', 'spatial/wrap.py CoordinateArrayWrapper'), ('get_wrapped_state', 'variable/crs.py Spherical'), ('wrap / unwrap', 'variable/crs.py WrappableCoordinateReferenceSystem')])

prop('C10', 'Reordering a grid keeps data with its coordinates',
     'Reordering a field with wrapped longitudes (each row having at most one jump) so that longitudes ascend permutes the coordinates, their bounds, masks and every variable on the same dimension with one and the same permutation; nothing is lost or duplicated.',
     'every coordinate array, wrap point and data content', 'The permutation depends on where the seam falls; tests use one or two seams.',
     [('Grid.reorder', 'spatial/grid.py Grid.reorder'), ('apply_wrapping_index_map', 'spatial/wrap.py apply_wrapping_index_map')])

prop('C11', 'Computed cell bounds tile the axis around the coordinates',
     'Bounds computed from one-dimensional coordinates are contiguous (each upper edge is the next lower edge), each interior coordinate lies in its own cell, interior edges are midpoints of neighbouring coordinates and the outer edges are extended by the mean spacing, for ascending and descending coordinates alike. Extents and resolutions derived from coordinates or bounds are the true ones, without modifying the inputs.',
     'every strictly monotonic coordinate array within the length bound', 'Arbitrary irregular spacing and orientation cannot be enumerated.',
     [('get_bounds_from_1d', 'util/helpers.py get_bounds_from_1d'), ('get_extrapolated... bounds', 'util/helpers.py get_ocgis_corners_from_esmf_corners')])

prop('C12', 'Two-dimensional corners agree with their centres and round-trip',
     'Corners computed for a two-dimensional coordinate array give neighbouring cells identical shared corners, and interior corners are the means of the four surrounding centres; converting corners to the regridding layout and back returns the same corners. Expanding one-dimensional coordinates and bounds to two dimensions preserves every cell.',
     'every coordinate array within the shape bound', 'Orientation and irregularity form a continuous family.',
     [('get_extrapolated_corners_esmf', 'util/helpers.py get_extrapolated_corners_esmf'), ('get_ocgis_corners_from_esmf_corners', 'util/helpers.py get_ocgis_corners_from_esmf_corners'), ('get_esmf_corners_from_ocgis_corners', 'util/helpers.py get_esmf_corners_from_ocgis_corners')])

prop('C13', 'Grid chunks cover the grid exactly once and their buffers suffice',
     'The chunks into which a destination grid is split for regridding are index windows that are not empty, do not overlap and together hold every cell with its coordinates and data; asking for one chunk by its position gives that chunk. With a spatial decomposition every cell lies in exactly one part. The source subset paired with a chunk contains, with its coordinates and not masked, every source cell that overlaps the extent of the chunk enlarged by the buffer (every source cell whose coordinates lie in it when the optimized box subset is used); a chunk is reported as empty only if there is no such cell, and one that is entirely masked is refused. The default buffer is twice the finer of the two resolutions.',
     'every grid shape, split, coordinates, mask and buffer', 'Shapes and splits that do not divide evenly are numerous, and coordinates and buffers are continuous.',
     [('GridChunker.iter_dst_grid_slices', 'spatial/grid_chunker.py GridChunker.iter_dst_grid_slices'), ('iter_src_grid_subsets', 'spatial/grid_chunker.py GridChunker.iter_src_grid_subsets'),
      ('_gc_iter_dst_grid_slices_', 'driver/nc.py AbstractDriverNetcdfCF._gc_iter_dst_grid_slices_'), ('iter_spatial_decomposition', 'spatial/base.py iter_spatial_decomposition')])

prop('C14', 'Merged chunk weights refer to the same cells as the chunk weights',
     'The chunk files written for a pair of grids hold disjoint windows that cover the destination, with coordinates, data and masks, and the index file names the files and the window of each. Merging the weight files of the chunks into a global file maps every row and column to the number of the same cell in the whole destination and source grid and keeps the factor; nothing is dropped or duplicated, and weight files that do not exist are skipped. Inserting the data of the chunk files into a file of the whole destination gives the data of the whole, with masked elements masked.',
     'every chunk window, grid shape, local index, weight and data value', 'Off-by-one and stride errors show only for particular windows.',
     [('GridChunker.create_merged_weight_file', 'spatial/grid_chunker.py GridChunker.create_merged_weight_file'), ('_gc_remap_weight_variable_', 'spatial/grid_chunker.py GridChunker._gc_remap_weight_variable_'),
      ('insert_weighted', 'spatial/grid_chunker.py GridChunker.insert_weighted'), ('_gc_create_index_bounds_', 'spatial/grid.py Grid._gc_create_index_bounds_')])

prop('C15', 'Temporal grouping partitions the time axis',
     'Grouping time by any combination of year, month and day (or everything together) assigns every time step to exactly one group, steps share a group exactly when they agree on the requested parts, groups are in the order of those parts, and the bounds of a group run from the earliest lower bound (or date) to the latest upper bound (or date) of its steps. The representative date of a group carries the parts it was grouped by.',
     'every sequence of dates within the length bound, every grouping', 'Grouping combinations times calendars times orders exceed any list.',
     [('get_grouping', 'variable/temporal.py TemporalVariable.get_grouping'), ('_get_grouping_other_', 'variable/temporal.py TemporalVariable._get_grouping_other_')])

prop('C16', 'Seasonal groups contain exactly the months of the season',
     'Grouping time by seasons (lists of consecutive months, which may run over the turn of the year) selects, for each season, exactly the steps whose month belongs to it, with the year as an additional part exactly the steps of that season and calendar year; a season without steps gives no group. With unique seasons, for data of several years, every complete and contiguous occurrence of the season is one group (over the turn of the year where the season runs over it) and incomplete occurrences are left out. The representative month of a group is one of the season, and its bounds span its steps.',
     'every sequence of months and years and every season definition', 'Season definitions crossing year ends with partial coverage are combinatorial.',
     [('get_sorted_seasons', 'util/helpers.py get_sorted_seasons'), ('_get_grouping_seasonal', 'variable/temporal.py TemporalVariable._get_grouping_seasonal_'), ('iter_boolean_groups', 'variable/temporal.py')])

prop('C17', 'Time-region subsets keep exactly the matching dates',
     'Subsetting time by months, years or both keeps exactly the steps whose month and year are requested, in order, together with their bounds and the indices of those steps; an empty result raises an empty-subset error. Steps with bounds within one month are judged by it; steps with bounds of whole months (up to eleven) belong to each of them.',
     'every date sequence and region', 'Tests check a few regions of one daily sequence.',
     [('get_time_region', 'variable/temporal.py TemporalVariable.get_time_region'), ('get_time_subset_by_function', 'variable/temporal.py TemporalVariable.get_subset_by_function')])

prop('C18', 'Month-based time units convert to the right calendar months',
     'Converting whole numbers of months since an origin to dates gives the date that many calendar months after the origin, and converting dates back returns the same number of months; years and months never drift.',
     'every origin and month count within the bound', 'Year borders and multiples of twelve are easy to miss.',
     [('get_datetime_from_months_time_units', 'variable/temporal.py get_datetime_from_months_time_units'), ('get_num_from_months_time_units', 'variable/temporal.py get_num_from_months_time_units')])

prop('C19', 'Grouped statistics use exactly the unmasked members of each group',
     'A statistic calculated over temporal groups (mean, sum, minimum, maximum, median, standard deviation, percentile, sample size and friends) equals the mathematical statistic of the unmasked values of each group and grid cell; a cell is masked in the output exactly when its group has no valid value there. A daily percentile uses the unmasked values of all years that lie within half the window of the calendar day. The input data is not modified.',
     'every value array, mask and grouping within the bounds', 'Values and masks are continuous and combinatorial; tests compare a few random arrays.',
     [('AbstractUnivariateFunction', 'calc/base.py AbstractFunction'), ('statistics', 'calc/library/statistics.py Mean'), ('execute temporal groups', 'calc/base.py AbstractFunction._get_temporal_agg_fill_')])

prop('C20', 'Threshold counts count exactly the values meeting the threshold',
     'Threshold and between calculations return, per temporal group and cell, the number (or condition) of unmasked values satisfying the stated comparison, limits included as documented.',
     'every value array, mask and threshold', 'Equality with the threshold and masked values are measure-zero for random tests.',
     [('Threshold', 'calc/library/thresholds.py Threshold'), ('Between', 'calc/library/thresholds.py Between')])

prop('C21', 'Spell durations count maximal runs of consecutive days',
     'A duration calculation returns, per group and cell, the requested summary (mean, median, standard deviation, maximum or minimum) of the lengths of the maximal runs of consecutive steps of the group whose values satisfy the condition (zero if there is none); the frequency variant gives, for each distinct run length, the number of runs having it. A masked value ends a run, and a cell is masked exactly when its group has no valid value there.',
     'every value array, threshold and summary', 'All run layouts of even ten days outnumber the tests.',
     [('Duration', 'calc/library/index/duration.py Duration'), ('FrequencyDuration', 'calc/library/index/duration.py FrequencyDuration')])

prop('C22', 'Freeze-thaw cycles count alternating accumulations past the threshold',
     'The freeze-thaw count is the number of changes between a frozen and a thawed state in a group of daily values: degrees above or below freezing are summed from the start of the group and from each crossing of the freezing point onwards, the first step at which such a sum reaches the positive threshold in either direction sets the state, and sums starting before the current state was reached are skipped. The first state is no change; masked values are left out, and a cell is masked exactly when its group has no valid value.',
     'every temperature sequence and threshold', 'The accumulator state machine has many interleavings of sign changes.',
     [('freezethaw1d', 'calc/library/index/freeze_thaw.py freezethaw1d')])

prop('C23', 'Moving windows and convolutions see exactly their window',
     'A moving-window calculation of odd width returns at each time the statistic of exactly the unmasked values in the centred window, which is shortened at the ends of the series in same mode, while in valid mode the times without a full window are masked; a window without unmasked values is masked. A convolution returns the convolution of the series with the kernel (its centred part in same mode; in valid mode the full overlaps, placed from the first time on, the rest masked), masked where a masked value contributes. Every grid cell is handled independently and the input is unchanged.',
     'every width, mode, statistic and value array', 'Window edges for all widths and lengths are combinatorial.',
     [('MovingWindow', 'calc/library/statistics.py MovingWindow'), ('Convolve1D', 'calc/library/math.py Convolve1D')])

prop('C24', 'Tiled computation equals computing the whole',
     'Splitting a spatial domain into tiles yields tiles no larger than the tile size that cover every cell exactly once. A calculation executed tile by tile, with or without the cached fields, writes the same values, masks, spatial mask, coordinates and times as the calculation executed at once, which is the calculation of its definition: with a selection geometry, time ranges and regions, level ranges, reordering, groupings, masked data and expressions of several variables.',
     'every array shape and tile size', 'Only even divisions are commonly tried.',
     [('get_tile_schema', 'calc/tile.py get_tile_schema'), ('large array compute', 'util/large_array.py compute'), ('OperationsEngine', 'ops/engine.py OperationsEngine')], over=('inputs', 'configurations'))

prop('C25', 'Broadcasting by dimension name aligns elements by name',
     'Broadcasting or transposing a variable to a sequence of dimension names puts each element where its named coordinates say, with data and mask moved identically, adding length-one axes only for missing names; a broadcast for a limited scope is undone afterwards, also when an exception leaves the scope.',
     'every dimension order, shape, mask and content', 'All permutations and subsets of dimension names are combinatorial.',
     [('broadcast_variable', 'util/broadcaster.py broadcast_variable'), ('broadcast_array_by_dimension_names', 'util/broadcaster.py broadcast_array_by_dimension_names')])

prop('C26', 'Expression calculations equal the expression applied cell by cell',
     'A calculation given as an expression string on variables with the same dimensions (in any order) evaluates exactly that arithmetic on the named variables, cell by cell, whatever other variables the field has, and names its output as written; malformed or unknown parts are rejected. Built-in elementwise functions (division, natural logarithm, heat index) apply the documented formula. A cell is masked exactly where an operand is masked or the value is undefined, and the values and masks of the operands do not change.',
     'every value array and supported expression', 'Values are continuous; operator combinations are combinatorial.',
     [('EvalFunction', 'calc/eval_function.py EvalFunction'), ('math functions', 'calc/library/math.py Divide')])

prop('C27', 'Slice utilities denote the same selection in every notation',
     'Formatting a slice, simplifying an index array to a slice, mapping slices by dimension name, and looking up the indices of values keep the selection: indexing with the result gives the same elements in the same order as the original notation.',
     'every index, slice, boolean mask and index array within the length bound', 'Negative, repeated, unsorted and out-of-range indices are many.',
     [('get_formatted_slice', 'util/helpers.py get_formatted_slice'), ('get_optimal_slice_from_array', 'util/helpers.py get_optimal_slice_from_array'), ('get_reduced_slice', 'util/helpers.py get_reduced_slice')])

prop('C28', 'Elements of meshes keep their coordinates when selected, renumbered or filed',
     'Every element of an unstructured mesh has the coordinates, in all of its parts, that its connectivity and start index refer to, also after slicing or spatial selection of elements (which keeps exactly the unmasked elements that meet the geometry, with their data) and after writing and reading. Reducing coordinates keeps only the referenced ones, each once and numbered densely from the start index, with the break value kept and no element changed, whether on one or several workers and in whatever order their messages arrive.',
     'every connectivity array, start index, break layout and order of messages', 'Index remaps are permutations; tests use one mesh.',
     [('reduce_reindex_coordinate_index', 'spatial/geomc.py reduce_reindex_coordinate_index'), ('AbstractGeometryCoordinates.get_geometry_iterable', 'spatial/geomc.py AbstractGeometryCoordinates.get_geometry_iterable'),
      ('AbstractGeometryCoordinates.reduce_global', 'spatial/geomc.py AbstractGeometryCoordinates.reduce_global'),
      ('AbstractGeometryCoordinates.get_spatial_subset_operation', 'spatial/geomc.py AbstractGeometryCoordinates.get_spatial_subset_operation')], over=('inputs', 'configurations', 'schedules'))

prop('C29', 'Record iteration yields every element once with its own values',
     'Iterating a field or variable as records yields one record per element of the iterated dimensions in order, each combining the value of every followed variable at that element (time parts, bounds in either order and repeated values included), with masked elements reported as missing or left out when they are not wanted; the melted form has one record per element and variable. Iterating changes nothing and may be repeated.',
     'every shape, mask and set of follower variables', 'Alignment errors appear only for particular shape and mask combinations.',
     [('Iterator', 'variable/iterator.py Iterator')])

prop('C30', 'Stacking and assignment place every element where it belongs',
     'Concatenating variables, collections or fields along a dimension, and assigning to any part of a variable, place data, mask and bounds of each source at its destination and leave all other elements as they were; the result has its own data, and time stays time. The sources do not change.',
     'every shape, mask, content and slice within the bounds', 'Mask and bounds combinations are combinatorial.',
     [('stack', 'variable/base.py stack'), ('Variable.__setitem__', 'variable/base.py Variable.__setitem__')])

prop('C31', 'Geometry subsets keep exactly the elements the predicate accepts',
     'Subsetting geometries or a grid by intersection with a geometry keeps unmasked exactly those elements that were unmasked and for which the predicate is true (touching counts only where asked for), and the result is the smallest window holding them; its mask and its data refer to those elements, on one worker or several; clipping replaces each kept geometry by its intersection. An empty-subset error is raised exactly when nothing is accepted, the original is unchanged, and the nearest geometry to a point is the closest unmasked one.',
     'every predicate outcome and mask pattern on a bounded grid of geometries', 'Outcome patterns are exponential in the number of cells.',
     [('GeometryVariable.get_intersects', 'variable/geom.py GeometryVariable.get_intersects'), ('geometry_variable mask', 'variable/geom.py GeometryVariable.get_mask_from_intersects'), ('get_masking_slice', 'variable/geom.py get_masking_slice')])

prop('C33', 'Spatial averages are the area-weighted means of the unmasked cells',
     'A spatial average over geometries (with the union of the unmasked geometries) equals, for every index of the other dimensions and any order of dimensions, the mean of the unmasked values weighted by the areas of their geometries (points weigh the same); it is masked exactly where nothing unmasked is left. Masked geometries and values do not contribute, integer data gives fractional means, every data variable is averaged with its own dimensions, and the source is unchanged.',
     'every value, mask and weight array', 'Weights and values are continuous; masked cells with nonzero weights are rarely tried.',
     [('GeometryVariable.get_unioned', 'variable/geom.py GeometryVariable.get_unioned'), ('get_swap_chain', 'util/helpers.py get_swap_chain')])

prop('C34', 'Dimension maps survive conversion to and from plain dictionaries',
     'A dimension map converted to its plain dictionary or configuration form and read back describes the same variables, dimensions, bounds and attributes for every axis, topology and nested group, the same mask, reference system, driver and other properties, and copies and dictionaries are independent of their originals. Looking at entries adds nothing; completing dimensions from metadata changes only missing dimensions.',
     'every combination of set axes, bounds, dimensions and attributes', 'Combinations of optional entries are exponential.',
     [('DimensionMap', 'driver/dimension_map.py DimensionMap')], over=('configurations',))

prop('C36', 'Data read from source after subsetting equals data read before it',
     'Slicing, chaining slices of, or subsetting a field or variable of a netCDF or CSV source before its data is read, and reading it afterwards, gives the same values and masks as reading everything first and subsetting then, for the variable and everything sliced with it (coordinates, bounds, other variables); fields sliced from keep referring to their own part. Nothing is read before it is needed, only the needed part of a netCDF variable is requested, once, and reading one column of a CSV file leaves values set on another alone.',
     'every sequence of slices within the bounds, before and after loading', 'Chains of lazy slices in both source-index representations are combinatorial.',
     [('SourcedVariable', 'variable/base.py SourcedVariable'), ('get_variable_value', 'driver/nc.py get_value_from_request_dataset'), ('CSV rows', 'driver/csv_.py DriverCSV.get_variable_value')], over=('inputs', 'histories'))

prop('C37', 'Operations give the result of their parts applied in the documented order',
     'Executing operations returns one element per selection geometry (under its identifier, with its properties) and one field per data set, whose values and masks are those of selecting times and levels, then wrapping, reordering and slicing, then the spatial selection or clip, then (if requested) the area-weighted aggregation, with calculations applied to the aggregated values, or to the raw cells before aggregation when raw calculations are requested (sums add cells up). Elements are independent of the other geometries, data sets and calculations requested. Empty selections are errors unless allowed, and when allowed do not affect the others.',
     'every data value and mask, for combinations of options within the bounds', 'Options combine exponentially; a wrong combination shows only in the values.',
     [('OcgOperations', 'ops/core.py OcgOperations'), ('OperationsEngine', 'ops/engine.py OperationsEngine'), ('CalculationEngine', 'calc/engine.py CalculationEngine')], over=('inputs', 'configurations'))

prop('C40', 'netCDF files written and read back hold the same data',
     'Writing a field to a netCDF file and reading the file as a field yields the same values, masks, dimensions, bounds, units and attributes of every variable, the same coordinate roles, coordinate system, nested groups and spatial mask, and strings stored as rows of characters; the data variables are those on the time and horizontal dimensions. Writing what was read gives the same again, and writing leaves the field itself unchanged.',
     'every value, mask and attribute set within the bounds', 'Combinations of masks, fill values, bounds and dimension layouts are combinatorial; only a few files are round-tripped.',
     [('DriverNetcdf', 'driver/nc.py DriverNetcdf'), ('DriverNetcdfCF', 'driver/nc.py DriverNetcdfCF')], over=('inputs', 'histories'),
     note='The netCDF4 library is replaced by an in-memory model (symex/fakenc.py) in symbolic runs; replays use the real library on real files.')

prop('C41', 'Coordinate transformations preserve positions',
     'Transforming coordinates between reference systems and back returns the original positions within rounding.',
     'every coordinate and reference system', 'Continuous inputs.', [('CoordinateReferenceSystem', 'variable/crs.py CoordinateReferenceSystem')])
NA['C41'] = 'The transformation itself is PROJ/GDAL compiled code with transcendental arithmetic; nothing within reach of an SMT encoding decides it.'
prop('C42', 'Regridding conserves and bounds the field',
     'Regridding a field applies the chosen interpolation to every unmasked destination cell and masks destination cells outside the source.',
     'every field and pair of grids', 'Continuous inputs.', [('regrid', 'regrid/base.py RegridOperation')])
NA['C42'] = 'Regridding is done by the ESMF library, which is not installed here and is compiled code.'
prop('C43', 'Runs on several workers finish and give the results of one worker',
     'Subsets, aggregations and calculations run by OcgOperations on several workers finish, and the netCDF file or table they write holds the values, masks, coordinates and metadata it holds when written by one worker, whatever the order of their turns and even if some workers hold no part of a selection or data set. Spatial averages of geometries split between workers are the area-weighted means of all unmasked cells, and fields written by several workers have every part in its place. Extents, shapes, masks, wrapped states, longest texts, unique values and number ranges agreed on by all workers describe the whole.',
     'every distribution of data over workers, order of turns, and all data values and masks', 'The test suite runs on one process; multi-worker paths are exercised by hand.',
     [('OperationsEngine', 'ops/engine.py OperationsEngine'), ('AbstractCollectionConverter.write', 'conv/base.py AbstractCollectionConverter'), ('GeometryVariable.get_unioned', 'variable/geom.py get_unioned'), ('DriverNetcdf', 'driver/nc.py'), ('OcgVM', 'vmachine/core.py OcgVM'), ('create_unique_global_array', 'util/helpers.py create_unique_global_array')],
     over=('inputs', 'configurations', 'schedules'))
prop('C44', 'Conforming units gives the same quantities in the new units',
     'Conforming data or times to other units gives every unmasked value and every bound the equivalent value in the new units (integers included, without truncation), keeps masks and dates, and changes nothing else. Requested for a file, the result is the same whatever is read first and whether it is read before or after subsetting, is what operations select and compute on, and is what is written out. Without units, or with units of another quantity, it is refused.',
     'every value, mask and order of reading within the bounds', 'Values are loaded late, so the result depends on what is read first; tests read in one order.',
     [('Variable.cfunits_conform', 'variable/base.py Variable.cfunits_conform'), ('TemporalVariable', 'variable/temporal.py TemporalVariable._set_to_conform_value_'),
      ('AbstractDriver.init_variable_value', 'driver/base.py AbstractDriver.init_variable_value'), ('RequestDataset.conform_units_to', 'driver/request/core.py RequestDataset.conform_units_to'),
      ('get_conformed_units', 'util/units.py get_conformed_units')], over=['inputs', 'histories'])



prop('C45', 'Dates of a time variable follow every change made to it',
     'After any sequence of setting values, setting or removing masks, assigning slices from other variables, slicing, copying, replacing the values of bounds, and changing units or calendar, the dates, numbers, masks and extents read from a time variable and from its bounds are those of the current values in the current units and calendar, whether or not they were read in between.',
     'every history of changes within the length bound and all values', 'Stale results depend on what was read before a change, and histories multiply.',
     [('TemporalVariable.value_datetime', 'variable/temporal.py TemporalVariable.value_datetime'), ('TemporalVariable.set_value', 'variable/temporal.py TemporalVariable.set_value'),
      ('TemporalVariable._getitem_finalize_', 'variable/temporal.py TemporalVariable._getitem_finalize_')], over=['inputs', 'histories'])

prop('C46', 'Time, level and function subsets keep exactly what was asked for',
     'Subsetting a time variable, a field, a request or an operation by a range of dates (both ends included; where neighbouring cells share an edge, a limit on that edge selects one of the two cells only), by months and years, by a range of levels or by a function keeps exactly the steps and levels whose dates or cells meet everything asked for - a function in the order of the positions it returns, the others in the order of the data - with data, bounds and coordinates at the same positions, whatever units and calendar the times have. '
     'The function is given all dates and bounds as dates. Nothing left raises an empty-subset error. A range of dates given together with months and years is accepted when all of the requested months and years occur in it and refused when none of the requested months or none of the requested years does.',
     'every order of times, range, set of months and years, and picked positions', 'Tests use a few regular daily or monthly axes; limits at cell edges, single days, short ranges and empty answers are not covered.',
     [('TemporalVariable.get_between', 'variable/temporal.py TemporalVariable.get_between'), ('TemporalVariable.get_subset_by_function', 'variable/temporal.py TemporalVariable.get_subset_by_function'),
      ('validate_time_subset', 'util/helpers.py validate_time_subset'), ('OperationsEngine._get_nonspatial_subset_', 'ops/engine.py OperationsEngine._get_nonspatial_subset_')])


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': p['mech']}}
            if p['state']:
                d['anchors']['state'] = p['state']
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    have = {n[:3].upper() for n in os.listdir(os.path.join(HERE, 'harness')) if n.startswith('c') and n.endswith('.py')}
    checks, na = [], []
    for p in P:
        if p['id'] in NA:
            na.append({'property': p['id'], 'reason': NA[p['id']]})
        elif p['id'] in have:
            checks.append({
                'property': p['id'], 'quick_cmd': './check {} --tier quick'.format(p['id']),
                'thorough_cmd': './check {} --tier thorough'.format(p['id']),
                'technique': 'path-wise symbolic execution of the real Python functions, every assertion decided by Z3',
                'level': 'model_checking',
                'level_note': 'Holds for every input within the stated bounds (see BOUNDS in the harness and the evidence file), with reals for floats; '
                              'numpy bookkeeping runs natively and is trusted; counterexamples are replayed on the untouched code. ' + p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'No check has been built for this property yet.'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'See DESIGN.md. Known findings: known_findings.txt. No hooks in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
