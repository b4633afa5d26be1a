"""The property table: source of properties.jsonl and MANIFEST.json (python3 tools/gen_meta.py)."""
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, note=note, na=na))


prop(
    "C01", "Range selection keeps exactly the samples inside the range",
    "Selecting a closed range (either end may be open) on a coordinate keeps every sample whose value lies inside the range and no other, in the original order, "
    "whether the coordinate is evenly sampled, uneven, descending or unsorted, and for datetime, timedelta, integer and float values. "
    "On a patch, the data rows kept are the rows of the kept samples and all other dimensions are untouched.",
    "all coordinate starts, steps from a list, bounds lo <= hi including bounds on, between and outside samples; lengths 1..6",
    "tests sample a handful of ranges; off-by-one errors live at particular alignments of bound and sample, in descending or single-sample coordinates",
    ["dascore/core/coords.py", "dascore/core/coordmanager.py", "dascore/proc/coords.py"],
    [("coordinate range selection", "dascore/core/coords.py: CoordRange.select, CoordMonotonicArray.select, CoordArray.select, _get_index"),
     ("patch selection", "dascore/proc/coords.py: select; dascore/core/coordmanager.py: select")],
)
prop(
    "C02", "Relative, sample, mask and value-array selection pick the named samples",
    "Selection by sample numbers keeps what slicing the sample axis keeps, relative bounds count from the first value when non-negative and from the last when negative, a boolean "
    "array keeps the marked samples, and an array of values (or of sample numbers) keeps the matching samples in place. Ordering by an array of values or sample numbers lists the matching samples in the "
    "requested order. Data rows always follow their coordinate values.",
    "all sample bounds in and out of range, all relative offsets, all masks and all small value/sample arrays over coordinates of any form",
    "the tests fix one coordinate and a few arguments; negative, out-of-range and repeated arguments interact with the coordinate's direction",
    ["dascore/core/coords.py", "dascore/core/coordmanager.py", "dascore/proc/coords.py", "dascore/utils/misc.py"],
    [("sample, mask and array selectors", "dascore/core/coords.py: BaseCoord._select_by_*, _order_by_*, order"), ("slice conversion", "dascore/utils/misc.py: _to_slice, _maybe_array_to_slice")],
)
prop(
    "C03", "A coordinate built from values reports those values, order and extent",
    "A coordinate created from an array holds exactly those values (when spacings are equal or clearly unequal), with their minimum, maximum, length, units and kind of dtype. It reports ascending, "
    "descending and evenly sampled exactly when the values are, with the true step. Sorting a coordinate returns the same samples in order together with the permutation that does it.",
    "all arrays of up to six values: even with any step, uneven, unordered or repeated; four value kinds",
    "detection of even spacing depends on the actual numbers; tests use a few arrays",
    ["dascore/core/coords.py"],
    [("coordinate factory", "dascore/core/coords.py: get_coord, _maybe_get_start_stop_step"), ("sort", "dascore/core/coords.py: CoordRange.sort, CoordArray.sort")],
)
prop(
    "C04", "Evenly sampled coordinates are the sequence start + i*step",
    "A coordinate given by start, stop and step (or any three of start, stop, step, length) has the samples start + i*step, with the number of samples rounded up when stop is not on the grid. Length, minimum, "
    "maximum, range, integer indexing, slicing, array indexing and reversal all agree with that sequence. Its summary converts back to the same coordinate.",
    "all starts and steps (both signs), lengths 1..8, all slices and indices in and out of range",
    "tests check selected starts and steps; negative steps, strides, single samples and out-of-range slices are combinations they do not enumerate",
    ["dascore/core/coords.py"],
    [("start/stop/step validation", "dascore/core/coords.py: CoordRange.validate_start_stop_step_len"), ("indexing and values", "dascore/core/coords.py: CoordRange.__getitem__, values, _min, _max"),
     ("summary", "dascore/core/coords.py: CoordSummary.to_coord")],
)
prop(
    "C05", "Editing a coordinate's limits, step, length or values changes only that",
    "Setting a new minimum or maximum of an ascending or unevenly sampled coordinate translates all samples by the same amount, setting a new step keeps the first sample and the length, changing the length keeps start and step, and "
    "snapping keeps both ends, the length and the direction. Replacing the values gives exactly the new values, and setting units changes only the label. Units and the original coordinate are untouched otherwise.",
    "all coordinates of up to four samples and all new limits, steps and lengths",
    "tests move a few coordinates by a few amounts; rounding and tolerance in the update path depend on magnitudes",
    ["dascore/core/coords.py"],
    [("limit updates", "dascore/core/coords.py: CoordRange.update_limits, CoordArray.update_limits, BaseCoord.update"), ("length", "dascore/core/coords.py: change_length"), ("snap", "dascore/core/coords.py: CoordArray.snap")],
)
prop(
    "C06", "Values map to the next sample and durations to the covering sample count",
    "Looking up a value in an ascending coordinate returns the first sample at or after it, for scalars and arrays, absolute or relative, and refuses values outside the coordinate. A duration converts to the smallest "
    "number of steps that covers it, and counts longer than the coordinate are refused on request. Coordinates for which this is undefined (uneven for counts, not ascending for lookup) are refused.",
    "all queried values and durations on ascending coordinates, even and uneven",
    "tests query a few values; exact hits on first, last and between samples each take different code",
    ["dascore/core/coords.py"],
    [("lookup", "dascore/core/coords.py: BaseCoord.get_next_index, CoordRange._get_index, CoordMonotonicArray._get_index"), ("sample count", "dascore/core/coords.py: BaseCoord.get_sample_count")],
)
prop(
    "C07", "Reordering and selecting keep every data cell with its coordinate values",
    "transpose, flip, sort_coords, order, append_dims, squeeze, rename_coords, set_dims, drop_coords, dropna, roll (with update_coord) and select on dimensions or on non-dimensional coordinates, alone or one after another, never separate a data "
    "cell from the coordinate values it had, including values of extra 1-D and 2-D coordinates attached to the dimensions. Nothing is lost or duplicated beyond what the operation asks for, and the source patch is unchanged.",
    "all coordinate values and orders, on 3 x 2 patches with an extra 1-D and a 2-D coordinate; single operations and all ordered pairs",
    "tests apply single operations to example patches whose coordinates are sorted and mostly one-dimensional; the pairing has to hold for every order of values and every combination of operations",
    ["dascore/core/coordmanager.py", "dascore/proc/coords.py", "dascore/proc/basic.py", "dascore/core/patch.py"],
    [("coordinate manager operations", "dascore/core/coordmanager.py: sort, flip, transpose, order, select, rename_coord, set_dims, drop_coords, squeeze"), ("patch operations", "dascore/proc/coords.py, dascore/proc/basic.py")],
)
prop(
    "C08", "Aggregations reduce exactly the requested dimension, line by line",
    "min, max, mean, median, sum, first, last and aggregate replace every line along the requested dimension by that statistic of the line's cells (NaN ignored, except by first and last), reduce several dimensions one after another, and "
    "keep the other dimensions' coordinates. The reduced dimension becomes length 1 (empty coordinate), disappears (squeeze), or keeps the named statistic of its coordinate values; squeezing every dimension is refused.",
    "all cell values of 3 x 2 patches with NaN patterns, all coordinate values for the reduced coordinate",
    "tests compare with numpy on a few random arrays; placement of NaN, ties and direction of the coordinate are sampled only",
    ["dascore/proc/aggregate.py", "dascore/utils/array.py", "dascore/core/coords.py"],
    [("aggregation", "dascore/utils/array.py: _apply_aggregator"), ("coordinate reduction", "dascore/core/coords.py: reduce_coord, _reduce_time_like")],
)
prop(
    "C09", "Binary operations combine exactly the cells with equal coordinates",
    "Arithmetic and comparison between two patches produces exactly the samples common to both in every shared dimension, each computed from the two cells with those coordinates, whatever the dimension order, offset, direction or order of values; "
    "patches lacking a dimension or reduced along it broadcast. Scalars and arrays on either side act cell by cell, where() replaces exactly the cells whose condition fails, attached coordinates stay with their samples, and incompatible operands are refused.",
    "all coordinate offsets and values and all cell values for small patches",
    "tests use a few overlaps of sorted coordinates; alignment by value has to work for every offset, order and dimension layout",
    ["dascore/utils/patch.py", "dascore/utils/array.py", "dascore/core/coords.py", "dascore/core/patch.py", "dascore/proc/basic.py"],
    [("alignment", "dascore/utils/patch.py: align_patch_coords, _merge_aligned_coords; dascore/core/coords.py: align_to"), ("operators", "dascore/utils/array.py: _apply_binary_ufunc; dascore/core/patch.py operators")],
)
prop(
    "C10", "Joining patches keeps every cell with its coordinates",
    "Merging coordinate managers lists the pieces' values in order of their first values, attached 1-D and 2-D coordinates, units and dimension order included; within the snap tolerance pieces are moved next to each other and "
    "beyond it, or when other dimensions, coordinates or units differ, merging is refused (or the conflicting coordinate dropped on request). Concatenation joins data and coordinates in the given order and groups, and stacking adds "
    "exactly the patches compatible with the first.",
    "all starting values and gaps of two or three pieces, in every order, with even, uneven and unsorted coordinates",
    "tests join sorted, evenly sampled pieces without attached coordinates and compare extents rather than values",
    ["dascore/utils/coordmanager.py", "dascore/utils/patch.py"],
    [("merging", "dascore/utils/coordmanager.py: merge_coord_managers"), ("concatenate and stack", "dascore/utils/patch.py: concatenate_patches, stack_patches, check_dims, check_coords")],
)
prop(
    "C11", "Moving windows see exactly the samples they should",
    "With the array engine, value i of rolling mean, median, min, max, sum or apply is that statistic of the window's samples ending at sample i*step (around it when centred with step 1); windows reaching before the data give NaN; the result "
    "has one value per step carrying the coordinate of its window end. Window, step and overlap durations convert to the smallest sample count covering them, percentages refer to the window, and unusable sizes are refused.",
    "all cell values, all window sizes, steps, durations, overlaps and axes on small patches",
    "tests compare a few window/step pairs with pandas; the interaction of step, window length, padding and start index is arithmetic over all of them",
    ["dascore/proc/rolling.py", "dascore/utils/patch.py"],
    [("array rolling engine", "dascore/proc/rolling.py: _NumpyPatchRoller"), ("window sizes", "dascore/utils/patch.py: get_window_axis_step, get_patch_window_size; dascore/core/coords.py: get_sample_count")],
)
prop(
    "C12", "Padding, rolling and aligning put cells where the coordinates say",
    "pad keeps every cell at its coordinate value, extends evenly sampled coordinates of either direction by exactly the requested (or duration-covering) samples and fills the rest; without expanding, the added samples have null coordinates. "
    "roll moves cells cyclically and the coordinate only on request. align_to_coord moves each line by its shift in the full, same and valid modes so that a cell's coordinate is its original value plus the shift.",
    "all starts, paddings, durations, roll amounts and step-multiple shifts on small patches",
    "tests use ascending coordinates and compare shapes; the bookkeeping between cell index and coordinate value is what breaks",
    ["dascore/proc/basic.py", "dascore/proc/align.py"],
    [("padding", "dascore/proc/basic.py: pad, roll"), ("alignment", "dascore/proc/align.py: align_to_coord and helpers")],
)
prop(
    "C13", "Amplitude operations and patch equality are exact cell by cell",
    "demean and demedian subtract each line's mean or median of its non-NaN cells, normalize divides each line by its max, l1 norm or cell magnitude with all-zero lines left at zero, fillna replaces exactly the missing (optionally infinite) cells, and "
    "abs, real and full act on every cell; dimensions, coordinates and attributes stay. equals is true exactly when dimensions, coordinates, compared attributes and all cells agree.",
    "all cell values with NaN or infinity in any pattern",
    "tests use random arrays without ties, zeros or systematically placed NaN",
    ["dascore/proc/basic.py"],
    [("amplitude operations", "dascore/proc/basic.py: demean, demedian, normalize, fillna, abs, real, full"), ("equality", "dascore/proc/basic.py: equals")],
)
prop(
    "C14", "Muting and tapering act only inside their range",
    "A one-dimensional mute zeroes exactly the cells whose coordinate lies in the closed range (or outside it when inverted), absolute or relative. taper scales the samples within the given distance of each end by the window flank of exactly "
    "that many samples, and taper_range scales by a flank between outer and inner bounds, keeps the inside and zeroes the outside; all other cells keep their value.",
    "all cell values, coordinate values, bounds and taper lengths on small patches",
    "tests look at a few bounds; off-by-one flanks and bounds on samples are sampled at best",
    ["dascore/proc/mute.py", "dascore/proc/taper.py", "dascore/core/coords.py"],
    [("mute", "dascore/proc/mute.py: line_mute, _MuteGeometry1D"), ("taper", "dascore/proc/taper.py: taper, taper_range and helpers")],
)
prop(
    "C15", "Chunking cuts each contiguous block into exactly the requested segments",
    "chunk(time=length, overlap=o) starts a segment every length - o from the start of each contiguous block; a segment ends one sample before start + length and stays inside the block, no segment that fits is missing, shorter remainders of two or more samples are kept only "
    "with keep_partial, and lengths or overlaps which make no sense are refused. Every resulting patch holds exactly the block's samples inside its interval, once each, in the patch's direction and at their own coordinate values, also where it spans several source patches.",
    "all block starts, gaps, segment lengths and overlaps for blocks of up to eight samples, one or two source patches in either order",
    "tests use segment lengths that divide the patches; remainders and segment ends falling between two source patches are arithmetic over all lengths",
    ["dascore/utils/chunk.py", "dascore/utils/pd.py", "dascore/core/spool.py"],
    [("chunk plan", "dascore/utils/chunk.py: get_intervals, ChunkManager"), ("loading", "dascore/core/spool.py: DataFrameSpool.chunk, _patch_from_instruction_df, _merge_patches_streaming")],
)
prop(
    "C16", "Merging a spool joins contiguous patches and covers every sample once",
    "chunk(dim=None) merges patches exactly when they overlap, touch or are within the tolerance of one another, in any order in the spool, and keeps others apart, as it does patches differing in tag, sampling, dimension order or the other coordinate, which play no part in whether others merge; reverse sorted patches stay as they are. A merged patch contains "
    "each covered sample once, in order: where patches overlap or cover one another the earlier one is kept and later ones contribute only samples past its end. On a common grid every sample has its own coordinate value; otherwise values "
    "stay within the tolerance (snapped) or as they were (snap_coords=False).",
    "all relative positions of two or three patches along time or distance",
    "tests merge adjacent or identical patches; overlap, containment and off-grid joints interact for three patches in ways no example covers",
    ["dascore/utils/chunk.py", "dascore/utils/pd.py", "dascore/core/spool.py", "dascore/utils/patch.py"],
    [("grouping", "dascore/utils/chunk.py: ChunkManager._get_continuity_group_number, _get_sampling_group_num"), ("overlaps", "dascore/utils/pd.py: _remove_overlaps"),
     ("merge", "dascore/core/spool.py: _merge_patches_streaming; dascore/utils/patch.py: _force_patch_merge")],
)
prop(
    "C17", "Spool operations act like the same operations on the list of its patches",
    "Slicing, indexing by integers or by a mask, sorting, selecting a range, merging and chunking a spool give the patches the same operation gives on the list of patches: in the right order, each with exactly the samples it should have and their coordinate values, "
    "none lost, duplicated or left over, also when two operations follow one another. len, iteration and indexing agree, splitting by size or count partitions the spool, and the original spool and its patches do not change.",
    "all block positions and all selected ranges for spools of three patches, three orders, every operation and ordered pair of operations",
    "a spool is a lazy table of instructions; each operation rewrites the table, and only particular sequences and alignments leave source and result tables out of step",
    ["dascore/core/spool.py", "dascore/utils/pd.py", "dascore/utils/chunk.py"],
    [("spool operations", "dascore/core/spool.py: DataFrameSpool.__getitem__, select, sort, split, chunk, _get_dummy_dataframes"), ("filtering", "dascore/utils/pd.py: filter_df, adjust_segments")],
)
prop(
    "C18", "Numbers given for times are seconds and conversions keep the instant",
    "Wherever a time is expected, a number means seconds since 1970 (or a duration in seconds): to_datetime64, to_timedelta64, to_float and to_int agree with one another on every value to the nanosecond where the float can hold it, keep null null in any position, and keep "
    "order. Selecting, sample counts and index limits given as numbers act exactly as the same limits given as datetimes or timedeltas, including at and before the epoch.",
    "every nanosecond within 52 bits, every whole second and every 2**-10 s",
    "tests convert a few recent dates; sign, zero, null and rounding interact at values nobody samples",
    ["dascore/utils/time.py", "dascore/core/coords.py"],
    [("conversions", "dascore/utils/time.py: to_datetime64, to_timedelta64, to_float, to_int"), ("limits", "dascore/utils/time.py: get_max_min_times; dascore/core/coords.py: get_compatible_values")],
)
prop(
    "C19", "Unit conversions keep the physical quantity",
    "Converting values, data or coordinates to other units yields the same physical quantity (offset units included), converting back restores it, set_units only relabels, simplify_units converts to base units, and incompatible units are refused; the length, order and even "
    "sampling of coordinates and everything not converted stay. Bounds, window lengths and band limits given as quantities or percentages act as the converted numbers.",
    "all values, coordinates and bounds for sixteen units of four kinds",
    "tests convert a handful of values between m, ft and km; offsets, prefixed quantities and reversed coordinates are combinations of formula parts",
    ["dascore/units.py", "dascore/core/coords.py", "dascore/proc/units.py", "dascore/core/coordmanager.py"],
    [("conversion", "dascore/units.py: convert_units, get_filter_units, get_factor_and_unit"), ("coordinates", "dascore/core/coords.py: convert_units, set_units, simplify_units, _get_compatible_value"), ("patches", "dascore/proc/units.py")],
)
prop(
    "C20", "Index queries and directory spools find exactly the matching patches",
    "A query of a directory index returns exactly the indexed patches which reach into the closed time range and satisfy every attribute condition, with their stored times and paths, whatever was queried and cached before; filters on contents tables keep exactly the rows "
    "satisfying all conditions. Operations on a directory spool give the patches the same operations give on the list of the files' patches. An update looks at every file changed since the previous update.",
    "all time limits of up to three patches and all pairs of queries; every spool operation and pairs of them",
    "tests query ranges far from patch limits on one fixed directory; ties with limits and buffers and reuse of cached answers need particular values",
    ["dascore/io/indexer.py", "dascore/utils/hdf5.py", "dascore/utils/pd.py", "dascore/clients/dirspool.py", "dascore/utils/misc.py"],
    [("index", "dascore/io/indexer.py: DirectoryIndexer.get_contents, _get_mtime; dascore/utils/hdf5.py: get_index, _get_kernel_query, encode_table, decode_table"), ("filters", "dascore/utils/pd.py: filter_df"),
     ("directory spools", "dascore/clients/dirspool.py; dascore/core/spool.py"), ("file iteration", "dascore/utils/misc.py: _iter_filesystem")],
)
prop(
    "C21", "Derivatives and integrals use the coordinate's own spacing",
    "differentiate gives, at every sample including the edges and along any dimension(s), a derivative that is exact for parabolas in the coordinate, for even, uneven, descending and time coordinates, float or integer data and any step; integrate gives the running or definite "
    "trapezoid sums over the coordinate, and the extent integrated. velocity_to_strain_rate(_edgeless) are those differences over the gauge length, positioned at the right samples, radians_to_strain scales every cell; units and coordinates follow.",
    "all cell values and coordinate starts for listed spacings",
    "tests use evenly sampled float data on the last axis; wrong axis, spacing sign or integer truncation show only in other combinations",
    ["dascore/transform/differentiate.py", "dascore/transform/integrate.py", "dascore/transform/strain.py", "dascore/utils/patch.py"],
    [("derivative", "dascore/transform/differentiate.py: differentiate, _strided_diff, _grad_diff"), ("integral", "dascore/transform/integrate.py: integrate and helpers"), ("strain", "dascore/transform/strain.py"), ("spacing", "dascore/utils/patch.py: _get_dx_or_spacing_and_axes, _get_data_units_from_dims")],
)

prop(
    "C22", "Patches written to a DASDAE file come back unchanged",
    "Writing a spool of patches to a DASDAE file and reading it gives every one of the patches back, with the same dimensions, cells, attributes and coordinates (values, spacing, units, attached one- and two-dimensional ones included), also when patches share their "
    "start, end and tag. Reading a part (by range, mask, values or an attached coordinate) gives exactly what the same selection gives on the patches, without those which have nothing there; the scanned summaries agree with the patches, and writing a patch again replaces it entirely.",
    "all cell and coordinate values, coordinate forms, ranges and masks for small patches; all combinations of written and rewritten patches listed",
    "tests write a few example patches with sorted coordinates and distinct times; what is lost depends on names, leftovers and which samples are asked for",
    ["dascore/io/dasdae/core.py", "dascore/io/dasdae/utils.py", "dascore/core/coordmanager.py", "dascore/utils/misc.py"],
    [("writing", "dascore/io/dasdae/core.py: DASDAEV1.write; dascore/io/dasdae/utils.py: _save_patch, _save_coords, _save_attrs_and_dims"), ("reading", "dascore/io/dasdae/utils.py: _read_patch, _get_coords, _get_attrs; dascore/core/coordmanager.py: select"),
     ("summaries", "dascore/io/dasdae/core.py: DASDAEV1.scan")],
)

prop(
    "C23", "Decimation and interpolation use the samples the coordinates name",
    "decimate without a filter keeps every k-th sample from the first one, with its coordinate values, attached coordinates and data. interpolate gives, for even, uneven, descending and unsorted, float and datetime coordinates, at every requested position the straight line "
    "between the neighbouring samples (the sample itself when asked for it), with the requested values as the coordinate, its units and everything else kept; snap_coords puts evenly spaced values over the same extent.",
    "all cell values, coordinate starts and requested positions for listed spacings",
    "tests interpolate one patch to a few positions; a wrong neighbour, lost nanoseconds or units show only for other positions and forms",
    ["dascore/proc/resample.py", "dascore/core/coordmanager.py", "dascore/core/coords.py"],
    [("resampling", "dascore/proc/resample.py: decimate, interpolate"), ("coordinates", "dascore/core/coordmanager.py: decimate, snap"), ("snapping", "dascore/core/coords.py: snap")],
)

prop(
    "C24", "Attributes describe the patch's coordinates and combine as asked",
    "After every operation a patch's attrs name its dimensions and hold for each coordinate the smallest and largest value, step, units and dtype the coordinate has. Setting such a field (time_min, time_max, time_step) moves that coordinate and nothing else; any other attribute, "
    "however it is named, is stored, read back, listed in spool contents and kept without touching coordinates. Combining or merging attributes refuses, drops or keeps the first of conflicting values by the chosen mode and spans the merged extent; inputs stay unchanged.",
    "all attribute and coordinate values for the listed operations, forms, names and modes",
    "tests check a few fields after a few operations; stale summaries and misread names only show for particular names, forms and sequences",
    ["dascore/core/attrs.py", "dascore/utils/attrs.py", "dascore/core/coordmanager.py", "dascore/core/patch.py", "dascore/utils/chunk.py"],
    [("summaries", "dascore/core/coords.py: to_summary, CoordSummary; dascore/core/attrs.py: PatchAttrs"), ("fields to coordinates", "dascore/utils/attrs.py: separate_coord_info; dascore/core/coordmanager.py: update, update_from_attrs"),
     ("combination", "dascore/utils/attrs.py: combine_patch_attrs; dascore/utils/chunk.py: _create_df")],
)

prop(
    "C25", "Fourier transforms measure the named frequencies and can be undone",
    "dft over one or more dimensions, real or not, padded or not, gives for every named frequency the sum of the cells times the wave of that frequency along the dimension's own values times its step, with the frequencies as coordinates in inverse units and data units multiplied; idft gives back the cells and "
    "the coordinates, in any order of dimensions. stft measures the windows' samples around the times it names and istft gives back the samples; amplitude, power and density spectra follow from dft by their definitions. Other coordinates stay where they apply.",
    "all cell values and coordinate starts, listed spacings, directions, lengths, windows and option combinations",
    "tests transform a few sine waves with ascending coordinates and compare within tolerances; the bookkeeping of frequencies, padding, real axes and order shows errors only in combinations",
    ["dascore/transform/fourier.py", "dascore/utils/transformatter.py", "dascore/utils/patch.py"],
    [("dft, idft", "dascore/transform/fourier.py: dft, idft and helpers"), ("short time", "dascore/transform/fourier.py: stft, istft"), ("spectra", "dascore/transform/fourier.py: dft(output=)")],
)

prop(
    "C26", "Filters and resampling act along the named dimension with named settings",
    "pass_filter, notch_filter, savgol_filter, gaussian_filter, sobel_filter, median_filter, slope_filter, detrend, hilbert, envelope and resample give along the named dimensions, in either axis order and either direction of the coordinate, what the underlying "
    "filter gives for each line with the sampling rate, band, corners, order, window length in units or samples and mode named; unsorted or out-of-band settings raise; coordinates, units, attributes and the input stay as they were, resample gives evenly spaced values at the asked period.",
    "all cell values and coordinate starts, listed bands, widths, periods, modes, directions and option combinations",
    "tests filter a few ascending patches and mostly look at shapes; a lost axis, a negative rate, a wrong window or mode shows only in combinations",
    ["dascore/proc/filter.py", "dascore/proc/resample.py", "dascore/proc/detrend.py", "dascore/transform/hilbert.py", "dascore/utils/patch.py"],
    [("filters", "dascore/proc/filter.py: pass_filter, notch_filter, savgol_filter, gaussian_filter, sobel_filter, median_filter, slope_filter"), ("resampling", "dascore/proc/resample.py: resample"), ("lines", "dascore/proc/detrend.py: detrend; dascore/transform/hilbert.py: hilbert, envelope")],
)

prop(
    "C27", "Correlations, detectors and slant stacks follow their definitions",
    "correlate gives for every lag and line the sum of products with the source lines named by value, sample, units, list or none, with true lag and source coordinates, also between dft and idft. stalta, fbe and kurtosis give the ratio, energy and tailedness of the windows named; hampel_filter replaces "
    "what lies beyond the threshold; tau_p sums the lines along each velocity for even, uneven and reverse sorted distances in any axis order. Attributes, units and other coordinates stay.",
    "all cell values (or factors and offsets of patterns where roots and ratios occur) and coordinate starts; listed sources, windows, thresholds, velocities, directions and axis orders",
    "tests correlate shifted sine waves and look at single peaks; lag, source and window bookkeeping shows errors only for other forms, orders and directions",
    ["dascore/proc/correlate.py", "dascore/proc/hampel.py", "dascore/transform/stalta.py", "dascore/transform/fbe.py", "dascore/transform/kurtosis.py", "dascore/transform/taup.py", "dascore/utils/moving.py"],
    [("correlation", "dascore/proc/correlate.py: correlate, correlate_shift"), ("detectors", "dascore/transform/stalta.py, fbe.py, kurtosis.py; dascore/proc/hampel.py"), ("slant stacks", "dascore/transform/taup.py: tau_p")],
)

prop(
    "C28", "Processing leaves its input as it was and records itself",
    "Every processing or transform method leaves the patch and arguments given to it unchanged, and returns a patch with one data cell for every coordinate value, attributes which describe these coordinates, and unrelated attributes and coordinates kept. The history keeps all earlier entries in order and the call's own comes last. "
    "patch_function refuses patches without the dimensions, coordinates or attributes asked for, passes arguments on, sets the data type and records the call as asked. The same call gives the same patch again.",
    "all values of the unknown cells and coordinate starts, both axis orders and directions; every method of Patch with listed arguments, pairs of methods in turn, all forms of requirement and recording",
    "tests look at a method's result and rarely at what is left behind in its input; a write into a shared array shows only for the data types, orders or options which avoid a copy",
    ["dascore/core/patch.py", "dascore/utils/patch.py", "dascore/proc", "dascore/transform"],
    [("methods", "dascore/core/patch.py: Patch; dascore/proc, dascore/transform"), ("recording and requirements", "dascore/utils/patch.py: patch_function, check_patch_coords, check_patch_attrs")],
)

prop(
    "C29", "Files are read by the plugin which recognises them",
    "get_format and read use a plugin which recognises the file, of the format and version named if any: those preferring the file's extension come first, then the newest version of each format, by number; every plugin sees the file from its start and one which refuses or fails does not keep the others from being asked; unknown formats, versions and files are refused. "
    "Ranges and options reach the plugin, files are closed afterwards, write uses the newest version or the one named. Scanning lists every recognised file by its plugin in order, skips unknown ones, warns about broken ones and goes on; a directory a plugin recognises is one source. Entry points which fail to load are warned about once and the others work.",
    "all answers (recognise, refuse, fail) and extensions of up to four plugins, listed versions and orders of definition, files in any order, handles moved, any subset of entry points failing",
    "tests run the built-in plugins on files each of which one plugin knows; precedence, failing plugins, moved handles and stale entry points occur in combinations only",
    ["dascore/io/core.py", "dascore/utils/io.py", "dascore/utils/misc.py"],
    [("plugins", "dascore/io/core.py: _FiberIOManager, FiberIO"), ("reading and scanning", "dascore/io/core.py: read, scan, get_format, write"), ("handles", "dascore/utils/io.py: IOResourceManager"), ("directories", "dascore/utils/misc.py: _iter_filesystem")],
)

NA = "not solver-encodable here: "
prop(
    "N01", "Filters and resampling keep the signal",
    "Filters pass their band and stop the rest, and resampling keeps the signal below the new Nyquist frequency.",
    "all data and band limits", "tests compare a few signals within tolerances", ["dascore/proc/filter.py", "dascore/proc/resample.py"],
    [("filters", "dascore/proc/filter.py")],
    na=NA + "how well a band is passed or stopped is the design of scipy's compiled filters, not dascore's code; their window, unit and band-limit handling is covered by C11 and C19, decimation and interpolation by C23, Fourier transforms by C25, what the filters are applied to and with which settings by C26",
)
prop(
    "N02", "Index and data files survive interruption",
    "When a process is interrupted while writing an index or a data file, later reads see the old or the new content and never a mixture.",
    "all interruption points", "tests never interrupt a write", ["dascore/utils/hdf5.py", "dascore/io/indexer.py"], [("index writing", "dascore/utils/hdf5.py: write_update")], over=("crash_points",),
    na=NA + "what reaches the disk when is decided inside the compiled HDF5 library, which gives no such guarantee; there is no dascore code to encode",
)
prop(
    "N03", "Vendor files are read with their true values and coordinates",
    "Every supported vendor format is recognised as itself and read with the samples, start, step and units stored in the file, whole or in part.",
    "all file contents", "tests read one example per format", ["dascore/io"], [("formats", "dascore/io/*/core.py, utils.py")],
    na=NA + "the layouts are defined by vendors' binary and HDF5 files parsed through struct/numpy/h5py buffers; there is no independent specification in the repository to state an oracle, and the sample files are not available offline",
)
prop(
    "N04", "Mapping over a spool in parallel gives the sequential result",
    "Mapping a function over a spool with an executor gives the same results in the same order as mapping sequentially.",
    "all schedules", "tests use one executor", ["dascore/core/spool.py", "dascore/utils/misc.py"], [("map", "dascore/utils/misc.py: _spool_map")], over=("schedules",),
    na=NA + "dascore only calls the executor's own map(), whose ordering is the executor's contract; no shared state of dascore takes part whose interleavings could be made symbolic",
)
prop(
    "N05", "Plots show the patch's data at its coordinates",
    "Waterfall, wiggle and map plots show every cell at its coordinate values with the stated colour limits.",
    "all patches", "tests check that plotting works", ["dascore/viz"], [("plots", "dascore/viz")],
    na=NA + "the observable is an image drawn by matplotlib",
)
