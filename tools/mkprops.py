"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=["riptable/" + f for f in files],
                         mechanism=[dict(name=n, where="riptable/" + w) for n, w in mech],
                         observe_at=list(observe), hook_needed=None),
        )
    )


p("C01", "Element-wise array math agrees with NumPy on every valid element",
  "For every pair of equal-length arrays (or array and scalar) of boolean, integer and floating dtypes, contiguous or strided, element-wise arithmetic, comparison, logical, bitwise, minimum/maximum and unary functions give on valid elements the value NumPy gives in the result dtype, and the result has the same length as the input. An operand that must be converted to another dtype first carries its invalid elements over as invalid (an invalid integer combined with a float gives NaN). In-place operators, explicit output arrays and the function and method spellings of an operation give the same values as the plain operator.",
  ["inputs"], "all array contents, dtypes, dtype pairs, scalar kinds, strides, output arguments",
  "Tests enumerate a few hand-written arrays per ufunc; the dispatch in the array class branches on dtype pairs, scalar kinds, contiguity, out/where/dtype keywords, whose product they do not sample.",
  ["rt_fastarray.py", "rt_numpy.py", "rt_ledger.py", "rt_enum.py"],
  [("__array_ufunc__ dispatch", "rt_fastarray.py"), ("scalar type promotion", "rt_fastarray.py"), ("where/maximum/mask_* wrappers", "rt_numpy.py")],
  ["operators, np.ufunc calls and rt.* functions on FastArray"])

p("C02", "Reductions skip exactly the invalid (and filtered) elements",
  "For every one-dimensional numeric array, the nan-aware reductions (nansum, nanmean, nanvar, nanstd, nanmin, nanmax, nanargmin, nanargmax, nanmedian and quantiles) equal the mathematical reduction of exactly the valid elements, and the plain reductions (sum, mean, var, std, min, max, argmin, argmax, any, all, median) equal that of all elements. Variance and standard deviation use ddof=1 unless told otherwise, a boolean filter restricts a reduction to the selected elements, and the method, module-function and NumPy-function spellings agree.",
  ["inputs"], "all array contents, dtypes, lengths (including empty, one element, all-invalid), filters, ddof and dtype arguments",
  "Tests check a handful of arrays per reduction; filters, dtype/ddof keywords and sentinel placement multiply beyond them.",
  ["rt_fastarray.py", "rt_numpy.py", "rt_stats.py"],
  [("_reduce_check / filter kernels", "rt_fastarray.py"), ("reduction wrappers", "rt_numpy.py")],
  ["FastArray.nansum..., rt.nansum..., np.nansum..."])

p("C03", "Indexing selects exactly the requested elements, assignment changes only them",
  "For every array, reading with an integer, slice, boolean mask, integer list or integer array returns exactly the addressed elements in order, where an invalid or out-of-range integer index yields an invalid element instead of garbage, and keeps dtype and subclass. Writing a scalar, list or array through any of these changes exactly the addressed elements to the assigned values, converted with invalids preserved, and leaves all others unchanged. Boolean-to-index conversion, take-like helpers, where, putmask, reshape, repeat and tile obey the same element-for-element meaning.",
  ["inputs", "histories"], "all arrays, index kinds, index dtypes, values and sequences of assignments",
  "The result depends on the product of index kind, dtype, contiguity and value type, and later writes depend on earlier ones.",
  ["rt_fastarray.py", "rt_numpy.py", "rt_utils.py"],
  [("__getitem__/__setitem__", "rt_fastarray.py"), ("bool_to_fancy, where, putmask, repeat, tile", "rt_numpy.py")],
  ["FastArray.__getitem__/__setitem__/filter, rt.where, rt.bool_to_fancy, rt.putmask, rt.repeat, rt.tile"])

p("C04", "Invalid values survive every dtype conversion and are found by every NA test",
  "Converting an array between any two of the boolean, integer and float dtypes maps each valid representable value to the same value and each invalid element to the target dtype's invalid, and nothing else to invalid. The tests for missing values report exactly the invalid elements for every dtype, including date, time and category arrays, and replacing or filling missing values changes exactly those. Copies, copy-as-invalid and pickling preserve dtype, subclass and every element.",
  ["inputs"], "all array contents and dtype pairs, fill values, fill methods and limits",
  "Tests sample a few conversions; the sentinel rules must hold for each of the 121 dtype pairs and all contents.",
  ["rt_fastarray.py", "rt_numpy.py", "rt_datetime.py", "rt_categorical.py", "rt_fastarraynumba.py", "rt_enum.py"],
  [("astype/copy/fill_invalid/replacena/fillna", "rt_fastarray.py"), ("fill_forward/fill_backward", "rt_fastarraynumba.py"), ("INVALID_DICT", "rt_enum.py")],
  ["FastArray.astype, isnan/isna/notna..., fillna, replacena, copy, copy_invalid, pickle"])

p("C05", "Sorting yields an ordered permutation and binary search agrees with it",
  "For every array or list of equal-length key arrays, sort, argsort and lexsort return a permutation of the input in ascending order (invalid/NaN last for floats), stable for multi-key sorts, and the sortedness test is true exactly for ordered input. Sorting a table by any columns, ascending or descending per column, in place, as a copy or as a sorted view, moves whole rows and never changes, loses or duplicates one. Binary search returns the insertion position NumPy defines for every needle and side.",
  ["inputs", "histories"], "all contents, dtypes, key counts, ascending flags, sides and sequences of sorts and edits",
  "Order and permutation must hold for all inputs; cached sort indices make it depend on the history of edits.",
  ["rt_numpy.py", "rt_dataset.py", "rt_fastarray.py", "rt_sort_cache.py", "rt_categorical.py"],
  [("sort/lexsort/searchsorted", "rt_numpy.py"), ("sort_inplace/sort_copy/sort_view", "rt_dataset.py"), ("SortCache", "rt_sort_cache.py")],
  ["rt.sort, rt.argsort, rt.lexsort, rt.issorted, rt.searchsorted, Dataset.sort_*"])

p("C06", "Uniques, duplicates and membership agree with set semantics",
  "For every array or list of key arrays, unique returns each distinct key exactly once (ascending, or in first-appearance order when unsorted) with first-occurrence indices, inverse indices and counts that reconstruct the input, restricted to a filter when given, and distinct counts, duplicate flags and value counts agree with it. Membership tests report for each element whether it occurs in the other array and the position of its first occurrence, invalid when absent, for single and multiple keys, mixed dtypes and categories. Dictionary mapping and keyed lookup copy return for each element the value of its match, invalid when there is none.",
  ["inputs"], "all contents, dtypes, key counts, filters and flags",
  "Hash and sort based paths chosen by dtype, size and flags must agree for all inputs; tests fix a few arrays.",
  ["rt_numpy.py", "rt_fastarray.py", "rt_grouping.py", "rt_dataset.py"],
  [("unique, ismember, assoc_copy", "rt_numpy.py"), ("duplicated, nunique, isin, map", "rt_fastarray.py"), ("drop_duplicates/duplicated", "rt_dataset.py")],
  ["rt.unique, rt.ismember, FastArray.isin/nunique/duplicated/map/count, rt.assoc_copy"])

p("C07", "Shift, difference, rolling and fill operations are positionally exact",
  "For every array and every period, shift moves elements by that many positions filling the gap with invalid, and difference and change-detection compare each element with the one that many positions before. Rolling and time-window sums, means, variances, deviations and quantiles at a position are those of exactly the window ending there, with invalid elements skipped by the nan-aware forms. Forward and backward fills replace an invalid element with the nearest earlier or later valid one within the limit, else with the given default.",
  ["inputs"], "all contents, dtypes, periods (positive, zero, negative, beyond the length), windows, limits",
  "Edge positions, windows longer than the data and limits interact with invalid runs in ways fixed examples do not cover.",
  ["rt_fastarray.py", "rt_fastarraynumba.py", "rt_numpy.py"],
  [("shift/diff/transitions/rolling_*/timewindow_*", "rt_fastarray.py"), ("fill_forward/fill_backward", "rt_fastarraynumba.py")],
  ["FastArray.shift/diff/transitions/differs/rolling_*/timewindow_*/fill_*"])

p("C08", "Stacking is concatenation: no value is lost, altered or reordered",
  "Stacking arrays, categories, date/time arrays, tables or structures row-wise yields the elements of each input in order, whatever mixture of dtypes, string widths, category sets, base indices, empty inputs and missing columns is stacked, with values converted to a common type and invalids kept invalid. A table column absent from some inputs is filled with invalid for exactly those rows. Column-wise stacking keeps every column of every input unchanged.",
  ["inputs"], "all lists of arrays/tables, all dtype and category mixtures",
  "Merging category sets and promoting dtypes depends on the combination of inputs; tests stack a few fixed ones.",
  ["rt_numpy.py", "rt_hstack.py", "rt_dataset.py", "rt_categorical.py", "rt_grouping.py", "rt_datetime.py", "rt_struct.py"],
  [("hstack/vstack/concatenate", "rt_numpy.py"), ("stack_rows, hstack_any", "rt_hstack.py"), ("concat_rows/concat_columns/hstack", "rt_dataset.py"), ("Categorical.hstack, hstack_groupings", "rt_grouping.py")],
  ["rt.hstack, rt.vstack, rt.concatenate, Dataset.concat_rows/concat_columns/hstack, Categorical.hstack"])

p("C09", "A category array expands back to exactly the values it was built from",
  "For every value array (string, bytes, unicode, numeric, date, boolean), list of key arrays, code array with categories, or code-to-name mapping, and any choice of ordering, base index and filter, the category array has one entry per row whose expanded value equals the input value, with filtered, invalid or out-of-mapping rows reported as such. Its categories are distinct, contain every value in use, and are sorted when ordering is requested and in first-appearance or given order otherwise. Slicing, masking, fancy indexing, copying and conversion to another category mode preserve the value of every selected row.",
  ["inputs"], "all key contents, dtypes, numbers of keys, construction arguments, index expressions",
  "Construction has five modes times options; value fidelity must hold for all of them and all inputs.",
  ["rt_categorical.py", "rt_grouping.py"],
  [("Categorical.__new__ and builders", "rt_categorical.py"), ("Categories", "rt_categorical.py"), ("Grouping", "rt_grouping.py")],
  ["Categorical(...), expand_array, category_array, category_dict, indexing, copy"])

p("C10", "Editing a category array changes exactly the requested values",
  "Through any sequence of value assignment, adding, removing, replacing, renaming or mapping categories, masking rows invalid, shrinking to used categories, automatic category addition and copying, the expanded value of every row equals that of a plain list of values subjected to the same edits. Categories stay distinct and cover all used values, and edits to a copy never show in the original.",
  ["histories", "inputs"], "all sequences of edits on all category arrays",
  "Codes, category list and cached groupings must stay consistent across histories; tests run single edits.",
  ["rt_categorical.py", "rt_grouping.py"],
  [("category_add/remove/replace, mapping_*, set_valid, shrink, auto_add", "rt_categorical.py"), ("Grouping dirty state and regroup", "rt_grouping.py")],
  ["Categorical.__setitem__, category_*, mapping_*, set_valid, shrink, map, fill_invalid"])

p("C11", "Comparing and matching category arrays equals comparing their values",
  "Comparing a category array with a scalar, a value list or another category array, testing membership, and testing for invalid or filtered rows give, row by row, what the same test on the expanded values gives, whatever the category order, base index and mode on either side, with invalid rows never matching a valid value. Order comparisons follow the category value order when categories are sorted.",
  ["inputs"], "all pairs of category arrays and comparands",
  "Comparison shortcuts go through codes and depend on how the two category sets relate; tests fix a few.",
  ["rt_categorical.py", "rt_numpy.py"],
  [("_categorical_compare_check", "rt_categorical.py"), ("isin/isnan/isfiltered", "rt_categorical.py"), ("ismember on categories", "rt_numpy.py")],
  ["Categorical ==,!=,<,..., isin, isnan, isfiltered, rt.ismember"])

p("C12", "A grouping partitions the rows by key",
  "For every list of key arrays and optional filter, grouping assigns two kept rows the same group exactly when all their keys are equal, puts filtered-out rows in no group, and numbers groups densely. The per-group row lists, counts, first and last rows, next/previous links and n-th rows describe exactly that partition in row order, for hash-based and sort-based grouping, and combining two groupings gives the grouping by both keys.",
  ["inputs"], "all key contents, dtypes, key counts, filters, grouping methods",
  "The partition invariant must hold for every input and for each lazily built index array.",
  ["rt_grouping.py", "rt_numpy.py", "rt_groupbykeys.py"],
  [("Grouping ikey/igroup/ifirstgroup/ncountgroup", "rt_grouping.py"), ("groupbyhash/groupbylex/groupbypack/combine2keys", "rt_numpy.py")],
  ["Grouping properties, rt.groupby*, makeifirst/makeilast/makeinext/makeiprev, merge_cats, cat2keys"])

p("C13", "Group reductions equal the reduction of each group's rows",
  "For every table or array list grouped by any keys, each reducing operation (count, sum, mean, min, max, var, std, median, mode, first, last, nth, nan-aware forms and quantiles) returns one row per group, labelled with that group's key, whose value is the reduction of exactly that group's kept rows. A filter removes rows before reduction without reordering or relabelling groups, and the transform form returns, for every original row, its group's value.",
  ["inputs"], "all keys, values, dtypes, filters and options of every reducing operation",
  "Twenty operations times dtypes, filters, transform and key kinds; tests compare a few fixed frames.",
  ["rt_groupbyops.py", "rt_groupby.py", "rt_grouping.py", "rt_categorical.py", "rt_groupbykeys.py"],
  [("GroupByOps reductions", "rt_groupbyops.py"), ("_calculate_all", "rt_groupby.py"), ("_calculate_all", "rt_categorical.py")],
  ["Dataset.groupby(...).op, Dataset.cat(...).op, Categorical.op(data, filter=, transform=)"])

p("C14", "Row-wise group operations see only earlier rows of the same group",
  "Every non-reducing group operation (cumulative sum, product, min and max, count, shift, difference, rolling sum/mean/count/quantile, exponential decay, fill forward/backward and n-th row number) returns one value per input row, in the original row order, equal to applying the plain operation to the sequence of that row's group in row order. Rows without a group are reported invalid (fills leave them alone), rows excluded by a call's filter are invalid in the windowed operations and show the group's running value in the cumulative ones, and neither influences any other row.",
  ["inputs"], "all keys, values, dtypes, windows, decay parameters, filters, reset filters",
  "Interleaving of groups and filters makes positions subtle; tests use short fixed data.",
  ["rt_groupbyops.py", "rt_groupbynumba.py", "rt_groupby.py", "rt_categorical.py"],
  [("cumsum/cumprod/ema_*/rolling_*/shift/diff", "rt_groupbyops.py"), ("numba fills and ema", "rt_groupbynumba.py")],
  ["groupby(...).cumsum/rolling_*/shift/diff/ema_decay/fill_*/rank/cumcount"])

p("C15", "User functions applied per group see exactly the group's rows",
  "Applying a user function per group, as a reduction, as a row-wise function, or through multi-function aggregation, calls it with exactly the rows of each group in row order and places its results at that group's label or rows. Aggregating with several named functions equals running them one by one, and results do not depend on which of the equivalent spellings (table group-by, category array, function name or callable) is used.",
  ["inputs", "programs"], "all keys, values, functions and calling forms",
  "Function dispatch by name/callable/list/dict and placement of results must hold for any data.",
  ["rt_groupbyops.py", "rt_grouping.py", "rt_groupby.py", "rt_categorical.py"],
  [("apply, apply_reduce, apply_nonreduce, agg, aggregate", "rt_groupbyops.py"), ("Grouping.apply*", "rt_grouping.py")],
  ["groupby(...).apply/apply_reduce/apply_nonreduce/agg"])

p("C16", "A table behaves as equal-length named columns under every edit history",
  "Through any sequence of adding, replacing, renaming, reordering, deleting and assigning columns or cells, filtering, slicing and copying, a table equals an ordered mapping of names to equal-length columns subjected to the same steps: same names, order, lengths, dtypes and values. A column of the wrong length or a reserved or invalid name is rejected leaving the table unchanged, and row selection picks the same rows from every column.",
  ["histories", "inputs"], "all sequences of table operations",
  "The container's dictionaries, order and lengths must stay consistent over histories; tests exercise single calls.",
  ["rt_dataset.py", "rt_struct.py", "rt_itemcontainer.py"],
  [("__setitem__/__getitem__/col_* methods", "rt_struct.py"), ("ItemContainer", "rt_itemcontainer.py"), ("row/column indexing", "rt_dataset.py")],
  ["Dataset item/attribute access, col_rename/col_move*/col_remove/col_pop/col_map, [rows, cols]"])

p("C17", "Table-level operations keep rows intact and equal the column-wise operation",
  "Operations on a whole table (trim, sample, head/tail, duplicate removal, missing-row removal, arithmetic with scalars and tables, comparison, column statistics, fills, dtype changes, row-wise sums and the like) equal applying the operation column by column, or select one set of row positions and return exactly those rows of every column. Rows never mix, and non-computable columns are left out or kept as documented.",
  ["inputs"], "all tables, column type mixes, arguments",
  "Column-type dispatch over arbitrary mixtures; tests use a few fixed tables.",
  ["rt_dataset.py", "rt_struct.py", "rt_utils.py"],
  [("_operate_iter_input_cols, reductions", "rt_dataset.py"), ("trim/dhead/head/tail/sample/drop_duplicates/dropna", "rt_dataset.py")],
  ["Dataset arithmetic, reductions, trim, head, tail, sample, drop_duplicates, isin, fillna..."])

p("C18", "Reshaping a table preserves every cell",
  "Melting, pivoting, transposing, stacking rows to columns and converting to and from matrices place every cell value at the position its row and column labels dictate, and nowhere else; cells with no source are invalid. Melting and pivoting back reproduces the original cells.",
  ["inputs"], "all tables, id/value column choices, key contents",
  "Position arithmetic must be right for all shapes; tests fix one or two shapes.",
  ["rt_dataset.py", "rt_struct.py", "rt_imatrix.py"],
  [("melt, pivot, transpose, as_matrix, imatrix_make", "rt_dataset.py")],
  ["Dataset.melt/pivot/transpose/as_matrix/imatrix_make/from_rows/add_matrix"])

p("C19", "Joins return exactly the matching row combinations",
  "For every pair of tables and key columns, left, right, inner and outer joins and lookup merges return exactly the row combinations a nested-loop join over equal keys produces, in the documented order, with every carried column value taken from its source row and invalid where no match exists. Keep-first/last choices pick the documented duplicate, column selection and suffixes name columns without loss, the match indicator tells the truth, and uniqueness or validation requests fail exactly when violated.",
  ["inputs"], "all pairs of tables, key dtypes and counts, duplicates, missing keys, options",
  "The option space (how, on/left_on/right_on, keep, columns, suffixes, require_match, validate, copy) is far larger than the fixed cases.",
  ["rt_merge.py", "rt_dataset.py", "rt_numpy.py"],
  [("merge_lookup, merge2, merge_indices", "rt_merge.py")],
  ["rt.merge_lookup, rt.merge2, Dataset.merge_lookup/merge2"])

p("C20", "As-of joins pick the nearest permitted match",
  "For every pair of tables sorted on the time key, the as-of join gives each left row the values of the right row with the same by-keys that is the last at or before, first at or after, or nearest to it according to the direction, the exact-match rule and (where the function supports it) the tolerance, and invalid when no such row exists. Every left row appears exactly once and in order.",
  ["inputs"], "all sorted key contents, by-keys, directions, tolerances, exact-match flags",
  "Ties, gaps and tolerance edges must be right for all data; tests fix a few timelines.",
  ["rt_merge_asof.py", "rt_merge.py", "rt_dataset.py"],
  [("merge_asof and its kernels", "rt_merge_asof.py")],
  ["rt.merge_asof, Dataset.merge_asof"])

p("C21", "Saving and loading a file reproduces the data exactly",
  "Any table, array, or nested structure of supported column types saved to disk and loaded back, compressed or not, single file or folder, whole or column-selected, has the same names, order, types, dtypes, categories, time zones, units and element values. Overwriting replaces the old content fully, and loading lists or sections of files returns their stacked rows with unchanged values.",
  ["inputs", "histories", "configurations"], "all containers, column types, contents, save/load options and sequences of saves",
  "Type reconstruction metadata must round-trip for every combination; tests save a few fixed containers.",
  ["rt_sds.py", "rt_struct.py", "rt_dataset.py", "rt_categorical.py", "rt_datetime.py", "Utils/rt_metadata.py", "rt_io.py"],
  [("save_sds/load_sds and tree load", "rt_sds.py"), ("_build_sds_meta_data/_load_from_sds_meta_data", "rt_categorical.py"), ("MetaData", "Utils/rt_metadata.py")],
  ["rt.save_sds, rt.load_sds, Dataset.save/load, rt.load_sds(stack=True, include=, sections=)"])

p("C22", "Conversion to and from pandas, Arrow, NumPy, dicts, CSV and pickles keeps values",
  "Converting arrays and tables to pandas, Arrow, NumPy, dictionaries, row lists, CSV-parsed tables or pickles and back returns the same column names, order and values, with invalid elements represented as the other side's missing value and returned as invalid. No valid value turns into a missing one, and unsupported lossy conversions raise instead of corrupting.",
  ["inputs"], "all column types, contents and conversion options",
  "Each target library has its own missing-value and string rules; all contents must survive.",
  ["rt_dataset.py", "rt_fastarray.py", "rt_categorical.py", "rt_datetime.py", "Utils/pandas_utils.py", "rt_csv.py", "rt_io.py"],
  [("to_pandas/from_pandas/to_arrow/from_arrow", "rt_dataset.py"), ("series conversion", "Utils/pandas_utils.py")],
  ["Dataset.to_pandas/from_pandas/to_arrow/from_arrow/asdict/as_pandas_df, pickle, load_csv_as_dataset"])

p("C23", "Calendar fields, parsing and formatting agree with the civil calendar",
  "For every date, time stamp and span in range and every supported time zone, the year, quarter, month, week, day, weekday, day-of-year, hour, minute, second and fraction fields, and the strings produced by formatting, are those of the standard civil calendar in that time zone. Parsing accepted strings gives the instant they denote, formatting then parsing returns the same value, and invalid dates stay invalid.",
  ["inputs"], "all instants, zones, units, format strings",
  "Leap years, DST transitions and negative offsets are points in a space tests sample sparsely.",
  ["rt_datetime.py", "rt_timezone.py", "rt_numpy.py"],
  [("DateTimeNano/Date/TimeSpan fields", "rt_datetime.py"), ("TimeZone conversion", "rt_timezone.py"), ("strptime/strftime", "rt_datetime.py")],
  ["DateTimeNano, Date, TimeSpan, DateSpan constructors, properties, strftime, strptime_*"])

p("C24", "Date and time arithmetic is exact and yields the right kind of value",
  "Adding and subtracting dates, time stamps, spans and integers, scaling spans, and comparing them give exactly the integer arithmetic on the underlying units, return the documented type (stamp minus stamp is a span, date plus span a stamp, and so on), and reject meaningless combinations. Invalid operands give invalid results, comparisons with invalid are false, and rounding, truncation, shifting and differencing keep type and units.",
  ["inputs"], "all values, type pairs, scalars and arrays on either side",
  "Operator overloads for each type pair, array and scalar, have separate code paths.",
  ["rt_datetime.py"],
  [("DateTimeNano/Date/TimeSpan/DateSpan operators and scalars", "rt_datetime.py")],
  ["+,-,*,/,//,==,<,... on DateTimeNano, Date, TimeSpan, DateSpan and scalars"])

p("C25", "Cross tabulations put every row in its cell and their margins add up",
  "For every pair of keys, values and filter, the two-dimensional accumulation table shows in each cell the reduction of exactly the rows with that row key and column key, shows in row and column margins the reduction over the whole row or column and in the corner the overall one, and labels rows and columns with the right keys. Accumulated multi-table views combine exactly the chosen inner tables and margins.",
  ["inputs"], "all keys, values, filters, functions",
  "Cell placement and margins must agree for all inputs including unused and invalid keys.",
  ["rt_accum2.py", "rt_accumtable.py", "rt_groupbyops.py"],
  [("Accum2", "rt_accum2.py"), ("AccumTable, accum_ratio, accum_cols", "rt_accumtable.py")],
  ["rt.Accum2, Dataset.accum2, AccumTable, accum_ratio, accum_ratiop, accum_cols"])

p("C26", "String functions act element by element like the text functions they name",
  "For every byte-string or unicode array (and category array of strings), case change, length, substring extraction, prefix/suffix/containment tests, search, regular-expression match, extract and replace, strip, character and removal functions return for each element what the corresponding Python text function returns on that element, independent of neighbouring elements and of storage width.",
  ["inputs"], "all string arrays, patterns, positions",
  "Fixed-width buffers make behaviour depend on widths and neighbours; tests fix a few words.",
  ["rt_str.py", "rt_fastarray.py", "rt_categorical.py"],
  [("FAString kernels", "rt_str.py"), ("CatString", "rt_str.py")],
  ["FastArray.str.*, Categorical.str.*"])

p("C27", "Binning assigns every value to the bin whose edges contain it",
  "For every numeric array, cutting by explicit edges, by a number of equal-width bins or by quantiles assigns each valid value the bin whose edges contain it (a bin includes its right edge, the first bin also its left one), and invalid or out-of-range values to no bin. Labels and edges describe the bins truthfully, and quantile bins and computed quantiles agree with the sorted data.",
  ["inputs"], "all contents, edges, bin counts, quantiles",
  "Edge equality, duplicates, infinities and invalids interact; tests fix a few arrays.",
  ["rt_bin.py", "rt_utils.py"],
  [("cut, qcut, quantile, xcut", "rt_bin.py")],
  ["rt.cut, rt.qcut, rt.quantile, rt.bin helpers"])

p("C28", "Operations never modify their inputs or alias independent copies",
  "No operation that is documented to return a new object (arithmetic, reductions, sorting, uniqueness, grouping and group operations, joins, stacking, conversion, saving, formatting) changes the contents, dtype, names or order of any array, category array or table passed to it. Deep copies share no data with their source: later changes to either side are invisible to the other.",
  ["histories", "inputs", "programs"], "all operations, arguments, and subsequent edits",
  "Aliasing bugs only show when a later mutation happens; tests inspect results, rarely their inputs.",
  ["rt_dataset.py", "rt_struct.py", "rt_categorical.py", "rt_fastarray.py", "rt_merge.py", "rt_groupbyops.py", "rt_sds.py", "rt_display.py"],
  [("copy/_copy", "rt_dataset.py"), ("copy", "rt_categorical.py"), ("deep/shallow item copy", "rt_itemcontainer.py")],
  ["snapshots of the arguments before and after each public call"])

p("C29", "Structures and multi-table containers keep their contents under every edit",
  "Through any sequence of setting, deleting, renaming, reordering, nesting, merging, copying and attribute access, structures, multi-table containers and partitioned tables hold exactly the items a plain ordered mapping would hold, in order, with nested items intact. Partitioned tables report, for every partition, exactly the rows it contributed, and structural equality, flattening and rebuilding are inverse to each other.",
  ["histories", "inputs"], "all edit sequences and nesting shapes",
  "Containers hold several parallel registries that must stay in step over histories.",
  ["rt_struct.py", "rt_multiset.py", "rt_pdataset.py", "rt_itemcontainer.py", "rt_utils.py"],
  [("Struct item access", "rt_struct.py"), ("Multiset", "rt_multiset.py"), ("PDataset", "rt_pdataset.py"), ("ItemContainer", "rt_itemcontainer.py")],
  ["Struct/Multiset/PDataset public methods"])

p("C30", "Displaying data shows the stored values and never fails or changes anything",
  "Rendering any array, table, structure or group result as text or HTML succeeds for every shape and content, shows for each displayed cell the value stored in that row and column (head and tail rows when abbreviated), and leaves the data unchanged.",
  ["inputs", "configurations"], "all contents, shapes, column types, display limits",
  "Layout code branches on widths, types and limits; tests look at a few renderings.",
  ["rt_display.py", "Utils/rt_display_properties.py", "Utils/display_options.py", "rt_struct.py", "rt_dataset.py"],
  [("DisplayTable, DisplayColumn", "rt_display.py"), ("ItemFormat/DisplayConvert", "Utils/rt_display_properties.py")],
  ["repr, str, _repr_html_ of FastArray, Dataset, Struct, Categorical, DateTimeNano"])

p("C31", "Results do not depend on threading, recycling, ledger or fast-path settings",
  "With worker threads on or off, array recycling on or off, operation logging on or off (and, for data without missing values, the fast math path on or off), the same program computes the same values, for inputs small and large enough to be split between threads.",
  ["configurations", "schedules", "inputs"], "all settings combinations and programs from a grammar of operations",
  "Tests run in the default configuration only.",
  ["rt_fastarray.py", "rt_ledger.py", "rt_numpy.py", "rt_groupbyops.py"],
  [("Threading/Recycle/Ledger switches", "rt_fastarray.py"), ("MathLedger", "rt_ledger.py")],
  ["rt.Threading, rt.Recycle, rt.Ledger, FastArray fast-function switch"])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text(
    "".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, x["id"]
print(len(P))
