#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS

def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))

V = "include/vif/"
PROPS = [
P("C01", "Vector shape and content follow the operation history",
  "After any sequence of constructing, copying, moving, assigning, swapping, resizing, clearing, push_back, append/prepend and element removal, every vector's dimensions multiply to its number of elements and it holds exactly the elements, in row-major order, that the sequence defines (a moved-from vector is empty, a copy is independent, a vector may be assigned from or appended to itself or a view of itself). Combining incompatible dimensions, or removing an index that does not exist or twice, is rejected instead of yielding a vector.",
  ["histories", "inputs"], "all operation histories and element types",
  "The unit tests replay a few fixed histories; interactions such as move then reuse, self-append or removal after resize are not reached.",
  [V+"core/vec.hpp", V+"utility/bits/generic-rearrange.hpp", V+"core/bits/initializer_list.hpp"],
  [("vec constructors, assignment, resize, push_back", V+"core/vec.hpp"), ("append/prepend/inplace_remove", V+"utility/bits/generic-rearrange.hpp")], ["vec::dims, size(), operator[], iteration"]),
P("C02", "Checked indexing returns the right element or is rejected",
  "For every vector or view of any number of dimensions, indexing with brackets (flat, row-major) or parentheses (one index per dimension) with any integer type denotes exactly the row-major element, negative indices counting from the end, for reading and for writing. Every index at or beyond the end, in any position, is rejected (one below -n is rejected or still designates an element); no memory outside the vector is ever touched.",
  ["inputs"], "all shapes, index types and index values",
  "Tests index a handful of positions of a few shapes; each index type, sign and dimension position takes a separate template path.",
  [V+"core/vec.hpp", V+"core/bits/access.hpp"], [("to_idx bounds check and negative index handling", V+"core/bits/access.hpp"), ("operator[] / operator()", V+"core/vec.hpp")]),
P("C03", "Views select exactly the requested elements, in order and shape",
  "Indexing a vector or view with any combination of scalars, full and partial ranges, index vectors (and their views) yields a view with one dimension per non-scalar argument, whose elements are exactly those the arguments designate, in row-major order of the arguments, repeated as often as requested. A range that leaves the bounds or an index at or beyond the end is rejected.",
  ["inputs"], "all shapes and all combinations of index arguments",
  "The number of argument combinations is exponential in the number of dimensions; tests try a few of them on one or two shapes.",
  [V+"core/bits/access.hpp", V+"core/range.hpp", V+"core/vec.hpp"], [("vec_access::helper", V+"core/bits/access.hpp"), ("range_impl", V+"core/range.hpp")]),
P("C04", "Assigning through views modifies exactly the selected elements",
  "Assigning to a view, plainly or with a compound operator, from a scalar, list, vector or other view changes exactly the selected elements of the viewed vector to the values the right-hand side had before the assignment, even when it is, or views, the same vector; all other elements stay as they were. A right-hand side with the wrong number of elements is rejected.",
  ["inputs", "histories"], "all selections on both sides, including overlapping ones",
  "Aliasing bugs need specific overlaps between source and destination; tests exercise one or two.",
  [V+"core/vec.hpp", V+"core/bits/access.hpp"], [("vec<Dim,Type*>::assign_, view_same", V+"core/vec.hpp")]),
P("C05", "Operators act element by element and leave their operands alone",
  "For every overloaded arithmetic, comparison, logical and unary operator, and every combination of vectors, temporaries, views and scalars of any element types, the result has the operands' dimensions and each element is the result of the scalar operation on the corresponding elements; named operands keep their values. Operands of different dimensions are rejected.",
  ["inputs", "programs"], "all operators, operand categories, element types and values",
  "Each operator has separate overloads per operand category (including reuse of temporaries' memory); tests cover few of the combinations.",
  [V+"core/bits/operators.hpp", V+"core/vec.hpp"], [("operator overloads, memory reuse of rvalues", V+"core/bits/operators.hpp")]),
P("C06", "Vectorised functions apply the scalar function to every element",
  "Calling a vectorised function (library function, vectorize_lambda or vectorised member) on vectors, views, temporaries or a mix of vectors and scalars yields, with the vectors' dimensions, exactly the scalar function's value at each position, without modifying named arguments; the element-wise predicates and selections follow the same rule. Arguments of different dimensions are rejected where the function combines several vectors.",
  ["inputs", "programs"], "all argument categories, shapes and values",
  "Every function is generated by macros with several overloads; tests call a few overloads.",
  [V+"core/bits/vectorize.hpp", V+"math/base.hpp"], [("VIF_VECTORIZE*, vectorize_lambda", V+"core/bits/vectorize.hpp")]),
P("C07", "Iteration and strides visit exactly the elements, in order",
  "Iterating over a vector or a view, forwards, backwards, by range-for, by const, reverse or raw iterators or with any standard algorithm, visits every element exactly once in row-major order and writes through to it; iterator arithmetic and comparison agree with positions. Integer ranges and row/column strides of matrices (and of views) enumerate exactly the values and elements their bounds define.",
  ["inputs", "programs"], "all shapes, iterator operations and element types",
  "Iterator types are distinct for vectors, views, booleans and strides; tests loop over one or two vectors.",
  [V+"core/bits/iterator.hpp", V+"core/iterator_base.hpp", V+"core/range.hpp", V+"core/vec.hpp"], [("strided and native iterators", V+"core/iterator_base.hpp"), ("range", V+"core/range.hpp")]),
P("C08", "Construction, conversion and copies preserve the elements",
  "A vector built from dimensions holds default values with those dimensions; built or assigned from (nested) initializer lists, it holds the listed values with the dimensions of the list, lists of differing lengths being rejected; built or assigned from a vector or view of another element type, each element is the conversion of the source element and the source is unchanged. A concretised or copied view is independent of the viewed vector.",
  ["inputs"], "all shapes, list structures, element types and values",
  "Type combinations and degenerate lists take separate template paths; tests use a handful of them.",
  [V+"core/vec.hpp", V+"core/bits/initializer_list.hpp"], [("conversion constructors and assignment", V+"core/vec.hpp"), ("vec_ilist::helper::fill", V+"core/bits/initializer_list.hpp")]),
P("C09", "Searches and set operations return exactly the matching elements",
  "For every vector or view: where, where_first, where_last and complement return exactly the true (or not listed) positions in increasing order; is_any_of, set_intersection and set_union (and their _sorted forms) contain exactly the values they define, also between different numeric types; unique_ids and unique_values give one sorted representative per distinct value. match pairs each element of the first vector with the first equal element of the second, in order and whatever the sizes, and astar_find returns a true pixel closest in Manhattan distance.",
  ["inputs"], "all vectors and values, small and large",
  "Results depend on the arrangement of duplicates, the types and the size (match switches algorithm at 64 values); tests use a few short lists.",
  [V+"utility/generic.hpp", V+"utility/bits/generic-find.hpp"], [("where, match, set_*, unique_*", V+"utility/bits/generic-find.hpp"), ("astar_find", V+"utility/bits/generic-find.hpp")]),
P("C10", "Sorting orders stably and binary searches find the exact bounds",
  "sort and inplace_sort, with the default order or a custom comparator, produce a stable permutation of the positions (or values) in ascending order, NaN last, for vectors and views of any length and type; is_sorted is true exactly for ascending vectors. On a sorted vector lower_bound, upper_bound, bounds and equal_range return the documented index for every value, of the same or another numeric type, with npos when there is none.",
  ["inputs"], "all vectors with repeated and NaN values, all searched values",
  "Ties, NaN and values outside or between the elements are the corner cases; tests use one sorted list.",
  [V+"utility/bits/generic-find.hpp", V+"utility/bits/generic-rearrange.hpp"], [("sort, inplace_sort", V+"utility/bits/generic-rearrange.hpp"), ("lower_bound, bounds, equal_range", V+"utility/bits/generic-find.hpp")]),
P("C11", "Rearranging vectors keeps every element at its defined place",
  "reverse, shift (any offset and fill value), transpose, flatten, reform, replicate, append<N>, prepend<N> and remove yield a vector of the documented dimensions in which each element is exactly the source element the operation assigns to that position, and leave named arguments unchanged. Impossible dimensions and out-of-bounds or repeated indices are rejected.",
  ["inputs"], "all shapes, positions, offsets and values",
  "Index arithmetic errors show up only for specific shapes and offsets; tests use a single shape.",
  [V+"utility/bits/generic-rearrange.hpp", V+"utility/generic.hpp"], [("shift, transpose, reform, replicate, append", V+"utility/bits/generic-rearrange.hpp")]),
P("C12", "Flat and multidimensional indices convert into each other exactly",
  "mult_ids and flat_id are inverse bijections between flat row-major indices and index lists for every set of dimensions, for scalars and vectors of indices, and reject out-of-bounds indices; increment_index_list visits all index lists in row-major order, and indgen fills any shape with 0, 1, 2...",
  ["inputs"], "all dimensions and indices",
  "Tests convert one or two indices of a single shape.",
  [V+"utility/bits/generic-indices.hpp", V+"utility/bits/generic-sequences.hpp"], [("mult_ids, flat_id, increment_index_list", V+"utility/bits/generic-indices.hpp")]),
P("C13", "Statistics equal their mathematical definition on any vector or view",
  "total, count, mean, min, max, minmax (and the positions they report), median, percentile(s), rms, stddev, mad, weighted_mean, optimal_mean, fraction_of, percent_of, sigma_clip and the element-wise min/max equal their definition for every vector or view, NaN and empty inputs following the documented rules. The partial_* functions, reduce and run_dim apply the reduction to each line along the requested dimension, for any shape, and named arguments are unchanged.",
  ["inputs"], "all shapes, dimensions and values including NaN and infinities",
  "Partial selection, NaN placement and the dimension strides matter only in specific arrangements; tests use one sample.",
  [V+"math/reduce.hpp", V+"math/base.hpp"], [("reductions and percentiles", V+"math/reduce.hpp"), ("run_dim/partial_*", V+"math/reduce.hpp")]),
P("C14", "Binning counts every value exactly once in its bin",
  "make_bins and its variants produce contiguous bins covering the requested range (or data); in_bin, in_bin_open, bin_center and bin_width agree with the bins' half-open definition; histogram (counts, weights, callback) and histogram2d assign every finite value inside the bins to exactly one bin and ignore the others. cumul and cumul_reverse are the running sums from the start or the end.",
  ["inputs"], "all bins and data, including values on edges, outside and NaN",
  "Errors show for values on edges and outside the bins; tests use one regular sample.",
  [V+"math/histogram.hpp", V+"math/reduce.hpp"], [("histogram, in_bin, make_bins", V+"math/histogram.hpp")]),
P("C15", "Interpolation, integration and ranges equal their exact values",
  "interpolate (linear, with uncertainties), interpolate_3spline (natural cubic spline), bilinear, bilinear_strict, bicubic_strict and rebin return the value defined by the tabulated points, for any spacing, element type (integers included) and position including nodes, ends and outside; integrate (whole, sub-range, binned) and cumul return the exact integral of the piecewise function for any bounds; integrate_func integrates a function, integrate_gauss and integrate_gauss_2d a Gaussian over a pixel of unit size. rgen, rgen_log and rgen_step produce the requested number of regularly spaced values including the bounds; inconsistent inputs are rejected without touching memory out of bounds.",
  ["inputs"], "all tables (of floating-point or integer values), spacings, positions and bounds",
  "Segment selection and end conditions differ for each position relative to the nodes; tests evaluate a few positions.",
  [V+"math/interpolate.hpp", V+"math/reduce.hpp", V+"math/base.hpp"], [("interpolate, bilinear, rebin", V+"math/interpolate.hpp"), ("integrate, cumul", V+"math/integrate.hpp"), ("rgen", V+"math/base.hpp")]),
P("C16", "Linear algebra gives the exact results up to rounding",
  "Matrix products (matrix-matrix, matrix-vector, vector-matrix) and element-wise operations, transposes, diagonals, identities and the 3x3 scale, translation and rotation transforms follow their mathematical definition and leave their operands unchanged; printing lists the rows; incompatible dimensions are rejected. For any square matrix, determinant, invert, solve, their in-place versions and the LU decomposition (with or without pivoting, object reused or not) give the determinant, the inverse and the solution of A x = b, and report failure for singular matrices. For symmetric matrices the same holds for invert_symmetric (once symmetrised) and solve_symmetric; the Cholesky decomposition succeeds on the positive definite ones and not on indefinite ones, with L lower triangular and L Lt = A; the eigenvalues are increasing and come with orthonormal eigenvectors stored by rows; the singular value decomposition gives orthogonal U and Vt and decreasing values with U S Vt = A; and all of it when LAPACK is disabled (for what is then available).",
  ["inputs", "histories"], "all matrices and right-hand sides",
  "Tests use one symmetric or nearly symmetric matrix per function; transposition mistakes, pivoting order and stale state show only on asymmetric matrices, specific pivot sequences or reused objects.",
  [V+"math/matrix.hpp", V+"math/bits/matrix-types.hpp", V+"math/bits/matrix-functions.hpp", V+"math/lapack.hpp"],
  [("operators, mat, wrapper", V+"math/bits/matrix-types.hpp"), ("decompose_lu, decompose_cholesky, decompose_svd, invert, solve, eigen_symmetric", V+"math/bits/matrix-functions.hpp")]),
P("C17", "String searching, replacing, trimming and padding are exact",
  "find, replace, begins_with, ends_with, erase_begin/erase_end, keep_first/keep_last, trim, align_left/right/center, to_upper/to_lower, distance, length, empty, get_word, replace_block and replace_blocks return, for every string and non-empty pattern, exactly the documented text or position: replace substitutes the non-overlapping occurrences from left to right, the block functions find each block's own end and separators, padding and truncation never exceed the requested length. Their vectorised forms do the same for each element. Erasing a prefix, suffix or selecting a word or block that is not there is rejected.",
  ["inputs"], "all strings, patterns, lengths and separators",
  "Off-by-one and overlap errors depend on the exact arrangement of pattern and text; the tests try a few words.",
  [V+"utility/bits/string-base.hpp", V+"utility/bits/string-find-replace.hpp", V+"utility/bits/string-format.hpp"], [("find/replace/trim/get_word/replace_block(s)", V+"utility/bits/string-find-replace.hpp"), ("align_*, to_upper/lower", V+"utility/bits/string-format.hpp")]),
P("C18", "Splitting, joining, wrapping and regular expressions partition text correctly",
  "split and collapse are inverse of each other, split_any_of returns the maximal runs free of separators, cut yields consecutive pieces of the given length (only the last may be shorter), and wrap breaks lines only at spaces, fills each line as far as the width (indentation included) allows and keeps every word, shortening with an ellipsis only words that do not fit and only if asked. regex_match, regex_extract and regex_replace follow the POSIX leftmost-longest matches, one after the other, with their captured groups (empty if unmatched), and always terminate; an invalid expression is rejected.",
  ["inputs"], "all strings, separators, widths and expressions",
  "Which piece a boundary character falls into depends on its exact position; tests use one or two sentences.",
  [V+"utility/bits/string-split.hpp", V+"utility/bits/string-regex.hpp"], [("split, split_any_of, cut, wrap, collapse", V+"utility/bits/string-split.hpp"), ("regex_*", V+"utility/bits/string-regex.hpp")]),
P("C19", "Text conversions are exact and reject what does not fit",
  "from_string succeeds exactly when the whole string, apart from surrounding blanks, is a number (or a nan/inf spelling for floating types) that fits the type, and then gives its value; it restores every integer printed by to_string and every double printed with 17 digits. to_string, to_string_vector and the precision, scientific and fixed formats, alone or combined, print exactly the requested digits, for scalars, vectors and views, and leave the stream's own format untouched; from_string of a vector gives the outcome of each element.",
  ["inputs"], "all strings, numbers and element types",
  "Range limits, partial matches and format combinations are too many to list by hand.",
  [V+"core/string_conversion.hpp", V+"core/bits/operators.hpp"], [("from_string, to_string, format::*", V+"core/string_conversion.hpp")]),
P("C20", "Hashes identify argument values",
  "hash returns the 40 lowercase hexadecimal digits of the SHA-1 of its arguments' types and values: the documented values, the same for equal arguments however they are passed, and different for different values, types, order or grouping of arguments, whatever their length.",
  ["inputs"], "all argument lists and lengths",
  "Block padding and length encoding have boundary cases at specific lengths; no test calls hash.",
  [V+"utility/bits/string-hash.hpp"], [("sha1::calc, hash_", V+"utility/bits/string-hash.hpp")]),
P("C21", "Command line arguments set exactly the variables they name",
  "Reading command line arguments, in one or several steps, gives each listed variable the value of its last valid argument (value or =value form with any number of leading dashes up to two, a bare name meaning 1, brackets giving a list for vectors), whatever other arguments surround it; a variable without a valid argument keeps its value exactly, and an argument that is unknown or cannot be converted is reported with a message and has no effect. What program_arguments writes and serialises is read back unchanged, merged arguments override earlier ones, and make_cmd reproduces the command line with quotes around values containing spaces.",
  ["inputs", "histories"], "all argument lists, orders and variable types",
  "Whether one argument disturbs another depends on their combination and order; no test reads arguments.",
  [V+"utility/argv.hpp"], [("program_arguments::read/write/merge, read_args, make_cmd", V+"utility/argv.hpp")]),
P("C22", "File system functions do exactly what they report",
  "After any sequence of mkdir, copy, move, remove and writes, the directory tree is exactly what the successful operations define: an operation that fails leaves it unchanged and returns false, one that returns true took full effect (a copy is byte-for-byte identical, copying a file onto itself keeps it). exists, list_files, list_directories, to_string, is_older (by modification time) and the explorer report exactly that tree, for single paths and vectors, symbolic links being followed except by remove. get_basename and get_directory agree with POSIX, the extension functions split at the last dot, directorize appends one slash if missing.",
  ["histories", "inputs", "faults"], "all paths and operation histories, including unwritable, unreadable and full destinations",
  "Errors and unusual paths (trailing slashes, files in place of directories, no permission, self copy) take paths that no test runs.",
  [V+"io/filesystem.hpp"], [("mkdir, copy, move, remove, explorer", V+"io/filesystem.hpp"), ("get_basename, get_directory, split_extension", V+"io/filesystem.hpp")]),
P("C23", "ASCII tables are written as documented and read back identically",
  "write_table lays out every combination of columns, column groups and formats exactly as documented (one line per row, delimiter, right-aligned automatic or minimum widths, header) and replaces any previous content; read_table with the matching format gives the same values back. For any text, read_table returns exactly the cells of the selected columns of the data lines (comments, blank and skipped lines excluded; repeated or single delimiters; either line ending), or rejects the table if a cell is missing or does not convert. Columns or headers of different sizes, and files that cannot be read or completely written, are always reported.",
  ["inputs", "faults"], "all schemas, formats, values and file contents; missing, forbidden, full destinations",
  "Each schema is a different template recursion, and malformed or unusual lines (empty cells, comments, short files) are not sampled by tests.",
  [V+"io/ascii.hpp"], [("read_table, read_column_, input_format", V+"io/ascii.hpp"), ("write_table, output_format, ftable", V+"io/ascii.hpp")]),
P("C24", "FITS images, HDUs and header keywords are stored and read back faithfully",
  "An image of any supported type and shape written to a FITS file is a valid FITS file holding exactly these values (infinite, NaN and denormal ones included) with the axes in FITS order, and is read back identically, whole, by subset or by pixel; a conversion that could lose information, other dimensions, or pixels outside the image are rejected. After any sequence of reach_hdu, write, update, write/remove_keyword, remove_hdu, flush, move, close and reopen, the file holds exactly the HDUs, data and keywords the sequence defines. read_keyword, getkey, setkey and parse_header return the value last written to the first keyword with that name and leave everything else alone. Files that cannot be opened are reported and the object stays usable.",
  ["inputs", "histories", "faults"], "all types, shapes, values, selections and operation histories; missing, invalid and forbidden files",
  "Tests write one or two images of ordinary values; errors, subsets, several HDUs and reuse after a failure are not covered.",
  [V+"io/fits/base.hpp", V+"io/fits/image.hpp", V+"io/fits.hpp"], [("file_base: open, reach_hdu, keywords", V+"io/fits/base.hpp"), ("input_image::read/read_subset/read_pixel, output_image::write, image::update", V+"io/fits/image.hpp"), ("getkey, setkey, parse_header, serialize_header", V+"io/fits/base.hpp")]),
P("C25", "FITS tables are stored and read back faithfully",
  "Columns of any supported type and shape, scalars and strings included, written to a column- or row-oriented FITS table are stored exactly, as the FITS standard prescribes for that type and these dimensions, and are read back identically under any letter case of the name; other dimensions, lossy types and missing columns are rejected unless the corresponding option (dim_promote, flatten, narrow, missing) is given. After any sequence of writing, updating, allocating and removing columns, updating elements, closing, reopening and moving, and with any mix of images and tables in other HDUs, the table holds exactly the columns and values the sequence defines, and column information agrees. Columns of a row-oriented table must have the same number of rows; a single value is only read from a column of one element, and elements are accessed with exactly the dimensions of the ranges.",
  ["inputs", "histories"], "all column types, shapes, orientations, options and operation histories",
  "Tests write a few columns of ordinary values once; row-oriented tables, updates, options and reuse are hardly sampled.",
  [V+"io/fits/table.hpp", V+"io/fits/file.hpp", V+"io/fits.hpp"], [("input_table::read_column, read_elements, read_column_info", V+"io/fits/table.hpp"), ("output_table::write_column, allocate_column", V+"io/fits/table.hpp"), ("table::update_column, update_elements, remove_column", V+"io/fits/table.hpp")]),
P("C26", "The lock-free queue delivers every element once, in order, to its consumer",
  "Under every interleaving of one producer and one consumer thread, pop yields exactly the pushed elements in the order they were pushed, none lost, duplicated or corrupted, and fails only when no element is queued; size and empty never deny an element that was already pushed. No interleaving contains a data race, an access to freed memory, a double free or a leak, and clear leaves an empty usable queue.",
  ["schedules", "histories"], "all interleavings of producer and consumer, all operation histories",
  "A test runs one interleaving, on one memory model; the windows are a few instructions wide.",
  [V+"utility/bits/thread-queue.hpp"], [("lock_free_queue::push/pop/size/empty/clear", V+"utility/bits/thread-queue.hpp")]),
P("C27", "A worker runs every pushed job once, in order, before wait returns",
  "For every interleaving, each job pushed to a worker is executed exactly once, in the order of the pushes, on the worker's thread; wait (and destruction) returns only when all jobs pushed before it are finished and their effects visible, and always does return. The worker can be used again after wait, jobs are destroyed, and there is no data race.",
  ["schedules"], "all interleavings of the owner and worker threads, all push/wait sequences",
  "Lost jobs or hangs at shutdown need a specific interleaving of the last push, the stop flag and the worker's emptiness test.",
  [V+"utility/bits/thread-worker.hpp", V+"utility/bits/thread-queue.hpp"], [("worker::consume_loop_/push/wait", V+"utility/bits/thread-worker.hpp")]),
P("C28", "A worker pool processes every item once on the worker it was given to",
  "For every interleaving, each item given to a pool is processed at most once and, once consume_all was called, exactly once before join (or destruction) returns; items without a target go to the workers in turn, each worker processes its own items in the order given, with its own workspace built from the start arguments. consume_all returns with nothing remaining, nothing is processed after join, a pool can be started again (joined before or not), nothing hangs and there is no data race.",
  ["schedules"], "all interleavings of the owner and the workers, all sequences of pool operations",
  "Losing, duplicating or misrouting an item depends on the interleaving of push, emptiness test and shutdown.",
  [V+"utility/bits/thread-worker-pool.hpp", V+"utility/bits/thread-queue.hpp"], [("worker_pool", V+"utility/bits/thread-worker-pool.hpp")]),
P("C29", "A parallel loop calls its function once for every index and no other",
  "For every range of indices, number of threads (including none), chunk size and progress display setting, and every interleaving, executing a parallel loop calls the function exactly once for each index from the first (included) to the last (excluded), and for no other, and returns once all calls are finished and their effects visible. The same loop object can be executed repeatedly.",
  ["schedules", "inputs"], "all ranges, thread counts, chunk sizes and interleavings",
  "Chunk arithmetic fails for specific combinations of range, thread count and chunk size; concurrent chunk requests need specific interleavings.",
  [V+"utility/bits/thread-parallel-for.hpp"], [("parallel_for::execute, query_chunk", V+"utility/bits/thread-parallel-for.hpp")]),
P("C30", "Cross-matching returns the true nearest neighbours",
  "For catalogues confined to a small field (up to a few arcminutes, possibly across RA=0; of comparable extents in linear coordinates) with the bucket algorithm, and for any catalogues with brute_force, qxmatch gives for each source of the first catalogue its nth nearest sources of the second one: distinct, by increasing distance, with their true separation (arcsec on the sky), no index (npos) and no finite distance where there are fewer sources; with self-matching a source is never its own neighbour. Unless disabled, the reverse match (rid, rd) gives the nearest source of the first catalogue for each source of the second. xmatch_clean_best partitions the sources into mutual nearest pairs and lost ones. qdist gives the angular distance of every pair of a catalogue, and results are saved and restored identically. The catalogues are not modified; coordinates that are not finite or of different sizes are rejected.",
  ["inputs"], "all positions, numbers of sources and options",
  "There are no unit tests of the matching; whether a neighbour is found depends on the geometry of the buckets relative to the sources (corners, axes, borders, degenerate fields).",
  [V+"astro/qxmatch.hpp", V+"astro/astro.hpp", V+"math/convex_hull.hpp"],
  [("bucket search, brute force search", V+"astro/qxmatch.hpp"), ("depth_cache", V+"astro/qxmatch.hpp"), ("field_area_hull, angdist", V+"astro/astro.hpp")]),
P("C34", "Multi-threaded cross-matching is race free and gives the same result",
  "With any number of threads, including more threads than sources, and under every schedule, qxmatch terminates without data race and returns nearest neighbours and reverse matches that satisfy the same definition as with a single thread (among equally near sources any one may be reported).",
  ["schedules", "inputs"], "all schedules of the worker threads, thread counts and catalogue sizes",
  "No unit test runs it with several threads, and a test would see only one schedule and one division of the sources between threads.",
  [V+"astro/qxmatch.hpp", V+"utility/thread.hpp"],
  [("division of the sources between threads and merge of the results", V+"astro/qxmatch.hpp"), ("thread::pool", V+"utility/thread.hpp")]),
P("C31", "Image geometry: every output pixel comes from the right place",
  "For 2-D images of any size, enlarge, shrink, subregion and recenter give the requested window of the image with the default value outside of it (an empty image if nothing is left), subregion lists exactly the pairs of pixels common to the region and the image; shift moves pixels cyclically, translate_integer moves them and blanks what comes from outside, for any displacement including ones larger than the image; flip_x and flip_y reverse columns and rows; translate, scale and rotate resample bilinearly (scale_bicubic bicubically) around the stated positions, with the default value outside; circular_mask gives the fraction of the four corners of each pixel within the radius, radial_profile the mean within successive annuli centred on the image; gaussian_profile integrates the gaussian over each pixel; boxcar hands to the function exactly the pixels within the half size; mask_inflate sets exactly the pixels within the given number of steps of a set pixel. Arguments are not modified, invalid regions and negative radii are refused, and no memory outside the images is accessed.",
  ["inputs"], "all image dimensions, contents, regions, displacements and centres",
  "There are no unit tests of these functions, and the errors lie at borders: regions hanging over an edge, boxes, kernels and shifts larger than the image, empty images.",
  [V+"astro/image.hpp", V+"math/interpolate.hpp"],
  [("enlarge, shrink, subregion, recenter, shift, translate_integer", V+"astro/image.hpp"), ("circular_mask, radial_profile, boxcar, mask_inflate", V+"astro/image.hpp"), ("bilinear_strict", V+"math/interpolate.hpp")]),
P("C32", "Convex hulls contain exactly their points",
  "build_convex_hull of any set of points returns exactly the extreme points of the set (no others, no duplicates, no point along an edge), for points not all aligned as a closed counter-clockwise polygon; nothing for no points. For a closed convex polygon built or given by the user, in either orientation, starting at any vertex, possibly with vertices along its edges, integer or floating point, and also after the vertices were modified and mark_as_dirty called, in_convex_hull is true for exactly the points inside or on the border, and convex_hull_distance (floating point hulls) is the distance to the border, positive inside and negative outside; scalar and vector versions agree. Open hulls, fewer than three vertices and coordinates of different sizes are refused. field_area_hull of a small field is the area of the polygon on the sky.",
  ["inputs"], "all point sets, polygons and probe positions",
  "Not covered by unit tests; degenerate inputs (aligned or repeated points, vertices along edges, empty sets) decide whether the chain is right.",
  [V+"math/convex_hull.hpp", V+"astro/astro.hpp"],
  [("build_convex_hull, convex_hull::validate, in_convex_hull, convex_hull_distance", V+"math/convex_hull.hpp"), ("field_area_hull", V+"astro/astro.hpp")]),
P("C33", "Sky coordinates and flux units are converted faithfully",
  "angdist and angdistr give the great-circle separation of any two positions, angdist_less agrees with it; normalize_coordinates brings any coordinates within [0,360] and [-90,90] without changing the position on the sphere; move_ra_dec displaces by the given small offsets; angrot_vernal rotates around the vernal axis, and rotating by minus vernal_angle brings a position on the equator, poles and meridians included. sex2deg reads [+-]d:m:s coordinates (hours for RA) including those between -1 and 0, and refuses anything malformed by returning false and NaN; deg2sex writes well-formed sexagesimal numbers, sign included, within 1e-4 of a second of the input, which sex2deg reads back. lsun2uJy/uJy2lsun, uJy2mag/mag2uJy, lsun2mag/mag2lsun and uJy2cgs/cgs2uJy are inverse of each other (with rest-frame and observed wavelengths as documented) with the stated constants. Vector versions agree with the scalar ones and refuse different sizes.",
  ["inputs"], "all angles, signs, magnitudes and malformed strings",
  "The only unit tests use a couple of positive positions; signs near zero, the poles, RA beyond a turn and tiny seconds are where the conversions break.",
  [V+"astro/astro.hpp"],
  [("angdist, normalize_coordinates, move_ra_dec, angrot_vernal, vernal_angle", V+"astro/astro.hpp"), ("sex2deg, deg2sex", V+"astro/astro.hpp"), ("lsun2uJy and other unit conversions", V+"astro/astro.hpp")]),
P("C37", "Fourier transforms and convolutions equal the direct sums",
  "fft_c2c and ifft_c2c compute the forward and (unnormalised) backward discrete Fourier transform, fft the non-redundant half of the transform of a real image, and ifft(fft(v)) is v times the number of pixels, without modifying their arguments. convolve2d (any kernel size), convolve2d_naive, convolve2d with a prepared kernel and the batch convolver (odd kernels) all give the convolution of the map, taken as zero outside, with the kernel centred on its middle pixel, including kernels larger than the map; a batch convolver gives the same result for every map of a sequence, and the cyclic one the periodic convolution. make_transition_kernel gives the kernel which turns one image into another of the same size by periodic convolution. Even kernels are refused where they are not supported; no memory outside the images is accessed, also when a convolver is moved.",
  ["inputs", "histories"], "all map and kernel dimensions and contents, sequences of maps given to one convolver",
  "The unit test compares the two implementations on a single square image; non-square maps, border pixels, kernels larger than the map and reuse of a convolver are not tested.",
  [V+"math/fourier.hpp", V+"astro/image.hpp"],
  [("fft, ifft, fft_c2c, ifft_c2c", V+"math/fourier.hpp"), ("convolve2d, convolve2d_naive, convolve2d_prepare_kernel, convolver2d, make_transition_kernel", V+"astro/image.hpp")]),
P("C38", "Segmentation finds exactly the connected components and their measures",
  "segment labels the 4-connected groups of non-zero pixels in scan order from first_id, removes exactly those smaller than min_area, and lists for the others their id, number of pixels, centre and a pixel they contain, whatever the output contained before; foreach_segment lists each pixel of each segment exactly once. segment_deblend processes pixels above the threshold by decreasing value, attaches each to the segment reached in the smallest number of steps below the deblending threshold (the one whose peak is closest to the reached pixel), starts a segment otherwise, drops pixels not connected to their peak, gives segments below min_area to the neighbour of sufficient area whose peak is closest to the contact, or drops them, and reports the true peak, area, flux and barycentre of each remaining segment. segment_distance attaches every pixel to a pixel of a segment: the segment, pixel and squared distance written in the three maps agree, and the distance is at most the number of steps to the nearest segment.",
  ["inputs"], "all maps, pixel orders, thresholds and minimal areas",
  "Not covered by unit tests; wrong areas and labels appear only for particular shapes (pixels with two neighbours in the segment, segments meeting at a corner, small segments between others).",
  [V+"astro/image.hpp"],
  [("segment, foreach_segment", V+"astro/image.hpp"), ("segment_deblend", V+"astro/image.hpp"), ("segment_distance", V+"astro/image.hpp")]),
P("C35", 'Random numbers stay in range, follow their distribution and can be replayed',
  'For every generator and every output of it: randomu is at least 0 and below 1, randomn is finite, randomi lies between the two (included) bounds, in scalar and vector form alike; random_coin never happens with probability 0 and always with probability 1; random_pdf lies within the tabulated range, random_pdf_discrete is an index of non-zero weight (an engine output of exactly 0 with a first weight of 0 excepted); vectors have the requested dimensions. Over equally likely outputs of the generator, each integer, coin face, discrete index and quantile of a tabulated distribution comes out as often as its probability says, for single draws and for vectors. shuffle and inplace_shuffle only rearrange their argument, and every arrangement can occur. The same seed or generator state gives the same numbers. random_pdf refuses values and probabilities that differ in number.',
  ['inputs'], 'all outputs of the random generator among extremes and regular values, all distributions and dimensions',
  'Simulations draw billions of numbers, so an extreme output of the generator occurs sooner or later; a unit test with one seed never sees it, nor a bias of a single integer.',
  [V+'math/random.hpp'],
  [('randomu, randomn, randomi, random_coin, random_pdf, random_pdf_discrete', V+'math/random.hpp'), ('shuffle, inplace_shuffle, make_seed', V+'math/random.hpp')]),
P("C36", 'Linear fits solve the weighted least-squares problem exactly',
  'For every data vector or image, errors and set of models of the same dimensions (scalars allowed for models, and for errors outside batches): linfit, linfit_pack, linfit_batch and linfit_pack_batch return the parameters that minimise chi2, the covariance matrix (inverse of the normal matrix), the errors (square roots of its diagonal) and the chi2 of the solution; a model of zeros, or two identical models alone, gives success=false with NaN parameters, errors and chi2. A batch fitter, after any sequence of model changes, fits and rejected calls, gives what a fit from scratch gives. linfit_nn and linfit_nn_pack with non-negative models return finite non-negative parameters whose chi2 is close to that of the best non-negative solution, report the chi2 of these parameters, and success=true. Data, errors or models of other dimensions are refused, even with as many elements.',
  ['inputs', 'histories'], 'all data sets, weights and models, all sequences of changes of a reused fitter',
  'The unit tests fit three noiseless data sets; weights, singular systems, negative solutions and the reuse of a fitter are not tested.',
  [V+'math/linfit.hpp', V+'math/matrix.hpp'],
  [('linfit, linfit_pack, linfit_nn, linfit_nn_pack', V+'math/linfit.hpp'), ('linfit_batch_t', V+'math/linfit.hpp')]),
P("C39", 'Failed writes and truncated files are reported, never taken for success',
  'Whatever the byte at which writing an ASCII table (ascii::write_table, all formats) or copying a file (file::copy) becomes impossible (full disk, quota), the call reports the failure, and when it reports success the file is complete. Every error status returned by CFITSIO during fits::write, update_hdu, write_table, update_table, the image and table objects (reported by their functions, by flush or by cfitsio_status after close) and the reading functions reaches the caller. A FITS image or table file cut at any length is either refused or read exactly, and after a failure no file is left open, and the same operation repeated with space gives the same file as if nothing had happened.',
  ['crash points', 'inputs'], 'all fault positions (bytes of the file, calls to CFITSIO, truncation lengths) of the listed operations',
  'Tests never run on a full disk; an unchecked status loses data silently.',
  [V+'io/ascii.hpp', V+'io/filesystem.hpp', V+'io/fits.hpp', V+'io/fits/base.hpp', V+'io/fits/image.hpp', V+'io/fits/table.hpp'],
  [('ascii::write_table', V+'io/ascii.hpp'), ('file::copy', V+'io/filesystem.hpp'), ('fits::write, write_table, update_table', V+'io/fits.hpp'), ('vif_check_cfitsio, file_base::open, close', V+'io/fits/base.hpp')]),
P("C40", 'Sky and pixel coordinates of a WCS agree with its FITS header',
  'For a header with a tangent-plane (TAN) projection, whatever the reference coordinates, pixel scale, rotation, parity, order of the RA and Dec axes and presence and position of a third axis, xy2ad gives the sky position of a pixel and ad2xy the pixel of a sky position (they are inverse of each other), scalars and vectors of any dimension agree, integer and fractional coordinates can be mixed, and get_pixel_size and get_image_rotation give the scale and orientation. x2w, w2x and build_axis give the coordinates along wavelength and frequency axes in the requested unit and refuse units of another kind. Coordinates with mismatched sizes, axes that do not exist, spectra without sky axes, and structures without astrometry (or moved from) are refused. make_wcs_header writes the requested keywords (from a structure or from text; ill-formed text is refused) and keeps the others; filter_wcs keeps astrometric keywords once and in order.',
  ['inputs'], 'all astrometric headers and coordinates of the bounded space',
  'Tests check a single image; an axis order or unit error silently moves sources on the sky.',
  [V+'astro/wcs.hpp'],
  [('wcs', V+'astro/wcs.hpp'), ('ad2xy, xy2ad', V+'astro/wcs.hpp'), ('x2w, w2x, build_axis', V+'astro/wcs.hpp'), ('make_wcs_header, filter_wcs', V+'astro/wcs.hpp')]),
P("C41", 'Regridded images and cutouts put every pixel at its place on the sky',
  'For images with tangent-plane astrometry whose grids differ by any shift, scale, rotation and mirror, regrid_drizzle gives every output pixel the flux of the input pixels in proportion to their exact overlap (including for pixels crossing the edges, any pixfrac, linearized or not, images and cubes), and the weights are the covered areas; regrid_interpolate gives the nearest, bilinear or bicubic value at the centre of the output pixel (multiplied by the pixel area to conserve flux) and NaN where the input does not reach; images with other dimensions than their astrometry are refused by regrid_drizzle. cutout_extractor::get_cutout returns the square of pixels around a position, with the default value in the pixels which are in none of the images, reports whether there is any overlap, corrects for the distortion map, and gives a header with the right size and astrometry.',
  ['inputs'], 'all pairs of pixel grids, options and positions of the bounded space',
  'There is no test of regridding; errors at the edges, in the options or in cubes silently change fluxes.',
  [V+'astro/image.hpp'],
  [('regrid_drizzle', V+'astro/image.hpp'), ('regrid_interpolate', V+'astro/image.hpp'), ('cutout_extractor', V+'astro/image.hpp')]),
P("C42", 'Stacking extracts exactly the cutouts of the covered sources',
  'For any image (or list of sections), positions and half size, qstack appends, for each source whose square of pixels overlaps the image, exactly the pixels around the pixel nearest to the source, undefined (NaN) outside of the image, together with its index and, when asked, its offset from the centre of that pixel and its section; sources with undefined pixels are left out unless keep_nan is given, sections only complete the undefined pixels of the cutout found in an earlier one, and what was already in the cube and index list is kept. With a weight map, the sources fully covered by the image are extracted from both files, the same ones in both; sections which do not cover the same sources are refused. Missing or truncated files, cubes, and coordinates or weights of other dimensions are refused, never extracted as something else, and mean, weighted mean, median and their bootstraps combine the cutouts pixel by pixel.',
  ['inputs'], 'all positions around the edges of the images, shapes, options, and truncations of the files of the bounded space',
  'There is no test of stacking; a source lost at the edge, a shifted cutout or an unread file silently changes the stacked flux.',
  [V+'astro/qstack.hpp'],
  [('qstack', V+'astro/qstack.hpp'), ('qstack_mean', V+'astro/qstack.hpp'), ('qstack_bootstrap', V+'astro/qstack.hpp')]),
P("C43", 'Fluxes through filters and fitted sources are those of the model',
  'The flux of an SED through a filter is the integral of their product over all the points of both, and the luminosity in a wavelength interval is the integral of exactly that interval, both undefined (NaN) when the SED does not cover it, including when the ends coincide; filters are read from databases, files and ranges with their content, normalisation and central wavelength, and unknown, ambiguous or malformed filters, bands and PSF models are reported as failures. Fitting a PSF to an image which follows the model returns its flux and background at any position, edges and undefined pixels included, subtracting a source changes exactly the pixels under its PSF, model PSFs have the requested shape and position, and picking sources returns the squares of pixels around the nearest pixels for exactly the sources that are completely inside the image and defined.',
  ['inputs'], 'all arrangements of the points of filters and SEDs, filter databases, shapes and positions of the bounded space',
  'The tests evaluate one SED in one filter; the ordering of the points, coinciding ends, non-square PSFs and edges are not reached.',
  [V+'astro/astro.hpp'],
  [('sed2flux', V+'astro/astro.hpp'), ('sed_luminosity', V+'astro/astro.hpp'), ('get_filter', V+'astro/astro.hpp'), ('psffit', V+'astro/astro.hpp'), ('make_psf', V+'astro/astro.hpp')]),
P("C44", 'Cosmological functions, pair counts and random positions are right',
  'For each cosmology and redshift of any numeric type, luminosity distance, lookback time, volume and proper size are the integrals that define them (zero or infinite for redshifts which are not positive), and the versions for vectors give the same for any number of elements, within the interpolation error for large ones, whatever the mixture of zero, negative, identical and undefined redshifts. The area of a convex field is that of its hull, and the angular correlation is the Landy-Szalay estimator over all pairs of distinct positions. Random positions are in the requested number, inside the box, circle and region for any output of the random engine, and a region which cannot be reached is reported as a failure.',
  ['inputs'], 'all redshifts, vector sizes, positions and outputs of the random engine of the bounded space',
  'The tests compare a few values for two vectors; degenerate vectors, integer redshifts and extreme random numbers are not reached.',
  [V+'astro/astro.hpp'],
  [('lumdist', V+'astro/astro.hpp'), ('VECTORIZE_INTERPOL', V+'astro/astro.hpp'), ('angcorrel', V+'astro/astro.hpp'), ('randpos_uniform_circle', V+'astro/astro.hpp'), ('randpos_power_circle', V+'astro/astro.hpp')]),
P("C45", 'DS9 regions keep their position, size and meaning',
  'Reading a DS9 region file returns exactly the well-formed circles and boxes of its lines, in their order, with the coordinate system, colour and text that apply to each (ignoring comments, other shapes and malformed lines), in pixels counted from zero for physical regions and in degrees and arcseconds for regions on the sky. Converting regions between the sky and pixels, or writing them in either form and reading them back, keeps their shape, position, size and angle for any orientation and scale of the image, and what cannot be done (a missing file, a sky region without astrometry) is reported as a failure. Masking regions on an image adds exactly the pixels whose center is inside the rotated box or which have at least three corners inside the circle, for any size of the image and any position, outside included.',
  ['inputs'], 'all sequences of lines, images, shapes, positions, sizes and angles of the bounded space',
  'No test reads or writes a region file.',
  [V+'astro/ds9.hpp'],
  [('read_regions', V+'astro/ds9.hpp'), ('write_regions_physical', V+'astro/ds9.hpp'), ('wcs_to_physical', V+'astro/ds9.hpp'), ('physical_to_wcs', V+'astro/ds9.hpp'), ('mask_region', V+'astro/ds9.hpp')]),
P("C46", 'Non-linear fits end at the minimum they claim, within their constraints',
  'Fitting a model to data (mpfit, mpfitfun) always ends, never returns a worse chi-squared than the starting point, reports the chi-squared of the returned parameters, never moves frozen parameters nor leaves the limits, and reports success only at a stationary point when no limit is set; for linear models without limits, or with a single limited parameter, it returns the exact minimum, covariance and errors from any start and with any way of computing derivatives. Minimising a function (minimize_bfgs) obeys the same rules for its value, gradient tolerance and maximum number of iterations. Incompatible dimensions or options are reported as failures.',
  ['inputs'], 'all models, starts, limits, frozen parameters, derivatives and tolerances of the bounded space',
  'No test fits anything with these functions.',
  [V+'math/mpfit.hpp', V+'math/optimize.hpp'],
  [('mpfit', V+'math/mpfit.hpp'), ('mpfitfun', V+'math/mpfit.hpp'), ('minimize_bfgs', V+'math/optimize.hpp')]),
P("C47", 'Template fits select the best template and its amplitude',
  'Fitting a library of templates to fluxes (template_fit) returns, for each template, its fluxes through the filters at the given redshift and distance (or the average for several), the amplitude that minimises the chi-squared, and the chi-squared with or without renormalisation, selects the template of the lowest one, and each of the requested simulations is the same fit of the fluxes shifted by their uncertainties, upper limits unchanged. Combining several libraries (multi_template_fit) returns the best of all the combinations which the constraints allow and which are not degenerate, whatever the order in which these appear, or undefined values when there is none. Upper limits are weighted with the probability that the flux is below them, within the documented 0.3%.',
  ['inputs'], 'all libraries, sets of bands and limits, constraints and options of the bounded space',
  'No test fits templates.',
  [V+'astro/template_fit.hpp'],
  [('template_fit', V+'astro/template_fit.hpp'), ('multi_template_fit', V+'astro/template_fit.hpp'), ('template_observed', V+'astro/template_fit.hpp'), ('limweight', V+'astro/template_fit.hpp')]),
P("C48", 'Progress bars, durations and dates report what happened',
  'For any number of iterations, printing period and timing, the progress functions print only when due, each time a bar, iteration, percentage, elapsed, remaining and total time that match the iterations done and the clock, erase what was printed before, end with a full bar and one end of line, and print nothing afterwards (or without iterations). time_str and seconds_str write any duration with the documented components, which read back as that duration within the resolution of the format. now and profile measure the time elapsed, profile runs its function the requested number of times, and today returns the date as yyyymmdd.',
  ['inputs', 'histories'], 'all iteration counts, periods, durations and dates of the bounded space, with the clock under control of the check',
  'No test calls them; errors show for specific counts (short loops, last iteration) and durations.',
  [V+'utility/time.hpp'],
  [('progress, progress_tick, print_progress', V+'utility/time.hpp'), ('time_str, seconds_str', V+'utility/time.hpp'), ('now, profile, today', V+'utility/time.hpp')]),
P("C49", 'Messages, prompts, settings and commands behave as documented',
  'print, error, warning and note write exactly their prefix, their arguments side by side and one end of line. prompt asks again (with the error message if any) until a line holds one value of the requested type and nothing else, stores it, consumes no further line, and returns false at the end of the input. system_var returns the variable converted to the requested type, or the default when it is unset or cannot be converted; spawn returns true exactly when the command exits with status 0.',
  ['inputs', 'histories'], 'all sequences of arguments and input lines of the bounded space',
  'No test calls them; prompt depends on the whole sequence of lines and on the end of the input.',
  [V+'core/print.hpp', V+'utility/os.hpp'],
  [('print, prompt', V+'core/print.hpp'), ('system_var, spawn', V+'utility/os.hpp')]),
]

NOT_APPLICABLE = []   # (property id, reason)

def main():
    ids = [p["id"] for p in PROPS]
    assert len(ids) == len(set(ids))
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in PROPS:
            if p["id"] in CHECKS or p["id"] in [n[0] for n in NOT_APPLICABLE]:
                f.write(json.dumps(p) + "\n")
            else:
                print("no check yet:", p["id"])
    checks = []
    for p in PROPS:
        pid = p["id"]
        if pid not in CHECKS: continue
        c = CHECKS[pid]
        conc = c.get("engine") == "conc"
        tech = c.get("technique") or ("stateless model checking of the real threads: all schedules up to a preemption bound under a controlled scheduler"
            if conc else "explicit bounded exhaustive exploration of the real code (all choice sequences) against a reference model")
        note = c.get("note") or ("Exhaustive within the bounds (see evidence: bounds); trusts the scheduler runtime and, as memory model, sequential consistency plus "
            "happens-before race detection on every instrumented access." if conc else
            "Exhaustive within the bounds (see evidence: bounds); trusts the compiler, AddressSanitizer and the small reference model in harness/.")
        checks.append(dict(property=pid, quick_cmd="python3 run.py %s --tier quick" % pid, thorough_cmd="python3 run.py %s --tier thorough" % pid,
            evidence_file="evidence/%s.json" % pid, technique=tech, level=c.get("level", "model_checking"), level_note=note))
    m = dict(version=1, setup_cmd="python3 run.py --selftest", checks=checks,
        not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE],
        notes="Every check rebuilds its harness from /repo/include (the library is header-only) in /verif/build/<id>.<pid> and removes it. No hooks in /repo are needed.")
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1); f.write("\n")

    # the per-property section of DESIGN.md
    import bounds
    out = []
    for p in PROPS:
        pid = p["id"]
        if pid not in CHECKS: continue
        c = CHECKS[pid]; o, lim = bounds.ORACLE.get(pid, ("", ""))
        q, t = bounds.BOUNDS.get(pid, ("", ""))
        out.append("### %s %s" % (pid, p["title"]))
        out.append("- Decided by: %s (harness/%s)." % ("all schedules of the real threads (engine 2)" if c.get("engine") == "conc" else "all choice sequences on the real code (engine 1)", ", ".join(sorted(set(x.partition("@")[0] for x in c["src"])))))
        out.append("- Oracle: %s." % o)
        out.append("- Enumerated (quick): %s." % q)
        if t: out.append("- Thorough adds: %s." % t)
        out.append("- Beyond the tests: %s" % p["why_tests_cant"])
        if lim: out.append("- Limits: %s." % lim)
        out.append("")
    d = open(ROOT + "/DESIGN.md").read()
    a, b = "<!-- properties: generated by props.py -->\n", "<!-- end of generated part -->"
    if a in d:
        d = d[:d.index(a) + len(a)] + "\n".join(out) + "\n" + d[d.index(b):]
        open(ROOT + "/DESIGN.md", "w").write(d)

if __name__ == "__main__":
    main()
