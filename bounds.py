"""Bounds of each exploration, reported in the evidence: (quick, what the thorough tier adds)."""
BOUNDS = {
"C01": ("two vectors, histories of 3 operations out of 22 kinds (1-D, int/string/bool/double), of 3 out of 15 kinds (2-D and 3-D int), of 2 (2-D string, bool); all dimensions at most 3", "histories of 4 (1-D and 2-D int, double, string) and 3 operations (2-D string, bool)"),
"C02": ("1 to 4 dimensions of 0 to 4 elements, five categories of object, nine index types, every index from below -2n to above 2n (from -n-1 to n+1 per position for 2-D, borders of each position for 3-D and 4-D) plus type limits; lengths 127..70000 around the limits of the index types", ""),
"C03": ("shapes up to 4 (1-D), 3x3 (2-D), 2x2x2 (3-D), 2x1x2x2 (4-D); every combination of scalar, full, left, right and two-sided ranges, index vectors of up to 3 entries and views of them; all bounds from -1 to n+1", ""),
"C04": ("1-D vectors of up to 4 elements, all selections of up to 3 distinct elements by six kinds of index, 15 kinds of right-hand side with all source index lists, nine operators; 2-D up to 3x3 with row, column and index-list selections on both sides", "selections of 4 elements, all operators on 4 elements"),
"C05": ("all pairs of operand categories (vector, const vector, temporary, view, const view, scalar) for 16 operators and their compound forms, 14 pairs of element types, 1-D shapes 0..3 and 2-D shapes up to 2x2, equal and different; every pair of starting values in the alphabet of each type", ""),
"C06": ("70 functions times argument categories, shapes 0..3 and 2x2, every starting value of an alphabet with zeros, negatives, infinities and NaN; binary and n-ary forms with all pairs of categories and sizes 0..3", ""),
"C07": ("ranges over -5..7 and 4 types; iterator programs of 5 operations out of 10 on vectors and views of up to 4 elements; strides of all rows and columns of five 2-D shapes, six 3-D shapes; six standard algorithms on all vectors of up to 4 elements over 3 values", "iterator programs of 6 operations"),
"C08": ("14 pairs of element types, shapes 0..3 and up to 2x2, six ways of converting; all nested lists of up to 3 lists of up to 3 values (2-D) and 72 3-D list structures; all dimensions up to 3", ""),
"C09": ("all boolean vectors of up to 8; all pairs of vectors of up to 4 elements over 3 values (match, sets); all embeddings of vectors of up to 3 elements in vectors of 61 to 67 (match on long inputs); all maps of up to 9 pixels with every start (astar_find)", "astar_find on maps of up to 16 pixels"),
"C10": ("all vectors of up to 6 (int), 5 (double, float, string, char), 8 (bool) elements over small alphabets with NaN and infinities, 2-D shapes up to 6 elements, 960 structured vectors of 17 to 52 elements, all views of 4 elements; all sorted vectors of up to 5 with all searched values, 9 pairs of types", "up to 9 (int), 7 (double), 8 (string), 14 (bool) elements"),
"C11": ("lengths 0..6 with shifts -13..13; all 2-D and 3-D shapes up to 3; all index lists with entries up to n; all target dimensions up to 6x3x2; concatenation of all pairs of 2-D and 3-D shapes up to 2 along each dimension", ""),
"C12": ("all dimensions up to 5 (1-D, 2-D) and 3 (3-D, 4-D), every index, index vectors of up to 3 entries, all out-of-bounds positions", ""),
"C13": ("all vectors of up to 6 (int), 5 (double with NaN and infinities), 4-5 (float, uint) elements over 3-4 values, 2-D shapes; weights over {0,1,2.5,NaN} for up to 3 elements; all 2-D, 3-D and 4-D shapes up to 3 with every dimension and 4 fillings", "up to 8 (int) and 7 (double) elements"),
"C14": ("all data of up to 4 values out of 7 (edges, inside, outside, NaN) against all bin layouts of the list (contiguous, gaps, single, empty); all 2-D samples of up to 3 points over 5x5 values", "5 values, 4 points"),
"C15": ("tables of up to 4-5 points with all gaps out of {0.5,1,3} and ordinates out of 3, evaluated at every node, middle, outside and non-finite position; maps up to 3x3 with all contents out of 3 values; all integration bounds at nodes and between; 1920 ranges per type; the same with tables of signed and unsigned integers", "one more point per table"),
"C16": ("all products of shapes 0..4; all 2x2 matrices over 5 values and 3x3 over {-1,0,1} with all their solutions; 18432 weighted permutations of 4x4; symmetric 2x2, 3x3 over 4 values; svd of 1x1 to 3x3 over 3-5 values; exact integer oracle; with and without LAPACK", "all 4x4 over {0,1}, 3x3 over 5 values, symmetric 4x4 over {-1,0,1}"),
"C17": ("all strings of up to 6 characters over 2-3 letters with all patterns of up to 3; 4 letters up to 5-7 characters for words and blocks; all 256 characters for the case functions", "one or two more characters"),
"C18": ("all strings of up to 6 characters over {a , space} with 6 separators; texts of up to 4 words over 5 lengths with all widths out of 4 and 3 indentations, all spacings; all regular expressions of up to 3 symbols with all subjects of up to 4-5 characters, longer list for vectors", "up to 8 characters, 5 words, longer expressions"),
"C19": ("all strings of up to 6 symbols of {0 1 . - + e} and 4 letters/blanks for eight types, all limits of the integer types and their neighbours, all combinations of formats on 75 values", "7 symbols"),
"C20": ("all lengths 0..319 with 5 fillings against an independent SHA-1, every byte value at 350 positions, pairwise distinctness of 400 argument lists", "lengths up to 1199"),
"C21": ("all command lines of up to 3 arguments out of 50 forms for 8 variables of all supported types; two-step reading of up to 2 arguments; 216 written argument sets", "two-step reading of 3 arguments"),
"C22": ("all paths of up to 7 characters over {a b / .}; all histories of 2 (4 paths) and 3 operations (deep tree) from 3 initial trees with the whole tree compared after each; 10 file sizes around buffer sizes; unreadable and unwritable directories; symbolic links (to files, directories, missing files, themselves) in every position of every operation; explorer histories of 4 operations", "histories of 3 and 4 operations, paths of 8 characters"),
"C23": ("10 schemas x 7 formats x 4 headers x 0..3 rows x 6 value sets; all texts of up to 3 lines out of 20 line patterns, 3 endings, 6 reading modes, 9 schemas; size mismatches; eight kinds of unreadable, unwritable or full (/dev/full) destination", "30 value sets, 4 lines"),
"C24": ("all 1-D to 3-D shapes up to 4/3/2 x 7 types x 3 value sets, byte-level comparison with an independent FITS reader; all subsets of images up to 4, 3x3, 2x3x2; histories of 5 operations out of 14 on HDUs, of 2 on keywords with 3 names and all value types, of 3 on header strings; 64 combinations of bad files", "all value sets, histories of 6, 3 keyword operations"),
"C25": ("all shapes up to 4/3/2 x 8 types x column/row orientation x 3 value sets, byte-level comparison with an independent FITS reader; all pairs of types; histories of 3 operations out of 7 on tables with four kinds of columns; HDU mixes", "all value sets, histories of 4 operations"),
"C26": ("1-3 elements, one producer and one consumer, all schedules with up to 3 deviations (attempts) or 5 (pop all); single-threaded histories of 7 operations", "4 elements, 5 and 8 deviations, histories of 9"),
"C27": ("up to 2 rounds of up to 3 jobs, all schedules with up to 3-4 deviations", "4-6 deviations"),
"C28": ("1-2 workers, up to 3 items, 2 rounds, restart with 0-2 workers; all schedules with up to 3-4 (one worker) or 2 (two workers) deviations", "3 workers, 4-5 and 3 deviations"),
"C29": ("0-4 threads, 15 lengths, 4 first indices, 7 chunk sizes under the default schedule and 1 deviation; all schedules with 3-4 deviations for up to 4 indices and 3 threads; reuse of the object", "24 lengths, 4-6 deviations"),
"C30": ("catalogues of up to 2x2 sources (3 for self-matching) at all combinations of offsets, fields of up to 9x7 sources with probes on a 4x4 grid, lines of up to 6 sources; 2 coordinate systems x bucket/brute force x options; positions anywhere on the sphere for brute force", "3 offsets, 8x8 probe grid"),
"C31": ("images up to 4x4, all paddings up to 2, crops up to 3, regions from -3 to m+3, shifts from -m-2 to m+2, centres and sizes around the image; all binary masks up to 3x4 with distances 0..4", "images up to 5x5, masks 3x5"),
"C32": ("all sequences of up to 4 points of a 3x3 grid, all subsets of 12 points of a 4x4 grid; 13 polygons in all rotations, orientations, closed or not, three types; probes on a half-step grid around", "5 points, all subsets of 16"),
"C33": ("all pairs of 11x9 positions; all sign/degree/minute/second combinations of the lists (0, 1, 59, fractions, tiny), malformed strings, 279312 values written; 324 unit conversions", "full product of RA and Dec strings"),
"C34": ("2-3 threads, up to 3x2 sources, linear/sky, self, mirror, nth; all schedules with up to 2-3 deviations", "4 threads, one more deviation"),
"C37": ("maps up to 6x6 (transforms), 4x4 (convolution) with kernels up to 5x5, all impulses (basis of the linear map) and 3 full patterns; sequences of 2 maps for a convolver; transition kernels up to 5x5", "8x8, 6x6 with kernels up to 7x7, sequences of 3"),
"C38": ("all binary images of 8 shapes up to 12 pixels, all images over 3 values of 3x3; all orders of the pixel values of 1x6 and 2x3 images and 24576 3x3 peak configurations with all thresholds; all label maps up to 3x3 and 2x5 for segment_distance", "4x4 binary images, 1x7 orders, 3x4 label maps"),
"C49": ('all messages of up to 3 arguments of 10 kinds; all sequences of up to 3 lines out of 11 (with or without final newline and error message) for 4 types; 60 variables; 12 commands', 'sequences of 4 lines'),
"C48": ('13 loop lengths x 6 periods x 5 iteration times, with and without a pause; 13 lengths x 3 times x 5 tick lengths; all histories of 4 steps out of 5 for 6 lengths and 4 periods; 1497 long, 60 short and 3072 detailed durations; all days of 8 years', 'histories of 5 steps, two more orders of magnitude'),
"C47": ('6144 fits of 1 to 3 templates in 1 to 3 bands (4 ways to give the redshift, measured or limits, 0 to 2 simulations); 3612 fits of 1 or 2 libraries with every subset of their combinations allowed; 97 limits', 'one more scale of the fluxes (negative)'),
"C46": ('227124 linear fits of 1 to 3 parameters to 2 to 4 points (3 data sets, 2 sets of errors, 3 starts and 7 constraints per parameter, 6 variants of derivatives and steps); 1068 fits of 9 non-linear models; 48 wrappers; 7136 minimisations of quadratic and Rosenbrock functions', 'up to 5 points'),
"C45": ('82740 files of 1 to 4 lines among 14; 1536 regions converted and written under 16 astrometries; 14400 masks of 1 or 2 regions on 4 image shapes', 'files of up to 5 lines'),
"C44": ('11 redshifts in 6 cosmologies; 1008 vectors of 0 to 1750 redshifts; 108 fields; 45000 pairs of sets of 2 or 3 positions; 17448 uniform and 1800 clustered sets of positions, 82836 with the engine then constant; the named cosmologies; with the first outputs of the engine enumerated among 5 values', 'same bounds'),
"C43": ('filters of 2 or 3 points and SEDs of 1 to 4 points on all subsets of two grids with common points (8960 histories, float and double); 6864 luminosities; 33600 filter databases of 1 to 4 lines; 8775 band lists; 15408 PSF fits, 3140 subtractions, 432 images to pick from, 576 models, 1944 PSF files with their peak at every pixel', 'same bounds'),
"C42": ('images of 1x1 to 7x7 pixels, half sizes 0 to 3, sources at all the pixels in and around the image (4 patterns of offsets), bad pixels, all options, 2-D images and cubes with one plane: 6400 histories; 3456 with 2 or 3 sections; 1170 with sources between two pixels; 6144 with weights; 144 truncations; 1080 combinations of up to 4 cutouts', 'half sizes to 4, all combinations of the options'),
"C41": ('27648 pairs of grids up to 3x3 pixels for drizzle (4 scales, 3 angles, 2 parities, 6 offsets, 6 sets of options, both directions) and 9216 with floats and cubes; 41472 for interpolation (up to 5x4 pixels, 3 methods); 4500 cutouts (1 or 2 images, distortion, 3 sizes)', '7 shapes and all offsets everywhere, all positions of cutouts'),
"C40": ('4608 celestial headers (3 RA, 4 Dec, 3 scales, 4 orientations, 8 axis layouts, 4 reference pixels) x 12 pixels x 6 uses; 3328 linear axes (13 units, 2 dimensions) x 15 output units; 1445 generated and filtered headers', 'same headers, keyword subsets up to 10'),
"C39": ('5 text operations limited to every byte of files up to 400 bytes (every 240 to 1000 bytes above) up to 1200 rows; every one of the 2-20 CFITSIO calls of 16 operations; FITS files cut every 360 bytes and around every block', 'every byte up to 4000 bytes, 3000-30000 rows, cuts every 36 bytes'),
"C36": ('1-3 models, 1-4 points (6 for images), values from sets of 2-3 integers, errors 0.5, 1, 2; batch histories of 3 steps out of 31 operations from 16 starting points; non-negative fits of 1-2 models', '4 points for one model, 3 data values for two, histories of 4 steps'),
"C35": ('engines with 3 enumerated outputs out of 7 extremes, 288 shapes, ranges of 1-8 integers, coins p/n with n up to 10, up to 4 weights 0-3, tabulated distributions of 2-4 points, shuffles of up to 5 elements', '24 -> 64 quantiles for randomu, otherwise as quick'),
}
def text(pid, tier):
    q, t = BOUNDS.get(pid, ("", ""))
    return q if tier == "quick" else (q + "; thorough: " + t if t else q)

# What decides each property: (oracle, limits / what is deliberately not specified)
ORACLE = {
"C01": ("an independent row-major array model (harness/ref.hpp) executes the same history; dimensions, elements and independence of all vectors are compared after every operation, AddressSanitizer watches the memory", "dimensions of an emptied vector beyond 'no elements' follow the source's documented clear()"),
"C02": ("mathematical value of the index (128-bit) modulo sign: in [-n,n) it must denote the element, outside it must be rejected; writes are compared over the whole vector", "an index between -2n and -n, which vif wraps once more, may be wrapped or rejected; memory safety is required either way"),
"C03": ("the list of selected flat positions computed from the arguments by the model", "a handful of argument combinations do not compile in vif (listed below) and are not generated"),
"C04": ("model assignment from a snapshot of the right-hand side", "plain '=' between views only requires the same number of elements, as in the code"),
"C05": ("scalar operation of the compiler on each pair of elements, snapshot of the operands", ""),
"C06": ("scalar standard-library function on each element", "the accuracy of the scalar functions themselves is that of libm"),
"C07": ("positions: the model iterator is an integer", ""),
"C08": ("static_cast of each element; structure of the literal lists", ""),
"C09": ("brute-force definition (quadratic loops)", "order of equal keys as documented"),
"C10": ("std::stable_sort on (value, index) pairs of the model and linear search", ""),
"C11": ("index arithmetic of the model, one position at a time", ""),
"C12": ("nested loops", ""),
"C13": ("definitions evaluated on sorted copies with NaN removed, in long double where sums matter", "results within 1e-12 relative (1e-5 for float)"),
"C14": ("per-value linear search of the bins", ""),
"C15": ("closed piecewise formulas, natural spline from an independent tridiagonal solve", "none"),
"C16": ("exact integer (fraction-free Bareiss) determinant, adjugate and products; reconstruction and orthogonality identities for the factorisations", "invert_symmetric fills one triangle; ill-conditioned matrices are outside the bounds"),
"C17": ("independent character-level implementations", "empty patterns unspecified"),
"C18": ("independent splitting/wrapping; POSIX regexec driven match by match for the expressions plus a brute-force leftmost-longest matcher", ""),
"C19": ("hand-written grammar of numbers plus exact integer ranges, strtod for the value", ""),
"C20": ("independent SHA-1", "collision resistance is SHA-1's"),
"C21": ("a model of the argument grammar applied to each command line; output captured", "a space before a comma in arg_list names"),
"C22": ("a map from paths to contents (the model file system); the real tree is listed with the C library after every operation", "remove of a non-empty directory only has to fail or remove"),
"C23": ("independent formatter and cell splitter; /dev/full, missing and forbidden files as faults", ""),
"C24": ("an independent FITS reader written from the standard (harness/fitsref.hpp) reads the bytes; a list-of-HDUs model executes the history", "see 'not specified' below for cfitsio limits"),
"C25": ("the same independent reader for BINTABLE; a list-of-columns model executes the history", "a rejected update_column of a row-oriented table may already have removed the column"),
"C26": ("sequence of pushed elements; happens-before race detector; allocation tracking (use after free, double free, leak) over every schedule", "C++ weak-memory reorderings beyond races are not explored: schedules are sequentially consistent"),
"C27": ("log of executed jobs, visibility of their writes by the race detector", "as C26"),
"C28": ("log of processed items per worker", "join without consume_all may drop queued items, as the code does; as C26"),
"C29": ("count of calls per index", "as C26"),
"C30": ("exhaustive search over all pairs with an independent haversine in long double", "bucket mode specified only for small fields (its grid is approximate at the poles and for wide fields); ties may resolve to any index"),
"C31": ("per-pixel definitions", "bicubic values themselves are those decided in C15"),
"C32": ("exact integer geometry: a point is extreme iff in no segment/triangle of the others; half-plane tests; segment distances", "membership in hulls of aligned points unspecified"),
"C33": ("vector geometry on the unit sphere in long double; independent sexagesimal grammar; documented constants", "deg2sex may print 60.0 seconds; separations of antipodes lose digits"),
"C34": ("same oracle as C30 under every schedule, plus the race detector", "as C26"),
"C37": ("direct sums", "maps of different sizes given to one convolver2d are unspecified"),
"C38": ("flood fill and a literal transcription of the deblending rules on sets of pixels; validity of the distance maps", "segment_distance may exceed the Euclidean nearest distance (documented as approximate)"),
"C49": ('concatenation of the texts; an independent grammar of numbers; the standard input is replaced by one that notices endless reading', 'fork() (a command in the background) is not run'),
"C48": ("integer arithmetic on the controlled clock (clock_gettime, time and gettimeofday are replaced by the check's own), an independent parser of durations and calendar", 'zero components may be omitted or not; durations are compared within the microsecond of now()'),
"C47": ('piecewise linear integrals, normal equations and ternary search in long double over all templates and combinations', 'the random engine returns equal numbers; simulations of multi_template_fit with upper limits are not checked; degenerate combinations are not judged when upper limits are used'),
"C46": ('normal equations solved in long double, with all combinations of active limits; gradient of the model by central differences', 'convergence of several parameters with limits is not checked (a step shortened by one limit may end the fit, as in the original MPFIT), nor parameters which pass within rounding of zero (the step of the derivatives vanishes, as in the original)'),
"C45": ('list of expected regions built with the file; gnomonic projection in long double; direct geometry of the pixels', 'pixels exactly on the border of a region are not judged; colour and text are not written by the library; coordinates in fk5'),
"C44": ('Simpson integration in long double with 2000 steps; brute-force pair counts', 'area of fields with more than 20 sources (a heuristic) is not checked; small fields only (flat triangles)'),
"C43": ('trapezoids between the union of the points in long double; direct definitions', 'PSF images with odd dimensions (as documented by their use); SEDs and filters with increasing wavelengths'),
"C42": ('direct indexing of the pixels, positions projected in long double', 'tangent-plane astrometry; the pixel chosen for a source exactly between two pixels is free; infinite pixels may be reported as NaN (as CFITSIO does)'),
"C41": ('polygon clipping and projection formulas in long double; bicubic values from the function checked in C15', 'grids tangent at the same point of the sky (the transform is then exactly affine); interpolated values exactly on pixel centres or edges are not compared, except for integer translations with the linearize option'),
"C40": ('closed form of the gnomonic projection and linear axes in long double', 'TAN projection only; pixel size and rotation to 1e-4 (finite differences); axes without CUNIT may be taken as SI (as WCSLIB does) or refused'),
"C39": ('the file written without fault; real write failures from the file size limit (RLIMIT_FSIZE) of the process, CFITSIO calls replaced by failing ones', 'CFITSIO itself ignores failures of fflush and fseek, so for FITS files the faults are injected at its interface; queries of the number of HDUs, columns and keywords are not faulted'),
"C36": ("normal equations solved by Cramer's rule in extended precision; for linfit_nn the best of all active sets", 'linfit_nn is iterative: chi2 within 2% of the chi2 of the null model above the optimum is accepted; nearly singular systems are not judged'),
"C35": ('counts over all equally likely engine outputs; exact cumulative distributions; multiset equality for shuffles', 'statistical quality of the standard engine itself and independence of successive draws are not examined; std::discrete_distribution may return a leading index of weight 0 when the engine gives exactly 0'),
}
