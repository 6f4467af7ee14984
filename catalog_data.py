prop('P01', 'Baseline numbering is a bijection in both orders',
     'For every number of antennas (up to 2^24) and both the column-major and the row-major order, the n(n+1)/2 baselines including autocorrelations are numbered 0..n(n+1)/2-1 without gaps or repeats, in the documented order: the index of a pair does not depend on the order of its antennas, converting an index to an antenna pair gives the ordered pair with that index, and the list of baselines of an antenna has, at position k, the index of the baseline with antenna k.',
     'all antenna counts n, all antenna pairs, all baseline indices, both orders',
     'The unit test enumerates 5 antennas; rounding of the square root, integer overflow and off-by-one at row boundaries show only for large n.',
     ['common/baseline_indices.h'], [('index <-> pair arithmetic', 'ComputeNBaselines, ComputeBaselineIndex, ComputeBaseline, ComputeBaselineList')],
     ['AartfaacReader baseline table', 'AntennaFlagger statistics per antenna'],
     note='All functions of the header proved for all n <= 2^24 (double treated as real in one direction; rounding checked at run time at every row boundary).')

prop('P02', 'A step chain requests exactly the fields that are read before being created',
     'Combining field sets is per-field union and leaves its operands alone, two sets are equal exactly when all four fields (data, flags, weights, uvw) agree, and a set prints the names of its members in that order. Propagating requirements backwards over one step yields a field exactly when the step requires it, or when it is needed later and the step does not provide it; hence over any chain of steps the reader is asked for a field exactly when some step requires it before any earlier step provides it without requiring it.',
     'all field sets, all required/provided combinations, chains of every length (by induction over the one-step law)',
     'Tests try seven of the 4096 combinations for one step and no chains.',
     ['common/Fields.h', 'common/Fields.cc'], [('bit-set algebra', 'Fields::UpdateRequirements, operator|, operator|=, operator==')],
     ['fields read by the input step', 'Fields printed by "show"'],
     note='Every operation proved for all field sets; printing is decided by an exhaustive runtime contract (16 values).')

prop('P03', 'Solutions with direction-dependent intervals are upsampled to the right times',
     'For every list of numbers of solutions per direction that divide the solution interval, the number of substeps is a common multiple of them: the largest one if the others divide it, else the solution interval. Every time step, antenna, direction and polarization maps to the solution interval that holds the step and to the sub-solution that is valid then, at its position in the solution vector; upsampling solutions and upsampling constraint results (values, weights and dimensions, for every number of axes) copies exactly those values.',
     'all direction counts, interval lengths, antenna/polarization/channel-block counts, result shapes and values',
     'Three tests use one or two shapes each; the mapping is only right if it is right for every combination of intervals.',
     ['ddecal/SolutionResampler.cc', 'ddecal/SolutionResampler.h'], [('index arithmetic', 'SolutionResampler::SolutionResampler, MapResampledToOriginal, Upsample')],
     ['solutions written by DDECal', 'constraint results written to H5'],
     note='Constructor and index mapping proved for all inputs; the two copying functions by bounded runtime contracts.')

prop('P04', 'Applying station gains multiplies every visibility by its station matrices',
     'For every set of baselines, channels and station Jones matrices, applying gains replaces each 2x2 visibility V of a cross-correlation p-q by J_p V J_q^H, in every channel, with the matrices of exactly those two stations; autocorrelations and everything else in the buffers stay as they were, and nothing outside the buffers is accessed.',
     'all numbers of baselines, channels and stations, all matrices, all visibilities, all buffer strides',
     'There is no unit test of this routine; matrix order, conjugation, cursor rewinding and station lookup are only right if they are right for every baseline sequence.',
     ['base/Apply.cc', 'base/Apply.h', 'base/Cursor.h'], [('the one routine that applies gains to model data', 'apply, cursor, const_cursor')],
     ['demixing model data'],
     note='Proved for all sizes and values on contiguous buffers, over exact arithmetic; strided buffers and rounding by bounded runtime contracts.')

prop('P05', 'Subtracting a demixed source removes weight times model from every cross-correlation',
     'For every set of baselines and channels, subtraction replaces each of the four correlations d of a cross-correlation by d - weight*model of exactly that sample and leaves autocorrelations and everything else alone, whatever the other samples hold (also when one of them is NaN); the reported powers are the sums of the squared amplitudes of the non-NaN XX and YY samples of the cross-correlations before and after.',
     'all numbers of baselines and channels, all values including NaN, all buffer strides',
     'There is no unit test of this routine.',
     ['base/SubtractMixed.cc', 'base/SubtractMixed.h', 'base/Cursor.h'], [('cursor walk and arithmetic', 'subtract, cursor, const_cursor')],
     ['demixed visibilities', 'reported noise figures'],
     note='The data part is proved for all sizes and values on contiguous buffers, over exact arithmetic; strides, NaN and the reported powers by bounded runtime contracts.')

prop('P06', 'A string converts to a number or boolean only when all of it is one in range',
     'For every string, each strict conversion (to signed and unsigned 16/32/64-bit integers, float and double) returns only if the string apart from surrounding blanks is one complete number that fits the requested type, and then returns exactly its value; decimal is assumed unless the number starts with 0x or 0X (no octal), a negative number is never accepted as unsigned, and everything else - empty or blank strings, trailing text, out-of-range values - is rejected with an exception, whatever errno was before. The boolean conversion is decided by the first character (t,T,y,Y,1 / f,F,n,N,0) and rejects everything else.',
     'all strings (up to 2^31-3 characters), all thirteen conversions',
     'Tests try a few literals; range limits, blanks in every position and stale errno are not covered.',
     ['common/StringTools.cc', 'common/StringTools.h'], [('conversion functions', 'strToBool, strToLong, strToInt, strToInt16/32/64, strToUlong, strToUint, strToUint16/32/64, strToFloat, strToDouble')],
     ['every numeric parset value'],
     note='All thirteen functions proved for all strings, relative to an assumed contract of strtol/strtoul/strtof/strtod; that contract is compared with an independent parser at run time.')

prop('P07', 'Parset scanners find the exact end of blanks, quotes and brackets',
     'For every string and every scanned range, skipping leading or trailing whitespace stops at exactly the first or last non-blank character of the range (blank: space, tab, newline, vertical tab, form feed, carriage return). Skipping a quoted string returns the position after the first matching quote and fails exactly when there is none; skipping a balanced bracket returns the position after the delimiter that balances the opening one, counting nesting and ignoring delimiters inside quotes, and fails exactly when the range ends first; nothing outside the string is read.',
     'all strings (up to 2^31-3 characters), all start and end positions, all delimiter pairs',
     'Tests call the scanners on a handful of literals; nesting depth, quotes inside brackets and range ends are unbounded.',
     ['common/StringTools.cc', 'common/StringTools.h'], [('scanning loops', 'lskipws, rskipws, skipQuoted, skipBalanced')],
     ['every parset value that holds a list, record or quoted text'],
     note='All four functions proved against recursive specification functions; loop invariants inferred and checked on every run; in-bounds reads proved.')

prop('P08', 'Parset values are trimmed, split, unquoted and converted element by element',
     'For every text, a parameter value is the text without surrounding blanks. A value in square brackets is a list whose elements are the trimmed pieces between the commas that lie outside quotes, parentheses, brackets and braces (empty brackets: no elements), any other non-empty value is a list of itself, and a list is rejected exactly when its quotes or brackets do not balance or a bracket or brace opens inside parentheses. A record in braces yields its name:value fields, quotes around names removed, and rejects duplicates and fields without colon; the string form drops the quotes around quoted parts and nothing else. Typed access, single or per element of a list, gives exactly the value of the strict conversion to that type (unsigned stays unsigned) and rejects what that rejects; a time is its number of seconds, minutes or hours.',
     'all texts (up to 2^31-3 characters), all types',
     'There is no unit test of this class; nesting, quoting and range limits are unbounded.',
     ['common/ParameterValue.cc', 'common/ParameterValue.h'], [('scanning and splitting', 'ParameterValue::splitValue, getVector, getRecord, getString, get*Vector, StringToTime_t')],
     ['every parset setting of every step'],
     note='Trimming, splitting (element positions and texts), lists and typed access proved for all texts; records, unquoting, boolean lists and times by bounded runtime contracts.')

prop('P14', 'Mode names, mode numbers and solver names map exactly as documented',
     'Every calibration mode is printed under a name that reads back as the same mode; exactly the documented mode names and aliases are accepted, each denotes one mode, and everything else is rejected; each mode has the documented number of polarizations. RCU mode numbers 0..7 are accepted and all others rejected, and each mode has its documented name, antenna type, bandwidth, central frequency and frequency offset, or is rejected when undefined; least-squares solver names are matched case-insensitively, anything else is rejected, and the solver that is made is of the requested kind.',
     'all strings, all integers, all modes',
     'Tests cover RCU modes and three solver names; calibration mode names have no test.',
     ['base/CalType.cc', 'base/CalType.h', 'base/RcuMode.h', 'ddecal/linear_solvers/LLSSolver.cc'],
     [('name tables', 'StringToCalType, ToString, GetNPolarizations, RcuMode, LLSSolver::ParseType/Make')],
     ['DDECal/GainCal mode settings', 'AARTFAAC metadata'],
     note='All tables proved for all strings and integers, except the factory for solver objects (exhaustive runtime contract).')

prop('P09', 'Ranges and multiplications in parset lists expand to exactly the listed values',
     'Expansion applies to a text enclosed in square brackets (blanks around it allowed) and leaves every other text unchanged; it expands multiplications first and ranges afterwards. A range prefixN..M or prefixN..prefixM, with an optional common suffix or braces, becomes the comma-separated values from N to M inclusive, ascending or descending, each at least as wide as N is written, up to the largest integer; a multiplication n*value, n*[list] or n*(list) becomes n copies of it (a list in parentheses without its parentheses and with ; read as ,), recursively. Text in quotes and text without a range or multiplication is never changed, and expansion is rejected only for unbalanced quotes or brackets or numbers out of range.',
     'all texts (up to 2^31-3 characters)',
     'Tests cover the documented examples; nesting, quoting, widths and the largest integers are unbounded.',
     ['common/StringTools.cc', 'common/StringTools.h', 'common/ParameterValue.cc'], [('expansion', 'expandRangeString, expandMultString, expandArrayString, ParameterValue::expand')],
     ['antenna lists, channel lists and superstations in parsets'],
     note='Proved for all texts: which texts are expanded and in which order, that texts without ranges/multiplications are untouched or rejected exactly for unbalanced quotes, and ParameterValue::expand; the expansion of ranges and multiplications themselves by bounded runtime contracts (generated texts with known expansion).')

prop('P10', 'Tokens, station patterns and per-station values select exactly what they name',
     'Splitting a text on a set of delimiters yields exactly the maximal runs of characters outside that set, in order and never empty. A station pattern matches exactly the names obtained by replacing each * by any text and each ? by any one character, every other character (. included) standing for itself. In a list of pattern:value items each station gets the value of the last item that selects it - within an item the patterns apply in order and a leading ! or ^ deselects - and keeps its default when none does; an item without colon is rejected. Case-insensitive comparison orders texts as their upper-case forms.',
     'all texts, patterns, station lists',
     'Tests use a few literals; dots in names, exclusions and overlapping items are not covered.',
     ['common/StringTools.cc', 'common/StringTools.h', 'common/ValuePerStationParsing.h'], [('text and pattern handling', 'stringtools::tokenize, PatternToRegex, AssignStationValues, ParseValuePerStation, Compare')],
     ['station selection, antenna constraints, solution tables'],
     note='Tokenisation proved for all texts and delimiter sets; patterns go through std::regex and are decided by bounded runtime contracts.')

prop('P11', 'A parameter set reads, writes, splits and returns exactly its keys and values',
     'Reading a text gives each key (quotes and blanks around it removed, prefix added) the trimmed value after its =, with comments outside quotes dropped, continuation lines joined by a blank unless quoted, a trailing backslash dropped, and the last definition of a key winning; unbalanced quotes and empty keys are rejected. Writing and reading back gives the same set. A subset holds exactly the entries whose key starts with the base (cut off, prefix added), subtracting removes exactly those, adopting a set, a file or key=value arguments replaces or adds exactly those entries, adding a known key is rejected; keys compare case-insensitively in that mode. Access to a key gives the conversion of its value to the requested type (lists expanded on request), the default exactly when the key is absent, an exception when it is absent without default, and the keys reported unused are exactly those never asked for.',
     'all texts, keys, values, operation sequences, both key modes',
     'There is no unit test of this class; every step and setting is read through it.',
     ['common/ParameterSetImpl.cc', 'common/ParameterSetImpl.h', 'common/ParameterSet.h'], [('parameter sets', 'ParameterSetImpl::readStream, writeStream, makeSubset, subtractSubset, adopt*, add, replace, remove, findKV, get*')],
     ['every parset', 'command-line arguments', 'step prefixes'],
     note='Typed access (scalars and lists, with and without default, except bool lists), raw access and key-name splitting proved for all inputs relative to a contract of the map lookup; reading, writing, subsets and the map operations by bounded runtime contracts against a reference map.')

prop('P12', 'Least-squares solvers return the minimiser and report rank deficiency',
     'For every m x n matrix A (column-major) and right-hand sides b, the normal-equations, QR and SVD solvers leave in b the solutions x minimising |b - A x| column by column (QR and SVD with leading dimension max(m, n), normal equations packed with leading dimension n) and return true when A has full column rank; normal equations and QR return false for a singular A^H A or zero pivot, and QR returns false without touching A and b when m < n. The normal equations passed to the Cholesky solver are exactly A^H A and A^H b. A solver object can be used repeatedly, each call solving only its own system.',
     'all matrices and sizes',
     'One test checks one 2-column system with one solver.',
     ['ddecal/linear_solvers/NormalEquationsSolver.h', 'ddecal/linear_solvers/QRSolver.h', 'ddecal/linear_solvers/SVDSolver.h', 'ddecal/linear_solvers/LLSSolver.cc'],
     [('solvers', 'NormalEquationsSolver::Solve, QRSolver::Solve, SVDSolver::Solve')],
     ['DDECal and GainCal solutions'],
     note='Proved for all sizes up to 16384 relative to contracts of the LAPACK routines (cposv, cgels, cgelss); the numerical result by bounded runtime contracts with the real LAPACK.')

prop('P13', 'The median is the middle of the sorted values',
     'For every vector the median is 0 when it is empty, the middle value of the sorted vector when the number of values is odd and the mean of the two middle values when it is even; the vector keeps the same values (their order may change).',
     'all vectors of every length',
     'The test permutes the integers 1..n for n up to 10; the selection algorithm behaves differently on longer vectors.',
     ['common/Median.h'], [('median', 'Median')], ['MADFlagger thresholds'],
     note='Proved for double and float vectors of every length relative to the contracts of std::nth_element, max_element, sort; int only by bounded runtime contracts.')

prop('P15', 'Timers add up exactly the intervals between start and stop',
     'For every sequence of operations the total of a timer is the sum of (stop - start) over its start/stop pairs since construction or the last reset plus the totals of the timers added to it, and its count is the number of those pairs; the average is total / count; a scoped timer counts its scope once, however it is left, and a scoped accumulator adds its lifetime in microseconds. Printing shows name, average, total and count, or "not used".',
     'all operation sequences, clocks and resolutions',
     'Tests use a few fixed sequences.',
     ['common/Timer.h'], [('timers', 'BaseTimer::start, stop, reset, operator+=, getElapsed, getAverage, StartStop, ScopedMicroSecondAccumulator, print')],
     ['run-time statistics of every step'],
     note='All state changes proved for every timer state and clock; printing and integer/atomic accumulators by bounded runtime contracts.')

prop('P18', 'Domain axes, boxes and grids partition the domain and find the right cell',
     'An axis describes ascending, disjoint cells: built as regular (start, width, count or start/end) or irregular (starts/ends or centres/widths), its lower, upper, centre and width of every cell agree with what was given. find(x) returns the cell that contains x (biased left or right on a border) whatever the search hint, and else the next higher cell with "not found". A subset by index holds exactly those cells, and by range exactly the cells that overlap the range (an empty subset is the default axis), with the index of the first; compress(f) merges every f cells. checkIntervals is true exactly when the cells in the overlap of two axes are the same. combine gives the union of two axes, with the ranges in it of each, one cell filling a hole between them, and refuses when the common cells differ. makeAxis gives a regular axis exactly when all cells are equally wide. Boxes: intersects, contains, empty, ordering, union and intersection as for rectangles. A grid is the product of its axes: cell ids and locations are inverse, x varies fastest, iteration and toDomains visit every cell once in that order, and a grid made of domains or subgrids has those cells. An axis mapping maps each cell to the cell that contains its centre (nearest at the ends), with the scaled centre and exactly the borders where it changes. Borders are compared with casacore::near; range subsets, checkIntervals and combine are for axes without gaps.',
     'all axes, values, ranges, hints and grids',
     'Tests use a handful of small axes with round numbers.',
     ['parmdb/Axis.cc', 'parmdb/Axis.h', 'parmdb/Box.cc', 'parmdb/Box.h', 'parmdb/Grid.cc', 'parmdb/Grid.h', 'parmdb/AxisMapping.cc', 'parmdb/AxisMapping.h'],
     [('axes', 'Axis::setup, find, subset, combine, makeAxis, checkIntervals, doSubset, compress'), ('boxes', 'Box operators'), ('grids', 'Grid, GridRep::setup, toDomains, CellIterator'), ('mappings', 'AxisMapping')],
     ['solution domains of parameters, and which solution cell applies to which data'],
     note='Axis construction, find, subsets, checkIntervals, makeAxis, combine, mappings and boxes proved for all inputs over the reals (near as an arbitrary tolerance in find and Box, as equality elsewhere; overlapping combine of axes with the same common cells in the thorough tier); compress, grids and iteration by bounded runtime contracts.')

prop('P19', 'Kernel smoothing along frequency gives the kernel-weighted mean of each window',
     'The four smoothing kernels are the documented ones: rectangular 1/2, triangular 1-|x|, Epanechnikov 3/4 (1-x^2), each zero outside [-1, 1], and Gaussian exp(-9 x^2), cut off outside [-1, 1] when truncation is on, with x the distance divided by the bandwidth. Smooth replaces every value by the mean of the original values weighted with their weights and the kernel at their frequency distance, the distance scaled by (local bandwidth / bandwidth)^exponent and by the given factor; without truncation over all samples, with truncation over the samples within half the local bandwidth (bandwidth times frequency / reference frequency when a reference is set) and their neighbours. A value whose weights sum to zero becomes not-a-number, for complex data in both parts, and no other value is affected by it. The smoother can be used again and does not depend on earlier calls. Frequencies ascend and are positive; the bandwidth is at most twice the reference frequency.',
     'all series, weights, frequencies, kernels and bandwidths',
     'No unit test of the kernel smoother runs in this configuration, and the upstream ones use a few regular grids.',
     ['ddecal/constraints/KernelSmoother.h'],
     [('kernels', 'KernelSmoother::Kernel'), ('weighted mean over the window', 'KernelSmoother::Smooth')],
     ['solutions smoothed by the smoothness constraint'],
     note='Kernels and untruncated smoothing of real and complex data proved for all lengths over the reals, with exp and pow uninterpreted; truncated windows by bounded runtime contracts.')

prop('P20', 'Phases are unwrapped by whole turns and fitted with the weighted least squares line',
     'UnwrapAndFit moves each phase by whole turns to within half a turn of the line with the given slope and returns the weighted least squares slope through the origin of the moved phases (0 when no sample carries weight); SlopeModelCost is the weighted mean distance, modulo whole turns, between phases and line. GetRange gives slope steps that turn the sample with the largest |x| by half a turn, and enough of them for every wrap that two neighbouring samples can resolve (limited for up to 19 samples, and by the given limit). FitSlope returns the refined fit of a candidate of lowest cost in that range, so noiseless phases of a slope inside the range are reproduced modulo whole turns. PieceWisePhaseFitter: Unwrap moves every value but the first by whole turns so that neighbours differ by at most half a turn; WeightedMedian has at most half the weight below and above it; the chunk fit is the (weighted) least squares line of the samples, each moved by at most one turn to within half a turn of one reference; PieceWiseFit and SlidingFit put each value on the line of its chunk or of the window centred on it (the first or last window at the ends), with the weights that belong to the samples; BreakPoint is the middle of the window with the largest weighted deviation, and SlidingFitWithBreak fits both sides separately. Only ratios of weights matter.',
     'all phases, weights, grids and window sizes',
     'The upstream fit tests are not part of the tests that run here and use a few regular grids with one noise seed.',
     ['common/PhaseLineFitter.h', 'ddecal/constraints/PieceWisePhaseFitter.h'],
     [('slope fits', 'UnwrapAndFit, SlopeModelCost, GetRange, FitSlope'), ('piece-wise fits', 'PieceWisePhaseFitter::PieceWiseFit, SlidingFit, SlidingFitWithBreak, BreakPoint, fitSlope, WeightedMedian, Unwrap')],
     ['TEC and Faraday rotation estimates from calibration phases'],
     note='All listed functions proved for all inputs over the reals (termination of Unwrap not proved); reproduction of noiseless phases, invariance under weight scaling and the chunk size by bounded runtime contracts.')

prop('P21', 'The GPU kernels compute the update of the iterative diagonal solver, for every schedule of the threads',
     'SubtractKernel leaves every residual visibility minus S1 M S2^H summed over all directions, with the diagonal gains of its two stations in the solution interval of that visibility and direction; SolveDirectionKernel adds one direction back into the temporary residual and adds, for both stations of the baseline, residual times (corrupted model)^H to the numerator and the squared norm of the corrupted model to the denominator of the right station, interval and polarization, only by atomic additions, so the result does not depend on the order of the threads; SolveNextSolutionKernel writes numerator / denominator, or NaN when the denominator is 0, to the solutions of that direction only; StepKernel moves every solution by the step size along the line, or along the circle in the shorter direction for phase-only solutions. Threads without work write nothing, every launch has a thread for every element, and each launcher passes the memory of its direction. The 2x2 complex matrix operators are the matrix operations they denote.',
     'all numbers of visibilities, stations, directions, solution intervals and all thread schedules',
     'The GPU code is not built or tested where no GPU is available; upstream tests run one small problem on a GPU.',
     ['ddecal/gain_solvers/kernels/IterativeDiagonal.cu', 'ddecal/gain_solvers/kernels/Complex.h', 'ddecal/gain_solvers/kernels/MatrixComplex2x2.h', 'ddecal/gain_solvers/kernels/Common.h'],
     [('kernels', 'SubtractKernel, SolveDirectionKernel, SolveNextSolutionKernel, StepKernel'), ('device functions', 'AddOrSubtract, SolveDirection, cuM2x2 operators'), ('launchers', 'Launch*Kernel')],
     ['gain solutions of the GPU solver'],
     note='All kernels, device functions and launchers proved for all inputs over the reals; the CUDA types, launches and atomicAdd are stand-ins (shims/) and <<<...>>> is rewritten mechanically on every run. atan2, cos and sin are uninterpreted; rounding (cuCarg returns float) is only bounded natively.')

prop('P17', 'A baseline-dependent averaging buffer keeps every row\'s values at its offset',
     'BdaBuffer::AddRow either refuses (false when the row does not fit, an exception when it ends before the last row started, leaving the buffer as it was) or appends: every enabled data buffer, the flags and the weights grow by channels times correlations values (the given values, or zeros), earlier values and rows stay, the remaining capacity shrinks by the same number, and the new row stores its metadata and the offset where its values start in every field, including fields enabled later. GetData/GetFlags/GetWeights of a row return that place or null when the field is absent. Clear keeps fields and restores the capacity. The time comparisons and IsMetadataEqual hold exactly when all values agree within the tolerance (uvw: both NaN or both within tolerance). Copying with a selection of fields keeps rows and offsets.',
     'all buffers, rows, sizes and histories of additions, field additions and copies',
     'A wrong offset only shows with several rows and a field that is enabled later; tests use one fixed history.',
     ['base/BdaBuffer.cc', 'base/BdaBuffer.h'],
     [('adding rows', 'BdaBuffer::AddRow'), ('reading rows', 'BdaBuffer::GetData, GetFlags, GetWeights, Row::Row'), ('comparison', 'BdaBuffer::Row::IsMetadataEqual, BdaBuffer::IsMetadataEqual, TimeIsLess'), ('fields', 'BdaBuffer::AddData, Clear, copy constructor')],
     ['visibilities, flags and weights of BDA rows'],
     note='AddRow, Clear, the comparisons, row construction and row pointers are proved for all inputs (the map of data buffers is a sequence of named vectors). The copy constructor, AddData, RemoveData, MoveData and the mixed NaN case of IsMetadataEqual are bounded: random histories against a reference model.')

prop('P22', 'Sky model components add the visibilities of the measurement equation',
     'The Stokes parameters of a component at a frequency follow its spectral terms (logarithmic: I (f/f0)^(sum of terms times powers of log10(f/f0)); ordinary: I plus the polynomial in f/f0 - 1) and its rotation measure. The direction cosines are those of the component relative to the phase centre. Simulating a component adds, to every cross-correlation and channel, its coherency (I+Q, U+iV, U-iV, I-Q, or I alone) times exp(i 2 pi / c f (u l + v m + w (n - 1))) of the baseline, for Gaussian components times the Gaussian of their size, axial ratio and position angle, times the sinc of half the phase change over the integration time and over the channel width when that smearing is enabled; autocorrelations are untouched. A patch position is the flux-weighted mean direction of its components.',
     'all components, stations, baselines, channels, smearing settings and histories of components',
     'Tests of the prediction need measurement sets and compare one model; wrong terms that vanish for a source at the phase centre, without polarization or without spectral terms are not seen.',
     ['base/Simulator.cc', 'base/Simulator.h', 'base/PointSource.cc', 'base/GaussianSource.cc', 'base/Stokes.cc', 'sky_model/Patch.cc'],
     [('flux', 'PointSource::stokes'), ('geometry', 'radec2lmn, phases'), ('spectrum', 'spectrum'), ('visibilities', 'Simulator::visit')],
     ['predicted model visibilities'],
     note='Flux, direction cosines, station phases, spectra and the intensity of point sources are proved for all inputs over the reals; the remaining variants are bounded (see BOUND of the evidence). xtensor and casacore arrays are stand-ins.')

prop('P23', 'Baseline coordinates are split into station coordinates and rotated consistently',
     'SetupUvwSplitting returns, for every group of connected stations, one baseline for each station but the first, in an order in which one of its stations is always known (with positions: the longest baselines that connect the group). SplitUvw then gives station coordinates whose difference is the coordinate of every baseline used, and zero for the first station of each group. rotateUVW rotates the coordinates of every station with the transposed Euler matrix of the new direction times that of the old one, and fillEulerMatrix holds the axes of the direction.',
     'all arrays of stations and baselines, including disjoint groups', 'Tests of splitting use one small array, and need casacore.',
     ['base/Simulate.cc', 'base/Simulate.h', 'steps/PhaseShift.cc'],
     [('splitting', 'SplitUvw, SetupUvwSplitting, GetBaselineSelection, GetBaselinesSortedByLength'), ('rotation', 'rotateUVW, PhaseShift::fillEulerMatrix')],
     ['station coordinates for prediction and phase shifting'],
     note='SplitUvw, rotateUVW and fillEulerMatrix are proved for all inputs over the reals; the selection and ordering of the baselines is bounded: generated arrays against the definition of a spanning forest.')

DEP = 'the code is built on DPBuffer/DPInfo, xtensor expressions, casacore tables and measures, and aocommon/schaapcommon, all absent here: no IR can be produced from it without re-implementing most of what it computes with, which would verify the re-implementation; '
prop('P90', 'Averaging keeps weighted sums and flags consistent',
     'Averaging in time and frequency produces, for every output sample, the weighted mean of exactly the unflagged input samples in its bin, the sum of their weights, and a flag exactly when all of them are flagged.',
     'all visibilities, weights, flags and averaging factors', 'tests use a few shapes and constant data',
     ['steps/Averager.cc', 'steps/BdaAverager.cc'], [('averaging loops', 'Averager::average, BdaAverager::process')], ['output buffers'], claimed=False,
     reason=DEP + 'Averager works on DPBuffer (xtensor) and casacore arrays throughout.')
prop('P91', 'Flagging steps only add flags and select exactly the requested samples',
     'A flagging step never clears a flag it was not asked to clear and flags exactly the samples selected by its ranges, baselines and channels.',
     'all buffers and selections', 'tests use fixed small buffers',
     ['steps/PreFlagger.cc', 'steps/UVWFlagger.cc', 'steps/MadFlagger.cc', 'steps/AntennaFlagger.cc'], [('flag loops', 'PreFlagger::PSet::process, UVWFlagger::process')], ['flags in output buffers'], claimed=False,
     reason=DEP + 'all flaggers work on DPBuffer/DPInfo.')
prop('P92', 'Data written to a MeasurementSet reads back unchanged',
     'Visibilities, flags, weights and UVW written by the writer steps are read back by the reader steps bit for bit for every chunking.',
     'all data, chunk sizes and tilings', 'needs a table system and crash/chunk enumeration',
     ['steps/MsReader.cc', 'steps/MsWriter.cc', 'steps/MsBdaWriter.cc'], [('table IO', 'MsReader::process, MsWriter::process')], ['MeasurementSet on disk'], claimed=False,
     reason=DEP + 'the behaviour is in casacore tables.')
prop('P93', 'Calibration solvers converge to the gains that generated the data',
     'For noiseless data generated from gains and a model, every gain solver returns, after convergence, gains that reproduce the data.',
     'all gains, models and array sizes', 'tests sample random gains',
     ['ddecal/gain_solvers/ScalarSolver.cc', 'ddecal/gain_solvers/FullJonesSolver.cc', 'steps/GainCal.cc'], [('iteration', 'SolverBase::Solve')], ['solutions'], claimed=False,
     reason=DEP + 'and convergence of the floating-point iteration is an analytic statement outside first-order contracts.')
prop('P94', 'The beam of the stations is applied to predictions and calibrated data as documented',
     'Predicted visibilities are multiplied with the station responses in the direction and at the time and frequency of each sample, and the inverse is applied when correcting.',
     'all sources, stations, times and frequencies', 'tests compare with one reference set',
     ['steps/ApplyBeam.cc', 'base/PredictModel.cc'], [('beam application', 'ApplyBeam::applyBeam')], ['model data'], claimed=False,
     reason=DEP + 'EveryBeam, which computes the responses, is absent; what of the prediction does not involve the beam is claimed as P22.')
