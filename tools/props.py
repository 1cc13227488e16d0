'''The property table: properties.jsonl and MANIFEST.json are generated from it (tools/gen.py).'''

SP, SB, SS, SU = ('pyspod/spod/standard.py', 'pyspod/spod/base.py', 'pyspod/spod/streaming.py', 'pyspod/spod/utils.py')
PB, PS, PU = 'pyspod/pod/base.py', 'pyspod/pod/standard.py', 'pyspod/pod/utils.py'
PAR, RD, WT, PP, ER, IO = ('pyspod/utils/parallel.py', 'pyspod/utils/reader.py', 'pyspod/utils/weights.py',
                           'pyspod/utils/postproc.py', 'pyspod/utils/errors.py', 'pyspod/utils/io.py')
EB, EN = 'pyspod/emulation/base.py', 'pyspod/emulation/neural_nets.py'

SIM = ('the real code runs as one process per rank on a simulated MPI that gives every call the weakest '
       'synchronisation the standard allows')
SIMNOTE = 'The MPI simulator is trusted; C02 compares its behaviour with the installed Open MPI. '
ENUM = ('complete enumeration of a bounded space of inputs and configurations, each executed on the real code and '
        'compared with a reference model written from the definition')
ENUMNOTE = ('Exhaustive within the stated alphabet of shapes, lengths and options; array values are generic '
            '(seeded), so value-dependent faults outside them are not covered. ')
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, observe, technique, level, note, **kw):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
        anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe,
                 'hook_needed': None},
        technique=technique, level=level, note=note, **kw))


P('C01', 'A parallel SPOD fit gives the results of the serial fit',
  'Fitting the batch SPOD on any number of ranks returns on every rank, and stores in the results folder, what the '
  'serial fit of the same data, weights and parameters returns and stores: eigenvalues, frequencies, confidence '
  'bounds, weights, long-time mean, parameters, the same set of files with the same shapes and types, and every '
  'mode up to a unit complex factor. This includes rank counts that do not divide the number of points and ranks '
  'that hold no point at all.',
  ['configurations', 'inputs'],
  'all rank counts 1..8 (1..12 thorough), 8 spatial shapes (1-3 dimensions, several variables, the longest axis '
  'first, middle or last) and 19 parameter deviations',
  'The tests compare at most two or three rank counts on one shape, most of them need data that is not present, '
  'and none runs with uneven or empty ranks.',
  [SP, SB, RD, PAR, WT],
  [('partition of the longest spatial axis', RD + ':reader_1stage'), ('sum over ranks of the spectral density', SP),
   ('collective write of the distributed arrays', PAR + ':npy_save')],
  ['returned object on every rank', 'files of the results folder'],
  'explicit enumeration of rank counts and configurations on a simulated MPI', 'model_checking',
  SIMNOTE + 'Real code on simulated ranks; one representative order of file operations (C02 explores the rest).')

P('C02', 'Parallel runs cannot deadlock and leave complete, schedule-independent files',
  'Under every legal interleaving of the ranks and every legal MPI behaviour (synchronous or buffered sends, early '
  'or late delivery, any reduction association, no more synchronisation than the standard requires) every parallel '
  'operation terminates on all ranks, with matching collective calls and no message left over. When it returns on '
  'a rank, that rank can read every result file in full, and files and results do not depend on the schedule.',
  ['schedules'],
  'all interleavings of file-system operations of 2-4 ranks (dynamic partial-order reduction) times all MPI '
  'behaviour switches, for the fits, projections, reconstructions, readers and array I/O',
  'A test sees the one schedule its machine happens to produce; a missing barrier or a rendezvous deadlock shows '
  'up only under another.',
  [SP, SB, SS, SU, PS, PB, PU, RD, PAR],
  [('barriers around folder creation and at the end', SB), ('message exchange of the mode writer', SP),
   ('redistribution of the two-stage readers', RD), ('collective file access', PAR)],
  ['termination of every rank', 'files read by every rank immediately after the operation'],
  'stateless model checking (DPOR) of the real code on a simulated MPI + conformance runs on Open MPI',
  'model_checking',
  'File operations are atomic at the system-call level; ' + SIMNOTE +
  'Interleavings are complete for the listed programs and 2-4 ranks within the execution limit reported in evidence.')

P('C03', 'Distribution over ranks is an exact, balanced, ordered partition',
  'Distributing an array over the ranks gives each rank a contiguous part of the chosen axis, in rank order, so that '
  'the parts put together are exactly the original array, without overlap or loss; part sizes differ by at most one '
  'and larger parts come first. Without a communicator the whole array is returned, and the axis reported is a '
  'longest one of the axes that may be split (never the time axis for time series). Groups of ranks are as many as '
  'reported, equally large, and hold each rank once, in rank order.',
  ['inputs', 'configurations'],
  'all axis lengths 1..7 in up to 4 dimensions and all rank counts 1..9 (groups: 1..12)',
  'The tests check two rank counts on one shape.',
  [PAR], [('block distribution', PAR + ':_blockdist'), ('distribute, distribute_data, distribute_dimension', PAR)],
  ['arrays, axis and shape returned on every rank'],
  'exhaustive enumeration of shapes and rank counts', 'model_checking', SIMNOTE + 'Exhaustive within the bounds.')

P('C04', 'Saving and loading distributed arrays is a faithful round trip',
  'Saving an array that is distributed along any axis over any number of ranks (with empty parts) writes exactly the '
  'NumPy file of the whole array: right shape, values and element type, over any older or longer file of that name. '
  'Loading a NumPy file gives the ranks a balanced ordered partition of it, or parts of the sizes they ask for, '
  'whatever the memory order or byte order of the file or of the arrays.',
  ['inputs', 'configurations', 'histories'],
  'dtypes (integer, real, complex, both byte orders), C and Fortran order, non-contiguous views, every axis, ranks '
  '1..5, uneven and empty parts, overwriting of longer and shorter files, default and explicit counts',
  'The tests round-trip one array on the ranks they are started with.',
  [PAR], [('npy_save, npy_load', PAR)], ['bytes of the file', 'array on each rank'],
  'exhaustive enumeration of array layouts and rank counts on a simulated MPI', 'model_checking',
  SIMNOTE + 'Exhaustive within the bounds.')

P('C05', 'Global statistics do not depend on how the data is spread over ranks',
  'The parallel sum of arrays and the parallel mean, variance and count equal those of the whole data for every way '
  'of spreading it over ranks (including ranks with nothing) and every association of the reduction, and all ranks '
  'get the same answer. Inputs are left unchanged.',
  ['inputs', 'configurations', 'schedules'],
  'all compositions of small data sets over 1..5 ranks, both reduction associations, several element types and byte '
  'orders',
  'The tests contain no check of these helpers with empty ranks or another association.',
  [PAR, WT], [('pvar', PAR), ('allreduce', PAR), ('variance normalisation', WT)], ['returned values on every rank'],
  'exhaustive enumeration of partitions and reduction orders on a simulated MPI', 'model_checking',
  SIMNOTE + 'Exhaustive within the bounds.')

P('C06', 'File readers deliver exactly the stored snapshots',
  'The readers deliver every snapshot of the input files or arrays, in order, once, with the right values for each '
  'point and variable, whatever the number of ranks, reading ranks, chunks, blocks and files and however the time '
  'steps are spread over files. Reading any time range or a single snapshot gives the same values as reading all.',
  ['inputs', 'configurations'],
  'file splits, 1..5 ranks, reader counts, chunk and block counts, 1-2 variables, 1-3 dimensions, float32/float64, '
  'padded and unpadded message path, netCDF, MATLAB and in-memory readers',
  'Needs MPI and data files; nothing tests the readers on data whose values identify time, point and variable.',
  [RD], [('two-stage netCDF reader', RD + ':reader_2stage'), ('MATLAB reader', RD + ':reader_mat'),
         ('in-memory reader', RD + ':reader_1stage')],
  ['arrays delivered to every rank'],
  'exhaustive enumeration of reader configurations on a simulated MPI', 'model_checking',
  SIMNOTE + 'The large-message path is reached by lowering the 32-bit limit the code asks NumPy for.')

P('C07', 'A fit from files with per-mode output equals the in-memory fit',
  'A fit that reads netCDF or MATLAB files in parallel and stores one file per mode gives the eigenvalues, '
  'frequencies, confidence bounds, parameters and modes that the serial fit of the same numbers gives, and the modes, '
  'weights and mean read back have the same content. This holds for any number of ranks, number of saved modes and '
  'split of the series into files.',
  ['configurations', 'inputs'],
  'ranks 1..5, one to three files, 1-3 dimensions, 1-2 variables, n_modes_save 1, 2 and all, mean types, dtypes',
  'The existing tests of this path need data that is not available, and one rank count.',
  [SP, SB, RD, PP], [('per-mode writer', SP), ('two-stage readers', RD), ('mode reading', PP)],
  ['results folder', 'modes returned for every frequency'],
  'exhaustive enumeration of configurations on a simulated MPI against the serial fit', 'model_checking',
  SIMNOTE + 'Exhaustive within the alphabet.')

P('C08', 'Parallel projection, reconstruction and orthogonality equal the serial ones',
  'Expansion coefficients (oblique projection and convolution), the reconstruction built from them and the '
  'orthogonality check give on any number of ranks the values and stored files they give serially. All ranks return '
  'the same paths.',
  ['configurations', 'inputs'],
  'ranks 1..5, several shapes (ranks with one or no point), all frequencies or a band, both projection methods, '
  'time selections',
  'The tests of these functions need unavailable data and use one rank count.',
  [SU, PAR], [('oblique projection', SU), ('convolution coefficients', SU), ('reconstruction', SU)],
  ['coefficient, mode, mean and reconstruction files'],
  'exhaustive enumeration of configurations on a simulated MPI against the serial run', 'model_checking',
  SIMNOTE + 'Exhaustive within the alphabet.')

P('C09', 'A parallel streaming fit gives the results of the serial streaming fit',
  'Fitting the streaming SPOD on any number of ranks returns and stores what the serial streaming fit does: '
  'eigenvalues, frequencies, weights, mean, parameters, files, and modes up to a unit complex factor.',
  ['configurations', 'inputs'],
  'ranks 1..5, several shapes with uneven or single-point ranks, overlaps, saved-mode counts, dtypes, weights',
  'The existing tests of this need unavailable data.',
  [SS, SB, RD], [('sums over ranks in the basis update', SS)], ['returned object', 'results folder'],
  'exhaustive enumeration of configurations on a simulated MPI against the serial fit', 'model_checking',
  SIMNOTE + 'Exhaustive within the alphabet.')

P('C10', 'Parallel POD equals serial POD',
  'The proper orthogonal decomposition, its coefficients and its reconstruction give on any number of ranks the '
  'eigenvalues, modes (up to sign), coefficients and reconstruction of the serial run, in the same files.',
  ['configurations', 'inputs'],
  'ranks 1..5, several shapes, weights, mean types, saved-mode counts',
  'The existing test compares one rank count on one field.',
  [PB, PS, PU, PAR], [('sum of the correlation over ranks', PS), ('coefficients and reconstruction', PU)],
  ['returned object', 'results folder'],
  'exhaustive enumeration of configurations on a simulated MPI against the serial run', 'model_checking',
  SIMNOTE + 'Exhaustive within the alphabet.')

P('C11', 'The spectral decomposition follows its definition',
  'For any data, weights, block length, overlap and normalisation, the eigenvalues are those of the Welch-averaged '
  'weighted cross-spectral density (Hamming window with amplitude correction, number and positions of blocks given '
  'by length and overlap) and the modes are its weighted eigenvectors. Every snapshot enters exactly the blocks it '
  'belongs to.',
  ['inputs', 'configurations'],
  'all n_dft 4..9, overlaps giving every step, series lengths 2..40, shapes, variables, weights, normalisation, real '
  'and complex data, and unit impulses at every time and point',
  'The tests compare a few numbers for a handful of parameter sets on fixed data.',
  [SP, SB], [('block construction', SP + ':_compute_blocks'), ('spectral eigenproblem', SP), ('window', SU)],
  ['eigenvalues, modes, number of blocks'],
  ENUM, 'model_checking', ENUMNOTE)

P('C12', 'The frequency axis is right and one- and two-sided spectra agree',
  'The frequencies reported are exactly those of the stored spectra for any block length, time step and kind of '
  'data: 0 up to the highest resolved frequency for real data, the signed axis for complex data, and the 0-to-sampling '
  'axis when the full spectrum is asked for. For real data each one-sided eigenvalue of the batch fit is the sum of the '
  'eigenvalues at the two matching frequencies of the two-sided spectrum, with conjugate modes at opposite frequencies.',
  ['inputs', 'configurations'],
  'all block lengths 4..12 (even and odd), several time steps, real and complex data, full spectrum on and off, pure '
  'tones at every frequency',
  'Only even lengths and real data occur in the tests.',
  [SB, SP, SS], [('frequency axis', SB + ':get_freq_axis'), ('one-sided correction', SP)],
  ['freq, eigs, modes of fits with and without the full spectrum'],
  ENUM, 'model_checking', ENUMNOTE)

P('C13', 'Modes are orthonormal, eigenvalues are ordered, energy is conserved',
  'At every frequency the saved modes with non-negligible energy are orthonormal in the weighted inner product, '
  'the eigenvalues are real, non-negative and in descending order, and they sum to the weighted power of '
  'the windowed data at that frequency. Truncation of the stored modes changes none of this. The orthogonality check says yes '
  'exactly when the weighted product of the two modes is one (the same mode) or zero (different modes).',
  ['inputs', 'configurations'],
  'shapes, variables, weights, overlaps, real and complex data, repeated and rank-deficient data, orders of '
  'eigenvalues, batch and streaming',
  'Orthogonality is asserted for a few mode pairs on unavailable data.',
  [SP, SS, SU], [('eigenvalue ordering and mode scaling', SP), ('orthogonality check', SU)],
  ['modes and eigenvalues', 'answers of the orthogonality check'],
  ENUM, 'model_checking', ENUMNOTE)

P('C14', 'Confidence bounds bracket the eigenvalues at the requested level',
  'In the batch fit the stored lower and upper bounds of every eigenvalue are the chi-squared interval for the requested confidence '
  'level and number of blocks, lie below and above it for levels of at least 0.6, widen with the level and narrow with the '
  'number of blocks.',
  ['inputs', 'configurations'],
  'confidence levels 0.6..0.999, block counts 2..12, one- and two-sided spectra, serial and parallel',
  'No test looks at the bounds.',
  [SB, SP], [('chi-squared quantiles', SB), ('bounds', SP)], ['stored bounds'],
  ENUM, 'model_checking', ENUMNOTE)

P('C15', 'Mean handling: constant offsets have no effect, the stored mean is the mean',
  'With the long-time mean or the block mean subtracted (and in any streaming fit), adding a field that is constant '
  'in time changes no eigenvalue and no mode (with variance-normalised weights: one constant per variable); with no '
  'mean subtracted the batch fit analyses the raw data. The stored mean is the time average of all snapshots for '
  'any series length, number of blocks, reader and kind of data.',
  ['inputs', 'configurations'],
  'series lengths with every remainder modulo the number of blocks, mean types, offsets, real and complex, files and '
  'arrays, batch and streaming',
  'The tests use one series length per mean type.',
  [SB, SP, SS], [('mean selection', SB), ('long-time mean', SB), ('running mean', SS)],
  ['eigenvalues, modes, stored mean'], ENUM, 'model_checking', ENUMNOTE)

P('C16', 'Truncation, precision and storage options change only what they should',
  'In the batch fit the number of saved modes only cuts the stored modes to the leading ones (at most the number of '
  'blocks). In the batch and streaming fits storing options (none, per frequency, with Fourier blocks) and single precision change no result beyond rounding '
  'and give files of the documented shape and type. What the object returns is what the files contain.',
  ['configurations', 'inputs'],
  'n_modes_save from 1 to more than the blocks, precision, storage options, shapes, variables',
  'The tests use one or two values of each option.',
  [SP, SB, SS, PP], [('truncation', SP), ('result folder', SB)], ['object attributes', 'results folder'],
  ENUM, 'model_checking', ENUMNOTE)

P('C17', 'Oblique projection and reconstruction are exact on the span of the modes',
  'Data made of the time mean plus any combination of the selected modes is reconstructed exactly, projecting a '
  'reconstruction again returns the same coefficients, and for any data the residual is orthogonal to the '
  'selected modes. The frequency band chosen by periods and the time steps chosen for the reconstruction are exactly '
  'those asked for.',
  ['inputs', 'configurations'],
  'shapes, variables, weights, all frequency bands, all time selections, both pseudo-inverses, given or stored '
  'coefficients',
  'The tests compare a few reconstructed numbers on unavailable data.',
  [SU, PP], [('band selection', SU), ('weighted least squares', SU), ('reconstruction', SU)],
  ['coefficients and reconstruction files'], ENUM, 'model_checking', ENUMNOTE)

P('C18', 'Convolution coefficients follow their definition',
  'The time-continuous coefficients at each time, frequency and mode are the weighted inner product of the mode with '
  'the windowed Fourier coefficient of the zero-padded mean-free data centred at that time, with the '
  'energy correction at the ends. They are linear in the data, and a frequency band gives the '
  'coefficients that belong to that band.',
  ['inputs', 'configurations'],
  'shapes, variables, weights, even and odd block lengths, bands, series lengths',
  'The test of this needs unavailable data and checks extrema.',
  [SU], [('convolution coefficients', SU + ':compute_coeffs_conv')], ['coefficients file', 'stored modes and mean'],
  ENUM, 'model_checking', ENUMNOTE)

P('C19', 'Results depend on the numbers in the data, not on how they are presented',
  'Splitting the series into any list of pieces, wrapping arrays as labelled arrays, giving or omitting the '
  'trailing axis of a single variable, memory order, byte order, integer or lower-precision element types of equal '
  'values and list or bare array where accepted do not change any result.',
  ['inputs'],
  'all splits of a series into up to three pieces, presentations, shapes; batch, streaming, projection and '
  'reconstruction',
  'The tests present the data in one or two ways.',
  [RD, SB, SP, SS, SU], [('in-memory reader', RD), ('data set-up', SB)], ['all results'],
  'exhaustive enumeration of presentations, each compared with the canonical one (metamorphic)', 'model_checking',
  ENUMNOTE)

P('C20', 'Weights act as a diagonal inner product, however they are given',
  'Weights given flat or shaped act the same, no weights means unit weights, scaling the weights by c scales the '
  'eigenvalues by c (the singular values of the streaming fit by the root of c), and weights with the wrong number of '
  'entries are refused. In the batch fit and POD, variance normalisation divides the weights of each variable by the '
  'variance of that variable over all space, time and ranks; a variable that does not vary keeps its weights. '
  'The area weights of a grid of four latitudes or more '
  'are those of the trapezoidal rule, equal for every variable.',
  ['inputs', 'configurations'],
  'shapes, variables, forms of the weights, normalisation on and off, ranks 1..5, geographic grids up to 7 x 8 x 3',
  'The tests pin two weight tables.',
  [SB, WT], [('weights set-up', SB + ':define_weights'), ('normalisation', WT), ('area weights', WT)],
  ['eigenvalues, modes, stored weights'], ENUM, 'model_checking', ENUMNOTE)

P('C21', 'Streaming SPOD follows its recursion over the snapshots in order',
  'The streaming fit computes, for every frequency, the incremental rank-limited singular value update of the '
  'windowed block transforms defined by its algorithm, with all snapshots in order, whatever the split of '
  'the input into pieces. Its modes are orthonormal in the weighted inner product and its spectrum is zero for '
  'constant data.',
  ['inputs', 'configurations', 'histories'],
  'block lengths, overlaps, lengths, saved-mode counts, shapes, splits, real and complex data',
  'The existing test needs unavailable data.',
  [SS], [('basis update', SS), ('end of stream', SS)], ['eigs, modes, mean'], ENUM, 'model_checking', ENUMNOTE)

P('C22', 'POD modes are orthonormal and reconstruct the data',
  'POD modes are orthonormal in the weighted inner product, eigenvalues are those of the weighted correlation of the '
  'mean-free snapshots, largest energy first, and with all modes the data is reconstructed exactly, with the '
  'first k modes with the least error. The selected time steps are exactly those asked for.',
  ['inputs', 'configurations'],
  'shapes, variables, weights, lengths, mean types, all numbers of saved modes, time selections, splits',
  'The existing test uses uniform weights and one field.',
  [PS, PB, PU], [('eigenproblem', PS), ('coefficients', PU), ('reconstruction', PU)],
  ['eigs, modes, coefficients, reconstruction'], ENUM, 'model_checking', ENUMNOTE)

P('C23', 'Results depend only on the inputs of the call, not on history',
  'Every fit, projection or reconstruction gives the result it gives in a fresh process and folder, whatever was '
  'fitted, read, projected or reconstructed before with the same object, the same inputs or the same results '
  'folder. Inputs (data, weights) are never modified, and reading results changes neither them nor the process '
  '(working directory).',
  ['histories'],
  'all sequences of up to 3 (4 thorough) operations from an alphabet of fits, re-fits with other options, mode '
  'reads, projections and reconstructions in shared folders',
  'Tests run each operation once in a clean folder.',
  [SB, SP, SS, SU, PP, PB, PU, WT], [('result folders', SB), ('mode reading', PP), ('parameters kept by the object', SB)],
  ['all results after each history', 'inputs after each call'],
  'exhaustive exploration of operation histories on the real code against fresh-process results', 'model_checking',
  'Exhaustive for the stated alphabet and depth.')

P('C24', 'Reused Fourier blocks never give a silently wrong result',
  'Reusing stored Fourier blocks gives exactly the results of computing them, serially and in parallel and for any '
  'mix of rank counts between writing and reusing, and blocks are reused only by a fit that asks for it. After a crash at any point of writing the blocks, a fit that is '
  'asked to reuse them recomputes, or gives the result of one complete set of blocks (never of a mixture of an '
  'earlier and an interrupted run, or of blocks with holes), or raises an error.',
  ['crash_points', 'histories', 'configurations'],
  'every consistent cut of the file operations of the block-writing run over its ranks (with the last write cut at '
  'header and data boundaries), with and without older blocks, every pair of missing blocks, shapes, variables, '
  'all pairs of writer and reader counts 0..4 (0..7 thorough), all sequences of up to three fits of two data sets with '
  'and without storing and reusing blocks',
  'No test interrupts a run.',
  [SP, SB], [('block files', SP), ('presence test', SB + ':_are_blocks_present')], ['results after reuse'],
  'crash-point and torn-write enumeration on the real code', 'fault_enumeration',
  'Crash states are the consistent cuts of the recorded operation history with torn last writes; no reordering of '
  'writes by the file system.')

P('C25', 'A failed read or write is reported, never a result on partial data',
  'If reading any snapshot or input file fails at any point of a fit, the fit raises an error on the affected rank; no '
  'rank returns a result, none is stored, and the results an earlier fit left in that folder are untouched. If writing '
  'fails at any point, the fit, projection or reconstruction raises an error. Input and result files that are missing '
  'or cut short give an error or the result of the intact file, never another result. Faults that do not occur '
  'change nothing.',
  ['fault_sequences'],
  'a failure at every read access of batch, streaming and POD fits from lazy and labelled arrays (7 kinds of '
  'exception), netCDF and MATLAB files, on every rank; at every file operation of fits, projections and '
  'reconstructions; every input and result file missing or cut at header and data boundaries',
  'Tests never inject a failure.',
  [SS, SP, PB, RD, PAR, SU, PU, PP], [('end-of-stream test', SS), ('readers', RD), ('collective and mapped reading of '
   'results', PAR)],
  ['exception', 'absence of stored results'],
  'enumeration of single faults at every access on the real code', 'fault_enumeration',
  'One fault per run, at every access that the fault-free run makes; parallel runs use the MPI simulator.')

P('C26', 'Meaningless configurations are refused, meaningful ones are accepted',
  'Block lengths, overlaps, series lengths, mean types, weights, data lists and option combinations that have no '
  'meaning are refused with an error before any result is stored, on all ranks alike, and every configuration '
  'inside the documented limits runs.',
  ['configurations'],
  'the full grid of n_dft 1..8, overlaps, series lengths, mean types and option combinations around every limit',
  'The tests check a couple of refused values.',
  [SB, SP, SS, PB, RD], [('parameter checks', SB), ('reader checks', RD)], ['exceptions', 'results folder'],
  'exhaustive enumeration of a configuration grid against an independent acceptance predicate', 'model_checking',
  ENUMNOTE)

P('C27', 'Look-ups return the nearest entry and the stored modes',
  'The nearest-frequency look-up returns the entry of the axis closest to the request and its index, the '
  'nearest-coordinate look-up returns for each axis the grid value closest to the request and its index, and mode '
  'look-ups return exactly the modes stored for that frequency, in order, for any number of modes and frequencies. '
  'Data look-ups return exactly the snapshots asked for, and a stored array is read with its shape, type and values.',
  ['inputs'],
  'all small axes and requests (ties, outside, negative), 1-3 dimensional grids, frequencies and mode counts over 10',
  'The tests look up a few entries.',
  [PP, SB], [('find_nearest_freq, find_nearest_coords', PP), ('get_modes_at_freq, get_all_modes', PP), ('get_data', SB)],
  ['returned values and indices'], ENUM, 'model_checking', ENUMNOTE)

P('C28', 'Error norms and energy spectra follow their definitions',
  'Each error measure is zero exactly when data and reference agree, is positive otherwise, scales with the '
  'difference, and equals its definition (mean absolute, root of the sum of squares over n, maximum, relative '
  'versions entry by entry with respect to the magnitude of a non-zero reference, and the discrete time-derivative '
  'norm) for real data of any shape and sign. The energy spectrum of a signal is half the squared magnitude of its '
  'Fourier coefficients, averaged over opposite wave numbers, and does not depend on the origin of the signal.',
  ['inputs'],
  'all pairs of arrays with entries in a small set of values, shapes up to 3 x 2, all norms; all signals of such entries up to a length',
  'The tests evaluate the norms on positive data only.',
  [ER, PP], [('compute_l_errors', ER), ('compute_h_errors', ER), ('compute_energy_spectrum', PP)], ['returned value'],
  ENUM, 'model_checking', ENUMNOTE)

P('C29', 'Emulation scaling is invertible and sequences align with the data',
  'Scaling and descaling coefficients with the scaling vector returns the data, for real and complex data and '
  'each normalisation, and scaled data stays in the promised range. Training sequences pair every input window '
  'with the following target window in order, and inference puts each prediction at the time step that follows its '
  'input window, keeping the given initial states.',
  ['inputs', 'configurations'],
  'number of features, lengths, input and output sequence lengths 1..3, horizon 1..3, normalisations, real and '
  'complex data, a stand-in predictor that identifies its input',
  'The existing test needs unavailable data and trains a network.',
  [EB, EN], [('scaling', EB), ('sequences and inference', EN)], ['arrays returned'],
  ENUM, 'model_checking', ENUMNOTE + 'The neural network itself is replaced by an identifiable predictor. ')

P('C30', 'Configuration and data files are read completely and unchanged',
  'Reading a configuration returns exactly the required and optional entries with their values, optional part '
  'absent or empty included. Reading a data file in a supported format returns the stored numbers, and '
  'other formats are refused.',
  ['inputs'],
  'all subsets of a key alphabet in required and optional parts, value types, orders; array files of each format',
  'The tests read one file.',
  [IO], [('read_config', IO), ('read_data', IO)], ['returned parameters and data'],
  ENUM, 'model_checking', ENUMNOTE)

P('C31', 'Plots show the data that was asked for',
  'Every figure that the plotting functions and the methods of a fit produce (eigenvalues, modes in two dimensions, '
  'slices of three-dimensional modes, tracers, data, coefficients, time series, videos, report) shows exactly the stored or '
  'given numbers at the nearest frequency and point and for the variables, modes, times and slices that were requested, at '
  'the coordinates given (or indices when none are), inside the visible range. There is one figure per request, saved '
  'under its own name in the folder asked for (that of the results for methods). A marked maximum lies where the magnitude is '
  'largest. Plotting changes neither the stored results nor the arrays of the caller.',
  ['inputs'],
  'all combinations of plotting function, shape, requested variables, modes, times, points, slices and frequency, coordinates '
  '(left out, given, exchanged, of one sign), options, of a bounded alphabet',
  'The tests call plotting functions with one data set and look at nothing in the figures.',
  [PP, SB], [('plot_2d_modes_at_frequency', PP), ('plot_3d_modes_slice_at_frequency', PP), ('plot_mode_tracers', PP),
             ('plot_data_tracers', PP), ('plot_2d_data', PP), ('generate_2d_data_video', PP)],
  ['lines, fields, limits and file name of every figure when it is saved'],
  ENUM, 'model_checking', ENUMNOTE + 'Figures are observed through the plotting library; nothing is rendered. ')

P('C32', 'A fit reports about itself what it did',
  'After any sequence of operations on an object (fits of different data, coefficients of all or some frequencies and '
  'modes, reconstructions), everything it reports (dimensions, shape, number of snapshots, points, variables, blocks, '
  'frequencies and modes, time step, weights, communicator, results and modes folders, files of the coefficients and of '
  'the reconstruction, range of frequencies) describes the last operation, however the data was given, on any number of '
  'ranks, and agrees with the parameters and arrays it stored; the parameters stored with the results (time step, block '
  'length, overlap and the options given) are those the results were computed with.',
  ['inputs', 'histories'],
  'all operation sequences up to length 5 (thorough 6) from six operations, three classes; all shapes x presentations x options of an alphabet; 1-5 ranks',
  'The tests read some of the attributes after one fit of one data set.',
  [SB, PB], [('attributes of a fit', SB), ('attributes of POD', PB)],
  ['values of the attributes, stored parameters and arrays'], ENUM, 'model_checking', ENUMNOTE)
