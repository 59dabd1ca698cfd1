prop('C01', 'Work is partitioned over ranks: exact cover, in order, balanced',
     'For every number of processes and every axis length, the contiguous index ranges assigned to the processes by the work-distribution '
     'helpers are disjoint, in rank order, and together cover every index exactly once. Every rank gets a non-negative count, and the counts '
     'of two ranks differ by at most one.',
     ['configurations', 'inputs'], 'all axis lengths N >= 0, all communicator sizes >= 1 and all ranks; 1 to 4 dimensional arrays',
     'tests run with one or two ranks and one data set; the claim is over every (size, N)',
     ['pyspod/utils/parallel.py'],
     [('distribute: contiguous slabs of the largest spatial axis', 'pyspod/utils/parallel.py:distribute'),
      ('distribute_data: slabs of each rank', 'pyspod/utils/parallel.py:distribute_data'),
      ('distribute_dimension', 'pyspod/utils/parallel.py:distribute_dimension')],
     technique='static value-flow analysis + linear-arithmetic proof (Farkas certificates) of the tiling obligations')

prop('C04', 'Results do not depend on the number of processes',
     'For every number of processes, a distributed run of SPOD (batch or streaming) or POD, of the computation of coefficients, or of a reconstruction writes '
     'the same files with the same values as the run of a single process, up to the rounding of sums that are taken in a different order: modes, '
     'eigenvalues, confidence bounds, frequencies, weights, long-time mean, coefficients, reduced modes, reconstructed fields and parameters.',
     ['inputs', 'configurations', 'schedules'], 'all numbers of processes, all shapes of the data (whichever axis is the longest, uneven splits, empty pieces), '
     'data in memory without missing values',
     'tests use two ranks and one data set; a missing or doubled reduction on a path they do not take, or one that cancels for equal pieces, is not seen',
     ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/spod/utils.py', 'pyspod/pod/base.py', 'pyspod/pod/standard.py',
      'pyspod/pod/utils.py', 'pyspod/utils/parallel.py', 'pyspod/utils/weights.py'],
     [('reduction of the cross-spectral density', 'pyspod/spod/standard.py:_compute_standard_spod'), ('streaming inner products', 'pyspod/spod/streaming.py:fit'),
      ('reduction of projections', 'pyspod/spod/utils.py:compute_coeffs_op / compute_coeffs_conv'), ('variance over processes', 'pyspod/utils/parallel.py:pvar')],
     technique='static value-flow analysis + type inference of the distribution of every value (replicated / piece / partial sum) + comparison of the one-process reading with the serial program')

prop('C09', 'The record is split into complete, equally spaced, overlapping blocks',
     'For every record length, block length and overlap percentage, the record is split into floor((nt - ovl)/(n_dft - ovl)) blocks with '
     'ovl = ceil(n_dft * overlap / 100). Each block is n_dft consecutive snapshots inside the record, the first starts at snapshot 0, '
     'consecutive blocks start n_dft - ovl snapshots apart, and one further block would not fit.',
     ['inputs', 'configurations'], 'all n_dft >= 4, all overlaps below 100 %, all records that hold at least one block; batch (non-streaming) SPOD',
     'tests use one record with one or two (n_dft, overlap) pairs',
     ['pyspod/spod/base.py', 'pyspod/spod/standard.py'],
     [('number of blocks and overlap', 'pyspod/spod/base.py:_initialize'), ('block offset', 'pyspod/spod/standard.py:_compute_blocks')],
     technique='static value-flow analysis + linear-arithmetic proof of the segmentation obligations')

prop('C10', 'Each block spectrum is the windowed, centred, normalised DFT of its block',
     'In batch SPOD every block spectrum that enters the decomposition is the discrete Fourier transform of (block minus the selected mean) '
     'times the Hamming window, divided by n_dft and by the mean of the window. The subtracted mean is the long-time mean, the mean of the block '
     'or zero exactly as requested by the mean type, and with data normalisation the block is divided by its pointwise variance.',
     ['inputs', 'configurations'], 'all data, block lengths, overlaps, real and complex data, one- and two-sided spectra, the documented mean types',
     'tests compare a few printed eigenvalues of one data set to 4 digits; a wrong term that vanishes there is not seen',
     ['pyspod/spod/standard.py', 'pyspod/spod/base.py'],
     [('windowed DFT of a block', 'pyspod/spod/standard.py:_compute_dft / pyspod/spod/base.py'), ('long-time mean', 'pyspod/spod/base.py:compute_ltm')])

prop('C12', 'The frequency axis matches the transform bins',
     'In batch SPOD the reported frequency of bin k is k/(n_dft dt), with bins above the Nyquist bin mapped to negative frequencies for complex data. '
     'A one-sided spectrum has floor(n_dft/2)+1 bins, a full or complex one has n_dft bins, and as many frequencies are decomposed and stored as the axis has.',
     ['inputs', 'configurations'], 'all even and odd block lengths, all time steps, one-sided / full / complex',
     'tests use one even n_dft and mostly real data', ['pyspod/spod/base.py'],
     [('frequency axis', 'pyspod/spod/base.py:get_freq_axis'), ('mode files per frequency', 'pyspod/spod/standard.py')])

prop('C13', 'Eigenvalues and modes are those of the weighted cross-spectral density',
     'In batch SPOD, at every frequency the reported eigenvalues are those of Q^H W Q / n_blocks in decreasing order, Q holding the block spectra as columns and W the '
     'weights. The stored modes are Q psi / sqrt(n_blocks lambda) with the eigenvectors in the same order, the leading n_modes_save of them, '
     'in the spatial and variable shape of the data.',
     ['inputs', 'configurations'], 'all data and weights, 2-d and 3-d space, single and several variables, real/complex/full spectrum (serial run)',
     'tests check a few extreme values of modes of one data set',
     ['pyspod/spod/standard.py', 'pyspod/spod/base.py'],
     [('CSD, eigen-decomposition, ordering', 'pyspod/spod/standard.py:_compute_standard_spod')])

prop('C14', 'One-sided energy doubling and confidence bounds',
     'In batch SPOD the eigenvalues of a one-sided spectrum are doubled at every bin except zero and Nyquist (an odd block length has no Nyquist bin), those of '
     'two-sided spectra at none. The saved upper and lower confidence bounds are the eigenvalues times 2 n_blocks over the chi-square quantile '
     'with 2 n_blocks degrees of freedom at 1 - conf_level and conf_level.',
     ['inputs', 'configurations'], 'all eigenvalues, block counts, confidence levels, even and odd block lengths',
     'tests never compare the confidence bounds and use one even block length',
     ['pyspod/spod/standard.py', 'pyspod/spod/base.py'],
     [('doubling', 'pyspod/spod/standard.py'), ('bounds', 'pyspod/spod/base.py / standard.py')])

prop('C11', 'The stored long-time mean is the time mean of the whole record',
     'A batch or streaming fit stores as long-time mean the average of all snapshots of the record, every snapshot counted once, whether the data '
     'are arrays in memory, several arrays, or files read chunk by chunk, real or complex; with the long-time mean type it is this mean that is '
     'subtracted from every block.',
     ['inputs', 'configurations'], 'all data and record lengths; in-memory arrays, lists of arrays, chunked file reader; serial runs',
     'tests compare the mean indirectly, through eigenvalues of one data set that is read in one chunk',
     ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/utils/reader.py'],
     [('long-time mean', 'pyspod/spod/base.py:compute_ltm / select_mean'), ('running mean', 'pyspod/spod/streaming.py')])

prop('C17', 'Expansion coefficients are the weighted projection on the stored modes',
     'compute_coeffs_op stores the coefficients (P^H W P)^+ P^H W (X - mean), with P the stored modes of the selected frequencies in the order of the '
     'modes it stores next to them (modes_r); with svd=True singular values at or below tol times the largest are dropped. compute_coeffs_conv stores the '
     'weighted inner products of the modes with the centred windowed transform of the data around every snapshot. The mean stored is the one that was '
     'subtracted, and the stored parameters name the frequency range used: the frequencies nearest to 1/T_ub ... 1/T_lb, the given freq_idx, or all.',
     ['inputs', 'configurations'], 'all data, weights, modes, frequency ranges, 1-d to 3-d space, one or several variables; serial runs',
     'tests compare a few printed extrema of one small data set', ['pyspod/spod/utils.py', 'pyspod/utils/postproc.py'],
     [('oblique projection', 'pyspod/spod/utils.py:compute_coeffs_op'), ('convolution', 'pyspod/spod/utils.py:compute_coeffs_conv'),
      ('frequency range', 'pyspod/spod/utils.py / pyspod/utils/postproc.py:find_nearest_freq')])

prop('C18', 'Reconstruction returns mean plus modes times coefficients at the chosen times',
     'compute_reconstruction of SPOD (for both kinds of coefficients) and of POD returns, with time as first axis, the stored mean plus the stored reduced modes times '
     'the stored coefficients at exactly the requested snapshots: all, half (every 2nd), quarter (every 4th), tenth (every 10th), hundredth (every 100th), or the given '
     'list in the given order; without coefficients in memory they are read back from the stored file.',
     ['inputs', 'configurations'], 'all stored coefficients and modes, all requested time ids; serial runs',
     'tests reconstruct one data set at all snapshots', ['pyspod/spod/utils.py', 'pyspod/pod/utils.py'],
     [('SPOD reconstruction', 'pyspod/spod/utils.py:compute_reconstruction'), ('POD reconstruction', 'pyspod/pod/utils.py:compute_reconstruction')])

prop('C32', 'Weights are as given, one by default, or divided by variances',
     'The weights used and stored by SPOD (batch and streaming) and POD are the array passed by the user in the spatial and variable shape of the data, and '
     'ones when none is passed. In batch SPOD and POD with weight normalisation, the weights of each variable are divided by the (population) variance of that '
     'variable over all snapshots and points, for real and complex data, whether one process or several hold the data.',
     ['inputs', 'configurations'], 'data in memory without missing values, all shapes and weights, any number of processes (with a space axis distributed), pieces of any size',
     'tests use one data set of one variable on two ranks with pieces of equal size, where a wrong merge of the variances is not seen',
     ['pyspod/spod/base.py', 'pyspod/pod/base.py', 'pyspod/utils/weights.py', 'pyspod/utils/parallel.py'],
     [('weights by variance', 'pyspod/utils/weights.py:apply_normalization'), ('variance over processes', 'pyspod/utils/parallel.py:pvar'),
      ('default weights', 'pyspod/spod/base.py:define_weights')],
     technique='static value-flow analysis + normal-form equality with a reference formula; the user-defined reduction is evaluated symbolically on moments of arbitrary pieces')

prop('C03', 'Collective operations are matched on all processes',
     'In every parallel run (fit of SPOD, batch or streaming, and POD, computation of coefficients, reconstruction, reading of files in parallel, and the utilities of '
     'the parallel module) all processes execute the same collective communications and collective file operations equally often: whether and how often one is '
     'executed, its root and its operation never depend on the rank of a process or on the part of the data it holds, and arrays reduced elementwise have the same '
     'shape on all processes.',
     ['schedules', 'inputs', 'configurations'], 'all numbers of processes, all splits of the data (also empty pieces), all branches and loops of the listed entry points',
     'a collective that one process skips deadlocks only for the data or the process count that reaches it; tests use two processes and one data set',
     ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/spod/utils.py', 'pyspod/pod/base.py', 'pyspod/pod/standard.py',
      'pyspod/pod/utils.py', 'pyspod/utils/parallel.py', 'pyspod/utils/reader.py'],
     [('reductions and barriers', 'pyspod/utils/parallel.py'), ('collective file access', 'pyspod/utils/parallel.py:npy_save / npy_load'),
      ('distribution of modes to writers', 'pyspod/spod/standard.py:_compute_standard_spod'), ('parallel reading', 'pyspod/utils/reader.py:reader_2stage')],
     technique='static value-flow analysis + process-dependence (taint) analysis of the path condition, loop bounds, roots and buffer shapes of every collective')

prop('C05', 'One writer per file and directory in parallel runs',
     'In every parallel run (fit of SPOD, batch or streaming, and POD, computation of coefficients, reconstruction), every file is written either collectively by all processes '
     'together, or by exactly one process: no two processes ever write the same path, also when the modes are distributed over the processes for writing, for '
     'any number of frequencies, modes and processes. A directory is created by one process only, or in a way that tolerates that it exists.',
     ['schedules', 'inputs', 'configurations'], 'all numbers of processes, all branches and loops of the listed entry points; the distribution of modes over writers is evaluated for up to 5 processes, 5 frequencies and 3 modes',
     'two processes writing one file give a torn or truncated file only under unlucky timing; a race in creating a directory fails only sometimes',
     ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/spod/utils.py', 'pyspod/pod/base.py', 'pyspod/pod/utils.py', 'pyspod/utils/parallel.py'],
     [('results', 'pyspod/spod/base.py:_store_and_save / pyspod/pod/base.py:_store_and_save'), ('coefficients', 'pyspod/spod/utils.py:compute_coeffs_op, compute_coeffs_conv; pyspod/pod/utils.py'),
      ('distribution of modes to writers', 'pyspod/spod/standard.py:_compute_standard_spod'), ('collective files', 'pyspod/utils/parallel.py:npy_save')],
     technique='static value-flow analysis + process-dependence analysis of the path condition and path name of every file write; derived closed-form writer formulas compared for small groups')

prop('C06', 'What one process writes is complete before other processes use it',
     'In every parallel run (fit of SPOD, batch or streaming, and POD, computation of coefficients, reconstruction), whenever one process creates a directory or writes a file '
     'that other processes use afterwards, all processes synchronise in between; no process overwrites a file that others may still be reading; and when an operation '
     'returns on any process, the files that single processes wrote (results, parameters, eigenvalues, modes, coefficients) are complete.',
     ['schedules', 'configurations'], 'all schedules of any number of processes, all branches and loops of the listed entry points; synchronisation is by barriers and by all-to-all collectives (allreduce, allgather, alltoall)',
     'a missing barrier shows only when one process runs far enough ahead of the other',
     ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/spod/utils.py', 'pyspod/pod/base.py', 'pyspod/pod/utils.py', 'pyspod/utils/parallel.py'],
     [('result directories', 'pyspod/spod/base.py:_initialize / pyspod/pod/base.py:_initialize'), ('result files', 'pyspod/spod/base.py:_store_and_save / pyspod/pod/base.py:_store_and_save'),
      ('coefficients', 'pyspod/spod/utils.py:compute_coeffs_op, compute_coeffs_conv, compute_reconstruction; pyspod/pod/utils.py')],
     technique='static happens-before analysis: order of file effects and synchronising collectives on every path, with the set of processes each effect is restricted to')

prop('C19', 'Inputs of the user and stored results are never modified',
     'Fitting SPOD (batch or streaming) and POD, computing coefficients and reconstructing never modify the arrays of data and weights, the lists or the dictionaries the '
     'caller passes (contents, shape or entries), serially or in parallel, except that params["savedir"] is set to the absolute path of the directory used. '
     'Computing coefficients and reconstructing never modify or overwrite the stored result files they read.',
     ['inputs', 'configurations', 'histories'], 'all data, weights and parameters in memory; all listed entry points, serial and parallel',
     'tests compare results of one call; a modified input shows up only in a later use of the same array or result folder',
     ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/streaming.py', 'pyspod/spod/utils.py', 'pyspod/pod/base.py', 'pyspod/pod/standard.py', 'pyspod/pod/utils.py',
      'pyspod/utils/weights.py', 'pyspod/utils/parallel.py', 'pyspod/utils/reader.py'],
     [('blocks', 'pyspod/spod/standard.py:_get_block, _compute_blocks'), ('weights', 'pyspod/utils/weights.py:apply_normalization'), ('coefficients', 'pyspod/spod/utils.py / pyspod/pod/utils.py')],
     technique='static alias and effect analysis: in-place stores on values reachable from user arguments or memory-mapped files, through views')

prop('C34', 'POD returns ordered eigenvalues, weighted modes and coefficients',
     'POD of real data stores the eigenvalues of D^T W D in descending order, D being the fluctuations of all snapshots about their time mean, and as modes '
     'D V / sqrt(eigenvalue) with V the eigenvectors in the same order, the first n_modes_save of them (never more than snapshots), in the shape of the data. '
     'The POD coefficients of data are Phi^T W (X - mean) with Phi and W as stored; the modes and the mean stored next to them are the ones used. '
     'An unknown type of mean is rejected.',
     ['inputs', 'configurations'], 'all data in one or several arrays, weights, 1-d to 3-d space, one or several variables, odd and even numbers of snapshots; serial runs (parallel runs: C04)',
     'tests compare a few printed extrema of one data set', ['pyspod/pod/standard.py', 'pyspod/pod/base.py', 'pyspod/pod/utils.py'],
     [('decomposition', 'pyspod/pod/standard.py:fit'), ('mean', 'pyspod/pod/base.py:long_t_mean'), ('coefficients', 'pyspod/pod/utils.py:compute_coeffs_op')])

prop('C30', 'Error norms are the stated norms of data minus reference',
     'compute_l_errors returns, with e the entries of |data - reference| and n their number, l1 = sum(e)/n, l2 = sqrt(sum(e^2))/n, linf = max(e), and l1_rel, l2_rel, linf_rel '
     'the same of e/|reference|; compute_h_errors returns h1 = sqrt(sum over time of dt * sum |d/dt data - d/dt reference|^2) with backward differences along the first axis '
     '(zero at the first time). The defaults are l2 and h1; an unknown norm raises an exception. This holds for real and complex data of any shape.',
     ['inputs'], 'real and complex arrays with 1 to 3 dimensions of any extent (reference of the same shape)',
     'tests compare two numbers of one data set', ['pyspod/utils/errors.py'],
     [('l norms', 'pyspod/utils/errors.py:compute_l_errors'), ('h1', 'pyspod/utils/errors.py:compute_h_errors')])

prop('C31', 'Nearest frequency and coordinate lookup, and snapshot selection',
     'find_nearest_freq returns the frequency with the smallest distance to the requested one and its index; find_nearest_coords returns, in every dimension, the grid '
     'coordinate with the smallest distance to the requested one and its index, and rejects coordinates that are no list or do not match the shape of the data. The methods of '
     'a fitted SPOD do the same on its own frequency axis (unless one is given) and its own spatial shape, and get_data returns the snapshots t_0 .. t_end-1 (all by default) '
     'with an axis for the variables.',
     ['inputs', 'configurations'], 'all coordinates, frequencies and sizes; 1-d to 3-d space, one or several variables, serial fits',
     'tests look up a few values of one grid', ['pyspod/utils/postproc.py', 'pyspod/spod/base.py'],
     [('nearest frequency', 'pyspod/utils/postproc.py:find_nearest_freq'), ('nearest coordinates', 'pyspod/utils/postproc.py:find_nearest_coords'),
      ('snapshots', 'pyspod/spod/base.py:get_data')])

prop('C07', 'Each stage finds the files the previous stage wrote',
     'The mode files, weights and parameter files a fit writes are those that get_modes_at_freq, compute_coeffs_op, compute_coeffs_conv (SPOD) and compute_coeffs_op (POD) look '
     'for in the directory the fitted object reports, and the files these write are those compute_reconstruction looks for in the directory they return: names, parameter keys, '
     'shapes and order of axes agree, so that coefficients use the stored modes and weights of every frequency and a reconstruction uses the stored coefficients, modes and mean. '
     'get_modes_at_freq returns the modes of the requested frequency whether they are stored in one file per frequency or in one file per frequency and mode. The same holds '
     'for the methods of the fitted object, and a second reconstruction of the same coefficients gives the same fields.',
     ['inputs', 'configurations', 'histories'], 'serial runs: batch and streaming SPOD, POD; real, complex, full-spectrum; 1-d to 3-d space, one or several variables; all sizes',
     'tests run one chain on one data set with one layout', ['pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/spod/utils.py', 'pyspod/pod/standard.py', 'pyspod/pod/base.py',
      'pyspod/pod/utils.py', 'pyspod/utils/postproc.py'],
     [('fit', 'pyspod/spod/base.py:_store_and_save; pyspod/spod/standard.py:_compute_standard_spod'), ('coefficients', 'pyspod/spod/utils.py:compute_coeffs_op, compute_coeffs_conv, compute_reconstruction'),
      ('modes', 'pyspod/utils/postproc.py:get_modes_at_freq'), ('POD', 'pyspod/pod/utils.py')],
     technique='static analysis of file effects: the terms written by one stage are the contents of the disk of the next')

prop('C22', 'Modes distributed by frequency: every mode file is written once and complete',
     'With savefreq_disk2 (modes distributed by frequency over the processes), for any number of processes, frequencies and modes, and however many points each process holds: '
     'the mode of every frequency and number is written exactly once, by one process, to freq_idx_f<frequency>_m<mode>.npy in the modes directory; the file holds the values '
     'of that mode from all processes, in the order of the processes, without padding, in the shape of the field; every message is received by the receive meant for it, data are used only after '
     'they have arrived, every request is completed and no process waits forever.',
     ['inputs', 'configurations', 'schedules'],
     'the message schedule derived from the source, decided for 84 groups: 1-5 processes, 1-5 frequencies, 1-3 modes, equal and unequal local parts (also empty); the values sent are decided for all sizes',
     'the tests run on one process and never enter the message passing with several writers', ['pyspod/spod/standard.py', 'pyspod/spod/base.py'],
     [('distribution', 'pyspod/spod/standard.py:_compute_standard_spod')],
     technique='static extraction of the message schedule (destinations, sources, offsets, waits as formulas) and matching of sends and receives over all its interleavings by instantiation for small groups')

prop('C20', 'Data read from files in chunks: all snapshots of a process\'s own part of space',
     'For NetCDF files whose time dimension has a coordinate variable (2-stage reader) and MATLAB files (one snapshot per file), for any number of processes, lengths of the files, and range of snapshots: get_data_for_time(s, e) returns on every '
     'process the snapshots s to e, in order, of its own consecutive part of the flattened space, for all variables in the order requested - each value from the file, snapshot and position it belongs '
     'to - both when messages are exchanged point to point and when they are padded and gathered (MPI < 4, large data); every request is completed. get_data returns chunks that follow each other '
     'without gap or overlap from the first snapshot to the last, each labelled with the snapshots it holds. Blocks taken from the chunks are the snapshots of the block in order, a chunk that a later block '
     'needs is not removed, and the long-time mean averages the snapshots of all chunks.',
     ['inputs', 'configurations', 'schedules'],
     'the exchange derived from the source decided for 1, 2 and 4 processes, several file lengths, shapes and ranges, both message forms; chunks for 1-5 chunks; blocks for 20 block and chunk layouts',
     'tests run on one process with a single file, one chunk and never the padded form', ['pyspod/utils/reader.py', 'pyspod/spod/standard.py', 'pyspod/spod/base.py'],
     [('exchange', 'pyspod/utils/reader.py:reader_2stage.get_data_for_time, reader_mat.get_data_for_time'), ('chunks', 'pyspod/utils/reader.py:get_data'),
      ('block', 'pyspod/spod/standard.py:_get_block'), ('mean', 'pyspod/spod/base.py:long_t_mean')],
     technique='static extraction of file selections, messages and buffers as index formulas; the origin of every value traced by instantiation for small groups of processes')

prop('C23', 'Parallel .npy files hold the whole array; every process reads back its part',
     'npy_save with a communicator writes an array distributed along any axis (any extents, also empty parts, any memory order) as one .npy file: the header, written once at the start of the emptied file, gives the shape '
     'of the whole array and the order the values are stored in, and every entry is written exactly once, at its place, parts in the order of the processes. npy_load gives every process its consecutive '
     'part along the axis - the even distribution, or the given count of each process - for files in C or Fortran order. Without a communicator they are numpy.save and numpy.load of the whole array. '
     'MPI data types created here, in the 2-stage readers and for modes distributed by frequency are committed before use and freed exactly once in every process; files are closed once.',
     ['inputs', 'configurations'], 'the views and buffers derived from the source decided for 1-d to 3-d arrays, every axis, 1-4 processes, unequal and empty parts, three memory orders',
     'tests save and load one shape with one distribution', ['pyspod/utils/parallel.py', 'pyspod/utils/reader.py', 'pyspod/spod/standard.py'],
     [('save', 'pyspod/utils/parallel.py:npy_save'), ('load', 'pyspod/utils/parallel.py:npy_load'), ('released', 'pyspod/utils/reader.py; pyspod/spod/standard.py:_compute_standard_spod')],
     technique='static extraction of file views, types and buffers as index formulas, instantiated for small groups of processes; typestate of MPI types and files')

prop('C08', 'Stored Fourier blocks: saving changes nothing, reusing gives the same results',
     'A batch SPOD fit with savefft writes one file for every block and frequency and gives otherwise the same eigenvalues, modes, frequencies, weights and other files as a fit without it; '
     'fits of different block length or overlap keep their blocks in different folders. A fit with reuse_blocks, after a fit of the same data and parameters saved its blocks, gives the results of a fit that computes them. The blocks '
     'are read if and only if the file of every block and frequency is there; if any is missing all blocks are computed from the data, with the same results as without reuse_blocks.',
     ['inputs', 'configurations', 'histories'],
     'serial batch SPOD; real, complex, full-spectrum; 1-d to 3-d space; all mean types, normalization, both ways of storing modes, both precisions; all sizes and data. '
     'Which sets of files count as complete: every set of one, all but one, a prefix or every second file, for 2 to 3 blocks (serial and parallel)',
     'the tests reuse the blocks of one data set, and never with some of the files missing',
     ['pyspod/spod/base.py', 'pyspod/spod/standard.py'],
     [('decision', 'pyspod/spod/base.py:_are_blocks_present'), ('save and load', 'pyspod/spod/standard.py:fit')],
     technique='static analysis of file effects: the terms written by a fit that saves are the contents of the disk of a fit that reuses; result terms compared by normal form')

prop('C27', 'Runs write only below the result directory and leave the process as it was',
     'Fits (SPOD batch or streaming, POD), the computation of coefficients and reconstructions create files and directories only below the result directory the caller names (savedir of the parameters, results_dir, '
     'coeffs_dir); they remove or rename nothing. Coefficients and reconstructions go to the sub-folder given as savedir, a reconstruction has the given file name, and the file and directory returned are those written. '
     'SPOD fits of different block length, overlap or number of blocks use different folders, as do coefficients of different period ranges. None of these, and no other code of the package but the '
     'emulation, changes the working directory, the environment, signal handlers, random seeds or error settings of the process.',
     ['inputs', 'configurations', 'histories'],
     'configurations: batch and streaming SPOD, POD, files or arrays, serial and parallel; folder names compared for 180 combinations of record length, block length and overlap',
     'tests look for the files they expect, and not for files elsewhere, lost files, or a changed process',
     ['pyspod/spod/base.py', 'pyspod/spod/utils.py', 'pyspod/pod/base.py', 'pyspod/pod/utils.py', 'pyspod/utils/parallel.py'],
     [('folders', 'pyspod/spod/base.py:_initialize; pyspod/pod/base.py:_initialize'), ('coefficients', 'pyspod/spod/utils.py, pyspod/pod/utils.py')],
     technique='static effect analysis: path terms of every file effect; query over all call sites of the package for process-wide effects')

prop('C25', 'Unusable settings are rejected before anything is written',
     'SPOD (batch and streaming) raises ValueError when the overlap in snapshots reaches the block length, when the block length is below 4 or fewer than 2 blocks fit; it accepts every other combination of record length, '
     'integer block length and overlap percentage. SPOD and POD raise ValueError for an unknown mean type (compared without case) and for weights whose number is not that of points times variables, '
     'and raise an exception for arrays of different spatial shape. SPOD raises an exception when modes are to be stored by one process and distributed, or distributed without processes. All this happens before any file or directory is written. '
     'A reconstruction raises TypeError when time_idx is neither list nor string, and ValueError before coefficients were computed; SPOD coefficients raise ValueError for an unknown dtype.',
     ['inputs', 'configurations'],
     'the conditions derived from the source, decided for 630 combinations of record length, block length and overlap, 10 mean types and 7 sizes of weights; fits in memory, serial',
     'tests try one invalid setting of a kind, and never the smallest valid ones', ['pyspod/spod/base.py', 'pyspod/pod/base.py', 'pyspod/spod/utils.py', 'pyspod/pod/utils.py', 'pyspod/utils/reader.py'],
     [('settings', 'pyspod/spod/base.py:__init__, _initialize, define_weights, select_mean; pyspod/pod/base.py'), ('utilities', 'pyspod/spod/utils.py, pyspod/pod/utils.py')],
     technique='static path-condition analysis: the guard of every exception and assertion, as a formula, against the stated condition; order of exceptions and file effects')
prop('C16', 'Streaming SPOD follows the recursive update block by block',
     'For complex data, and real data with the one-sided spectrum and an even block length, streaming SPOD takes blocks of n_dft consecutive snapshots, the first from the first snapshot and then every '
     'n_dft - n_overlap snapshots; a block counts once, when its last snapshot is read, in order, and an incomplete block never. Block b = 1, 2, ... contributes at every frequency '
     'x = sqrt(weights) times the DFT of the windowed (Hamming) difference of the block and the mean of all snapshots read so far, divided by n_dft and by the mean of the window; the bins between zero '
     'and Nyquist of a one-sided spectrum are doubled. From U = 0, S = 0, every block replaces U and S by the n_modes_save leading left singular vectors and singular values of '
     'sqrt((b+1)/(b+2)^2) [sqrt(b+2) U S, x], found through the part of x orthogonal to U (x - U U^H x and its norm). The modes written, one file for every frequency, are U divided by sqrt(weights), and the '
     'eigenvalues stored are S.',
     ['inputs', 'configurations'],
     'formulas of all modes and eigenvalues extracted from the program, compared for 15 combinations of record length, block length, overlap, number of modes and kind of data (two grid points, up to five blocks) '
     'with arbitrary data; singular value decompositions and the window\'s cosine uninterpreted',
     'tests pin the largest mode amplitude of one record; the recursion over several blocks is never compared with its definition',
     ['pyspod/spod/streaming.py', 'pyspod/spod/base.py'], [('recursion', 'pyspod/spod/streaming.py:fit'), ('set-up', 'pyspod/spod/base.py:_initialize')],
     technique='value-flow formulas derived from the source, evaluated over a finite field with conjugation and compared with the stated recursion')
prop('C26', 'Every name, package attribute and call resolves, on every path',
     'No function of the package reads a local variable that is unbound or deleted on the path taken (loops are entered; chains of alternatives comparing one expression cover its documented values), '
     'reads a name that no enclosing scope, module or builtin binds, reads an attribute that a module of the package, of the standard library or of numpy does not have, reads an attribute of self that its class, '
     'its bases and derived classes never assign, or calls a function, class or method of the package with arguments its signature does not accept: no configuration fails with NameError, UnboundLocalError, AttributeError or TypeError of that kind.',
     ['inputs', 'configurations'], 'all functions and paths of the package (tests of the same text have the same outcome while nothing they mention changes)',
     'a name that is missing on a rarely taken branch fails only when that branch runs', ['pyspod/'],
     [('all', 'every function, class and module of pyspod')],
     technique='path-sensitive definite-assignment analysis over the syntax tree; scope, module member and call signature resolution')
prop('C29', 'Emulation: scaling is undone exactly, sequences and predictions keep their place',
     'For data_type real or complex: the scale of a row is ten times its largest modulus (localmax, the default), the largest modulus over all rows (globalmax) or one, for the real and the imaginary part apart; '
     'scale_data divides and descale_data multiplies each part by its scale, so that one undoes the other. extract_sequences returns n_snapshots - n_seq_in - n_seq_out - fh + 1 pairs: input t are snapshots t to t + n_seq_in - 1, '
     'target t the n_seq_out snapshots from t + n_seq_in - 1 + fh, one after the other; fh < 1 raises an exception. model_train trains with the sequences of the real part, and for complex data also of the imaginary part, training and validation data each with its own, '
     'stored under real<id> and imag<id>. model_inference rejects inputs shorter than n_seq_in; it returns the first n_seq_in snapshots as given, and every following stretch of n_seq_out snapshots (the last one cut at the end) '
     'as predicted from the n_seq_in input snapshots before it, each part with the weights trained for it.',
     ['inputs', 'configurations'],
     'formulas derived from the source, compared for 4 shapes times 8 scalings, 6 layouts of sequences, 12 trainings and 28 inferences; the network is an arbitrary function of its input',
     'tests compare one trained network with pinned numbers; other lengths of output, horizons and parts are never compared', ['pyspod/emulation/base.py', 'pyspod/emulation/neural_nets.py'],
     [('scaling', 'pyspod/emulation/base.py:scaler, scale_data, descale_data'), ('sequences', 'pyspod/emulation/neural_nets.py:extract_sequences'), ('inference', 'pyspod/emulation/neural_nets.py:model_inference, model_train, _train')],
     technique='value-flow formulas and effect order derived from the source, evaluated over rational data with an uninterpreted network')

prop('C35', 'Orthogonality check: weighted inner product of two stored modes and its verdict',
     'For a stored result, one frequency and two modes, given as ids or as lists of one id each, check_orthogonality returns the inner product over all points and variables of the two stored modes of that frequency, '
     'the first one conjugated, with the stored weights, and the verdict whether it is within 2e-6 of one (same mode) or of zero (different modes), as one number and one truth value, the same on every process of a parallel call.',
     ['inputs', 'configurations'],
     'formulas of both results derived from the source, evaluated exactly over rational complex modes and weights for groups of 1 to 3 processes, with deviations just inside and just outside the tolerance',
     'tests call the check on modes that are orthonormal, so a wrong verdict for others, or for integer ids, is never seen', ['pyspod/spod/utils.py'],
     [('inner product and verdict', 'pyspod/spod/utils.py:check_orthogonality'), ('stored modes', 'pyspod/spod/utils.py:_get_modes'), ('distribution of weights', 'pyspod/utils/parallel.py:distribute')],
     technique='value-flow formulas derived from the source, evaluated exactly over complex rational data')

prop('C37', 'Methods of a fit hand on what they are given, and show the snapshots asked for',
     'The plot and video methods of an SPOD fit in one process, and compute_coeffs_op and compute_reconstruction of SPOD and POD fits, call the function of the same name of the postproc or utils module exactly once; every argument that '
     'both take is handed on under its own name, and eigenvalues, frequencies (where none are given), result directory, directory of the plots and communicator are those of the fit. plot_2d_data, plot_data_tracers and '
     'generate_2d_data_video of given data show exactly the snapshots at time_idx, or from the first to before the last of time_limits, also for one variable without an axis of its own. '
     'compute_reconstruction uses the coefficients computed before, and both methods return what the function returns.',
     ['inputs', 'configurations'],
     'the method is interpreted with a symbol for every argument and its calls of the function compared argument by argument; snapshots at positions of small records',
     'tests call a few methods with default arguments and time limits starting at zero, and look at no picture', ['pyspod/spod/base.py', 'pyspod/pod/base.py'],
     [('plots', 'pyspod/spod/base.py:plot_eigs ... generate_2d_data_video'), ('snapshots', 'pyspod/spod/base.py:get_data'), ('coefficients', 'pyspod/spod/base.py and pyspod/pod/base.py:compute_coeffs_op, compute_reconstruction')],
     technique='interprocedural argument flow by abstract interpretation, evaluated at small records for snapshots')

prop('C38', 'Pictures show the values they are given, at the positions they belong to',
     'Given a file name, plot_eigs, plot_eigs_vs_frequency, plot_eigs_vs_period, plot_coeffs, plot_compare_time_series and plot_training_histories of the postproc module draw exactly one line per column, coefficient or series, over its index, its '
     'frequency or one over its frequency (plot_eigs: all eigenvalues in one line). plot_2d_data and generate_2d_data_video draw the real part of exactly the snapshots and variables asked for, plot_data_tracers the values over the time limits at the nearest grid point, '
     'and plot_2d_modes_at_frequency and plot_3d_modes_slice_at_frequency the real part (and imaginary part where asked for) of exactly the stored modes and variables asked for at the nearest frequency (2-D: those that exist, within the limits, or with halves exchanged), '
     'every value at its own coordinates, given or counted, for grids with different numbers of points along their axes. Every picture and video goes into one file of its own. Colours, labels and further options are left open.',
     ['inputs', 'configurations'],
     'the calls that draw and save are collected with their arguments and conditions as formulas of the inputs, evaluated over rational data for 6 shapes of eigenvalues and series and 18 layouts of data and modes, and compared point by point',
     'tests call the functions and look at no picture', ['pyspod/utils/postproc.py'],
     [('lines', 'pyspod/utils/postproc.py:plot_eigs, plot_eigs_vs_frequency, plot_eigs_vs_period, plot_coeffs, plot_compare_time_series, plot_training_histories, plot_data_tracers'),
      ('fields', 'pyspod/utils/postproc.py:plot_2d_data, generate_2d_data_video, plot_2d_modes_at_frequency, plot_3d_modes_slice_at_frequency')],
     technique='effects of the drawing calls derived as formulas from the source, evaluated over rational data')

prop('C28', 'Data files and configuration files are read completely, in the right format',
     'read_data reads a NumPy, netCDF or MATLAB (HDF5) file according to the format given, with or without dot, or else to the extension of its name, both in any case, and returns its content unchanged: the array, the dataset, or a dictionary '
     'with every name and its array; on every process alike. Any other format raises a ValueError and reads nothing. read_config of a file name returns one dictionary with every entry of the required list and, if present, the optional list of that file, under its own name with its own value, '
     'whatever the value, the order and the number of entries (one entry per item, distinct names).',
     ['inputs', 'configurations'],
     'both functions are interpreted for 12 readable and 6 unsupported combinations of name and format, serial and parallel, and 12 configurations with symbolic values; files read, values returned and exceptions are compared',
     'tests read a few files with common names and configurations whose values are never compared', ['pyspod/utils/io.py'],
     [('formats', 'pyspod/utils/io.py:read_data'), ('configuration', 'pyspod/utils/io.py:read_config, _parse_yaml, _check_keys')],
     technique='abstract interpretation to value-flow terms, compared in normal form with reference formulas')
