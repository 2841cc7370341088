#!/usr/bin/env python3
"""Writes properties.jsonl.  The properties are kept here, in a form that is easier to edit."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))


prop('C01', 'The double-ended queue behaves as a bounded sequence, and traps misuse',
     'After any history of pushes and pops at both ends and clears, the double-ended queue of any capacity holds exactly the values a sequence would hold, in that order: its front, back, size, emptiness and fullness are those of the sequence and its maximum size is its capacity. A push on a full queue, and a pop or an access of an end of an empty queue, ends in a failed assertion and in nothing else. No operation of one queue affects another one.',
     ['histories', 'configurations'], 'all histories of operations, all capacities from 1 on, all element types and values',
     'deque_test.cc runs one fixed history on one capacity; the wrap-around of both ends in all relative positions, reuse after clear and capacity 1 are never reached.',
     ['deque.hh'], [('ring buffer with two moving ends and a count', 'deque.hh: Deque')],
     [('buf, head, tail, count', 'ring storage, positions of both ends, number of stored values', 'deque.hh')], ['push_back', 'push_front', 'pop_back', 'pop_front', 'front', 'back', 'size', 'empty', 'full', 'max_size', 'clear'])
prop('C02', 'The fixed-size stack behaves as a bounded LIFO sequence, and traps misuse',
     'After any history of pushes, pops and clears, the stack of any capacity holds exactly the values pushed and not yet popped, last in first out: its top is the newest of them, its first is the oldest, and size, emptiness, fullness and maximum size agree with that sequence. A push on a full stack, and a pop, top or first on an empty one, ends in a failed assertion and in nothing else.',
     ['histories', 'configurations'], 'all histories of operations, all capacities from 1 on, all element types and values',
     'No test uses the stack directly; movext_test.cc exercises it only in the patterns the moving extrema produce.',
     ['stack.hh'], [('array with the position of the newest value', 'stack.hh: Stack')],
     [('buf, pos', 'stored values, position of the newest one', 'stack.hh')], ['push', 'pop', 'top', 'first', 'size', 'empty', 'full', 'max_size', 'clear'])
prop('C03', 'The delay line returns every sample exactly its length later',
     'A delay line of length N returns at call number n the sample given at call number n-N, and the initial value it was constructed with (zero by default) during the first N calls, for every N from 1 on and for any number of calls. Delay lines do not influence one another.',
     ['histories', 'configurations'], 'all input histories of any length, all line lengths, all initial values, all sample types',
     'No test uses the delay line directly; movext_test.cc reaches one length.',
     ['delay.hh'], [('ring buffer, read before overwrite', 'delay.hh: Delay')], [('buf, pos', 'the last N samples and the oldest one of them', 'delay.hh')], ['operator()'])
prop('C04', 'The bip buffer always presents the last N samples contiguously and in order',
     'After any number of insertions into a bip buffer of length N, the returned view shows exactly the last N inserted samples in the order of insertion, oldest first, with zeros for the samples that were not inserted yet. Asking for the view without inserting returns the same view again and changes nothing.',
     ['histories', 'configurations'], 'all input histories and interleavings of insertions and peeks, all lengths from 1 on, all sample types',
     'No test uses the bip buffer.',
     ['bip_buffer.hh'], [('every sample is stored twice, half a buffer apart', 'bip_buffer.hh: BipBuffer')],
     [('buf, pos0, pos1', 'doubled storage and the two write positions', 'bip_buffer.hh')], ['operator()'])
prop('C05', 'The sliding window accelerator combines exactly the last N samples, each once',
     'For every window length N and every commutative and associative operation, each call of the sliding window accelerator returns the combination of exactly the last N samples, each taken once, where the identity value given at construction stands in for samples not seen yet. Each call applies the operation no more often than the binary logarithm of N, plus one.',
     ['histories', 'configurations', 'inputs'], 'all input histories, all window lengths including those that are not powers of two, all such operations (sum, product, minimum, maximum, bitwise, complex sum)',
     'No test uses the accelerator; window lengths that are not powers of two make the tree irregular.',
     ['swa.hh'], [('binary tree of partial results updated from leaf to root', 'swa.hh: SWA')], [('tree, leaf', 'partial results and the leaf to be replaced next', 'swa.hh')], ['operator()', 'calls of the supplied operation'])
prop('C06', 'The moving minimum and maximum are those of the last N samples',
     'For every window length N and every input history, the moving minimum (maximum) returns at every call the smallest (largest) of the last N samples, or of all samples while fewer than N were given. This holds with repeated values, negative values and the extreme values of the type, and over any run the number of comparisons made stays below four per sample.',
     ['histories', 'configurations', 'inputs'], 'all input histories, all window lengths from 1 on, all ordered arithmetic types',
     'movext_test.cc uses random values of one type with one window length; equal values leaving the window, length 1 and 2, and windows filled with the extreme values are not covered.',
     ['movext.hh', 'stack.hh', 'delay.hh'], [('two stacks: one dispenses precomputed extrema, one is refilled', 'movext.hh: MovExt')],
     [('window, dispenser, refill', 'the last N samples, the extrema of the older part, the candidates of the newer part', 'movext.hh')], ['operator()', 'calls of the comparison'])
prop('C07', 'Every simple moving average is the mean of the last N samples',
     'Each of the simple moving averages returns the sum of the last N samples (zeros before the first one) divided by N, or the plain sum where normalization is switched off; on integers the result is exact, with the division truncated towards zero. On floating-point samples the error stays within the rounding of N additions of the samples in the window for the variants which add the whole window up every time or in a tree, and, for samples from a common fixed-point grid, within a few roundings of the largest sums seen for the compensated variant, however long the run. The mean absolute deviation, where offered, is the mean of the absolute differences between the last N samples and the last returned average.',
     ['histories', 'configurations', 'inputs'], 'all input histories of any length, all window lengths, integer, floating-point and complex samples, with and without normalization',
     'No test uses the averages; drift shows only after long runs with samples of different magnitude.',
     ['sma.hh', 'swa.hh', 'kahan.hh', 'delay.hh'], [('direct sum, running sum, compensated running sum, tree', 'sma.hh: SMA1, SMA2, SMA3, SMA4')],
     [('hist_inp, hist_avg, delay, sum, swa', 'the window and its running sum', 'sma.hh')], ['operator()', 'abs_dev'])
prop('C08', 'Compensated summation is accurate to two roundings of the sum of magnitudes',
     'The value of a compensated sum differs from the exact sum of the start value and all the inputs by no more than two units of roundoff of the sum of their magnitudes plus terms of second order, whatever the number and order of the inputs and also when compiled with fast-math options. Asking whether an input left the accumulator unchanged answers yes exactly when its value and its hidden remainder are the same as before, and adds the input; copies continue independently with the remainder included; the sum over a range is that of an accumulator started at the given value and fed one by one.',
     ['histories', 'inputs'], 'all finite input sequences without overflow or underflow, float and double',
     'kahan_test.cc sums one series in one order.',
     ['kahan.hh'], [('running error term, protected from reassociation', 'kahan.hh: Kahan')], [('high, low', 'the sum and its error', 'kahan.hh')], ['operator()', 'same', 'operator==', 'kahan_sum'])
prop('C09', 'Quick sort sorts and quick select selects, as permutations within bounds',
     'Sorting any array leaves it in non-decreasing order and a permutation of what it was. Selecting rank k returns the value that would be at position k if the array were sorted, puts it there with nothing larger before and nothing smaller behind it, and leaves a permutation; selecting from an empty array or a rank beyond its end ends in a failed assertion. Neither touches an element outside the given range, and both need no more than of the order of n log n steps on sorted, reversed, constant and few-valued arrays.',
     ['inputs'], 'all arrays of all lengths from 0 (1 for selecting), all contents with duplicates, all ranks, all ordered types',
     'quick_sort_test.cc and quick_select_test.cc use random arrays of fixed lengths; the pivot choice and the two-sided partition have many cases with duplicates, and small lengths take another path.',
     ['quick.hh'], [('three-way partition around a median of five, insertion sort for short ranges', 'quick.hh')], [], ['quick_sort', 'quick_select'])
prop('C10', 'The robust line estimators return the defined medians',
     'For any points with at least two different abscissas, the Theil-Sen slope is the upper median of the slopes of all pairs of points with different abscissas, and the repeated-median slope is the upper median over the points of the upper medians of their slopes to the points with other abscissas; intercepts are the upper medians of the residuals, or the repeated median of the pairwise intercepts for the first of the two repeated-median variants. The estimate at x is intercept plus slope times x and the intersection with the abscissa is minus intercept over slope. The given points are not modified, and computing again from other points, also fewer of them, depends on those points only.',
     ['inputs', 'histories'], 'all finite sets of points up to the declared capacity in any order, with repeated abscissas, and sequences of such computations on one object',
     'No test covers the estimators.',
     ['theil_sen.hh', 'repeated_median.hh', 'quick.hh'], [('all pairwise slopes and selection of the middle', 'theil_sen.hh, repeated_median.hh')], [('temp_, inner_, outer_', 'work arrays', '')], ['compute', 'slope', 'yint', 'xint', 'operator()'])
prop('C11', 'Simple linear regression is the least-squares line',
     'For any points with at least two different abscissas the regression line has the slope covariance over variance and passes through the mean point; its intercept, its intersection with the abscissa and its value at any x are those of that line, within rounding. For equally spaced abscissas given by start and step the result is the same as with those abscissas written out, and a regression constructed from nothing is the zero line.',
     ['inputs'], 'all finite sets of two or more points, all starts and nonzero steps',
     'No test covers the regression.',
     ['regression.hh'], [('two-pass mean, variance and covariance', 'regression.hh: SimpleLinearRegression')], [], ['slope', 'yint', 'xint', 'operator()'])
prop('C12', 'Written WAV files are complete, consistent and carry the quantized samples',
     'For every rate, channel count and sample format, and every sequence of writes and silences, the finished file is a well-formed WAV file whose header fields agree with one another and with the data, and whose data are the samples in order: 8-bit offset binary and 16-bit two\'s complement quantized to the nearest level with saturation, or the exact 32-bit float. Until it is finished, the header marks the length as unknown. Channels are interleaved, a stride skips the extra elements, and silence is the midpoint of the format.',
     ['histories', 'configurations', 'inputs'], 'all sequences of write and silence calls with all strides, all formats, rates and channel counts, all sample values including those beyond full scale',
     'No test writes a WAV file.',
     ['wav.hh', 'pcm.hh'], [('header patched when the writer is destroyed', 'wav.hh: WriteWAV')], [('os, bytes, offset, factor, min, max', 'output stream and the parameters of the format', 'wav.hh')], ['the bytes of the file', 'good', 'rate', 'channels'])
prop('C13', 'WAV files are read back sample by sample, with skips, strides and end of file',
     'Reading a well-formed WAV file reports its rate, channels, bits and number of frames (unknown if the header was never completed) and yields its samples in order, scaled so that full-scale codes give plus or minus one (and exactly the stored value for float files), with the given stride and without touching other elements; skipping n frames is like reading and discarding them. The reader is good until a read goes beyond the end of the data, and not good afterwards. What the writer wrote reads back as the quantized value of what was written.',
     ['histories', 'configurations', 'inputs'], 'all well-formed files of all formats, lengths and channel counts, and all sequences of read and skip calls with all strides',
     'No test reads a WAV file.',
     ['wav.hh', 'pcm.hh'], [('sequential parser with sign extension and scaling', 'wav.hh: ReadWAV')], [('is, bits_, bytes, rate_, channels_, frames_, offset, factor', 'input stream and parameters of the format', 'wav.hh')], ['read', 'skip', 'good', 'frames', 'rate', 'channels', 'bits'])
prop('C14', 'Netpbm images survive writing and reading, with any legal header',
     'A written image is a well-formed binary graymap or pixmap with the given width, height and maximum value, and its samples are the sRGB-encoded values quantized to the nearest level, clamped to the legal range. Reading a well-formed file, whose header may contain comment lines and any amount of blanks, tabs and newlines between its fields, reports its dimensions and kind and yields the sRGB-decoded samples; every code survives reading and writing again unchanged. Strides skip the extra elements, the reader is good until a read goes beyond the end, and not good afterwards.',
     ['inputs', 'histories', 'configurations'], 'all images, all maximum values from 1 to 255, all legal headers, all sequences of read and write calls with all strides',
     'No test reads or writes an image.',
     ['netpbm.hh', 'pel.hh'], [('character-wise header parser, transfer function and its inverse', 'netpbm.hh: ReadPNM, WritePNM')], [('is, width_, height_, maxval_, mono_', 'input stream and the parameters of the image', 'netpbm.hh')], ['read', 'write', 'good', 'mono', 'width', 'height', 'the bytes of the file'])
prop('C15', 'Malformed or truncated file headers are never reported good',
     'A WAV or Netpbm reader constructed on a file which is missing, is truncated anywhere within its header, or whose header deviates in a tag, a chunk size, the sample format, the block alignment or the byte rate is not good right after construction and stays so. Constructing a reader on any bytes whatsoever terminates without a crash.',
     ['inputs', 'fault_sequences'], 'all byte strings up to the length of a header, in particular all truncations and single-byte changes of well-formed headers',
     'No test opens a file.',
     ['wav.hh', 'netpbm.hh'], [('validation of each header field in turn', 'wav.hh: ReadWAV, netpbm.hh: ReadPNM')], [], ['good'])
prop('C16', 'The FFT computes the discrete Fourier transform for every supported size',
     'For every size whose prime factors do not exceed 31, and for both signs of the exponent, the transform of any complex input is its discrete Fourier transform within rounding that grows no faster than the logarithm of the size. The input is left unchanged, nothing outside the output is written, and repeated transforms with the same object do not depend on earlier ones.',
     ['configurations', 'inputs'], 'all supported sizes, both directions, all inputs, float and double',
     'No test covers the transform; every radix has its own hand-written kernel in both directions, and mixed sizes combine them with different strides and twiddle factors.',
     ['fft.hh', 'unit_circle.hh', 'complex.hh'], [('mixed-radix decimation in time with a kernel per radix', 'fft.hh: Dit, FastFourierTransform')], [('factors', 'twiddle factors', 'fft.hh: FastFourierTransform')], ['operator()'])
prop('C17', 'The real transform yields the half spectrum of the discrete Fourier transform',
     'For every even size N supported by the complex transform, the real-input transform writes N/2+1 bins: bins 1 to N/2-1 are those of the discrete Fourier transform of the real input, and bins 0 and N/2 are half of the respective DFT bins, within rounding. The input is left unchanged, nothing outside the output is written, and repeated transforms with the same object do not depend on earlier ones.',
     ['configurations', 'inputs'], 'all supported sizes, all inputs, float and double',
     'No test covers the transform.',
     ['fft.hh'], [('complex transform of half the size followed by a separation of even and odd part', 'fft.hh: RealToHalfComplexTransform')], [('weights', 'twiddle factors of the separation', 'fft.hh')], ['operator()'])
prop('C18', 'Frequency-domain zero padding interpolates the periodic input',
     'For every pair of supported sizes with output larger than input, the output of the frequency-domain zero padding is the band-limited periodic interpolation of the input at the finer grid: its spectrum is that of the input at the same frequencies, with the Nyquist bin of an even-sized input split evenly between both sides, and zero elsewhere. Where the output size is a multiple of the input size the input samples reappear at every multiple. Results do not depend on earlier calls.',
     ['configurations', 'inputs'], 'all pairs of supported sizes, odd and even, all inputs',
     'No test covers it; the odd sizes and ratios close to one were wrong.',
     ['fdzp.hh', 'fft.hh'], [('forward transform, relocation of the upper half, backward transform', 'fdzp.hh: FDZP')], [('tmp', 'the padded spectrum', 'fdzp.hh')], ['operator()'])
prop('C19', 'Triggers switch exactly on threshold crossings and edges',
     'The Schmitt trigger is on after an input above the high threshold, off after one below the low threshold, and otherwise unchanged, including for inputs equal to a threshold; a single threshold means plus and minus that value, by default one third. The rising (falling) edge trigger fires exactly at the calls where the input is true (false) and the previous one, initially the constructed state, was not.',
     ['histories', 'inputs', 'configurations'], 'all input histories, all thresholds and initial states',
     'No test covers the triggers.',
     ['trigger.hh'], [('one bit of memory', 'trigger.hh')], [('previous, low, high', 'the last state and the thresholds', 'trigger.hh')], ['operator()'])
prop('C20', 'Integration and differentiation are exact running sums and differences',
     'The integrator returns the constructed start value plus the sum of all inputs so far, and the differentiator returns the difference of its input to the previous input, initially the constructed start value; both are exact where the arithmetic is. Differentiating an integrated integer history gives the history back.',
     ['histories', 'inputs'], 'all input histories, all start values, integer, floating-point and complex samples',
     'No test covers them.',
     ['calculus.hh'], [('running sum, previous input', 'calculus.hh')], [('sum, prev', 'the running sum and the previous input', 'calculus.hh')], ['operator()'])
prop('C21', 'The phasor advances by its frequency from phase zero and stays normalized',
     'After construction or reset the phasor returns one, and every following value is the previous one rotated by the frequency in effect when that one was returned, given as a fraction n/N of a turn, as radians per sample or as cycles per sample; changing the frequency keeps the phase continuous and resetting keeps the frequency. The magnitude stays one and the phase error grows no faster than by a few roundings per call, however long it runs.',
     ['histories', 'inputs'], 'all histories of frequency changes, resets and outputs of any length, all frequencies',
     'No test covers the phasor; drift shows only after long runs.',
     ['phasor.hh', 'unit_circle.hh', 'complex.hh'], [('complex rotation with renormalization', 'phasor.hh: Phasor')], [('prev, delta', 'the next value and the rotation per call', 'phasor.hh')], ['operator()', 'omega', 'freq', 'reset'])
prop('C22', 'Exponential moving averages follow their recurrence and cutoff',
     'The exponential moving average moves its value towards the input by the smoothing factor at every call, starting from the constructed value; the factor is the constructed one (one by default), one over the given number of samples, or the one whose filter has half power at the frequency n/N. The cascade of order M applies M such averages in a row starting from zero, each with half power at the frequency round(n/sqrt(2^(1/M)-1))/N, for orders up to 16 and where that is at most half the rate.',
     ['histories', 'inputs', 'configurations'], 'all input histories and settings in any order, all orders',
     'No test covers them.',
     ['ema.hh', 'utils.hh', 'unit_circle.hh'], [('linear interpolation towards the input', 'ema.hh: EMA, EMACascade')], [('prev, alpha', 'the average and the smoothing factor', 'ema.hh')], ['operator()', 'cutoff', 'samples'])
prop('C23', 'Biquad filters realize the designed second-order sections',
     'The outputs of a biquad satisfy the difference equation of its design at every call, from zero history, also when the design is changed while running: the low-, high-, band- and all-pass and notch designs are those of the bilinear transform at the frequency n/N with the given quality, where notch, band- and all-pass take it in decibels and low- and high-pass default to one over the square root of two. An undesigned biquad passes its input. A cascade of M biquads is the Butterworth filter of order 2M.',
     ['histories', 'inputs', 'configurations'], 'all input histories, all designs, frequencies below half the rate, qualities and cascade lengths',
     'No test covers the filters.',
     ['biquad.hh', 'decibel.hh', 'exp.hh', 'unit_circle.hh'], [('direct form I', 'biquad.hh: Biquad, BiquadCascade')], [('x1, x2, y1, y2, coefficients', 'last inputs, last outputs, design', 'biquad.hh')], ['operator()', 'lowpass', 'highpass', 'notch', 'bandpass', 'allpass'])
prop('C24', 'The DC blocker and the normalizers follow their recurrences',
     'The DC blocker set to s samples outputs (1+a)/2 times the change of its input plus a times its previous output, with a=(s-1)/s, and half the change of the input before it is set; its response to a constant decays to zero. The sine normalizer outputs the blocked input divided by the root of twice the exponential average of its square over s samples (starting at one half), and the IQ normalizer does that to both parts separately.',
     ['histories', 'inputs', 'configurations'], 'all input histories and settings',
     'No test covers them.',
     ['blockdc.hh', 'normalize.hh', 'ema.hh'], [('first-order recursion', 'blockdc.hh: BlockDC'), ('blocked input over running amplitude', 'normalize.hh')], [('x1, y1, a, b', 'last input and output, coefficients', 'blockdc.hh')], ['operator()', 'samples'])
prop('C25', 'FM demodulators return the scaled phase step between consecutive samples',
     'The first three demodulators return the angle from the previous sample to the current one, in the range from minus to plus half a turn, scaled so that the edge of the given bandwidth gives plus or minus one; the previous sample is initially the positive real axis and the magnitudes do not matter. The fourth returns the sine of that angle times the ratio of the previous magnitude to the current one, and the fifth the component of the central difference perpendicular to the middle sample over its magnitude, one sample late, at the same scale.',
     ['histories', 'inputs', 'configurations'], 'all histories of nonzero samples, all bandwidths',
     'No test covers them; wrap-around of the phase difference occurs only at certain pairs.',
     ['fmd.hh', 'complex.hh'], [('difference of arguments with wrap-around, argument of quotient, of product, cross product', 'fmd.hh: FMD1 to FMD5')], [('prev, scale', 'the previous sample or phase', 'fmd.hh')], ['operator()', 'bandwidth'])
prop('C26', 'The AM demodulator follows the envelope with attack and decay within its limits',
     'The AM demodulator keeps an average of the magnitude which moves towards it by the attack factor when the magnitude is not below the average and by the decay factor otherwise, and is then limited to the configured range. It returns (m(1+i)-1)/i where m is the magnitude divided by the limited average and i is the modulation index (one by default).',
     ['histories', 'inputs', 'configurations'], 'all histories of samples and of settings',
     'No test covers it.',
     ['amd.hh', 'utils.hh'], [('automatic gain control', 'amd.hh: AMD1')], [('avg, att, dec, lo, hi, idx', 'the average and the settings', 'amd.hh')], ['operator()', 'agc', 'index'])
prop('C27', 'Hilbert transformer and quarter-rate converter are the windowed ideal filters',
     'The Hilbert transformer of T taps outputs, one call late, the input delayed by half its length scaled by the center of its Kaiser window as real part, and as imaginary part the convolution with the Kaiser-windowed ideal Hilbert response. The quarter-rate down converter takes two samples per call and outputs the input shifted down by a quarter of the rate (the first sample onto the imaginary axis), filtered by the Kaiser-windowed half-band low-pass and decimated by two. Both are linear, start from silence and depend only on the last T samples.',
     ['histories', 'inputs', 'configurations'], 'all input histories, all numbers of taps of the form 4k+1, all window parameters up to 3',
     'No test covers them.',
     ['hilbert.hh', 'cdc.hh', 'window.hh', 'filter.hh'], [('antisymmetric and half-band structures with shift registers', 'hilbert.hh: Hilbert, cdc.hh: CDC')], [('real, imag, imco, reco, sign', 'shift registers, coefficients, rotation by quarter turns', 'hilbert.hh, cdc.hh')], ['operator()'])
prop('C28', 'Window functions equal their defining formulas',
     'At every position n of every length N the rectangular, Hann, Hamming, Lanczos, Blackman (from three coefficients, from one parameter, or exact), Gauss and Kaiser windows have the value of their textbook formula within a few roundings of the type. The symmetric windows are symmetric, their center value for odd N is the maximum, and the rectangular window is zero outside of 0 to N-1.',
     ['inputs', 'configurations'], 'all positions, all lengths from 2 on, all parameters (Kaiser up to 3), float and double',
     'No test covers the windows.',
     ['window.hh', 'unit_circle.hh', 'kahan.hh', 'const.hh'], [('formulas on exact fractions of a turn, power series with compensated sum', 'window.hh')], [], ['operator()'])
prop('C29', 'FIR prototypes equal their formulas, coefficient arrays hold and scale them',
     'The low-, high- and band-pass and Hilbert prototypes have at every tap of every length the value of the ideal impulse response sampled around the center, for cutoffs given as a number and as a fraction alike, within rounding. A coefficient array holds the prototype, or the product of prototype and window, at each tap and zero outside; normalized, its elements are divided by the magnitude of their sum times the divisor.',
     ['inputs', 'configurations'], 'all taps, all lengths from 1 on, all cutoffs below half the rate, float and double',
     'No test covers the prototypes.',
     ['filter.hh', 'coeffs.hh', 'utils.hh', 'unit_circle.hh'], [('sinc with its removable singularity, reduction of exact fractions', 'filter.hh'), ('table with bounds check', 'coeffs.hh')], [], ['operator()', 'normalize'])
prop('C30', 'The resamplers interpolate at exactly the requested positions',
     'Each output i of the block resampler, for i from 0 to the number of samples minus the number of taps exclusively, is the sum of the samples from the one nearest to the position i*rate/(rate+diff) on, weighted with the spline-interpolated Kaiser-windowed low-pass at their distances from it, written to index i plus half of the filter with the given stride; where the input does not suffice, and everywhere else, the output is left untouched. The streaming resampler returns zero, one or more outputs per input so that inputs minus outputs plus the sum of the relative differences requested at each output stays the offset of the next output. Each output is taken at an offset of at most half a sample and is the weighted sum of the last samples there, also when the difference changes from call to call.',
     ['histories', 'inputs', 'configurations'], 'all input histories, all rate differences within plus or minus half the rate, all taps and oversamplings, all strides',
     'No test covers the resamplers.',
     ['resampler.hh', 'spline.hh', 'window.hh'], [('interpolated filter table and fractional position', 'resampler.hh: Resampler, Resampler2')], [('lpf, rate, dpos, buf', 'filter table, fractional position, last inputs', 'resampler.hh')], ['operator()'])
prop('C31', 'Normalized LMS filters return the error and move along the inputs by it',
     'Each call of the adaptive filter returns the desired value minus the prediction of the current coefficients from the last N inputs, and then moves the coefficients along these inputs by step size times error over their energy; while the energy is zero the coefficients do not change. With unit step size the updated coefficients reproduce the desired value exactly, within rounding; the complex variant predicts alike and moves along the conjugated inputs.',
     ['histories', 'inputs', 'configurations'], 'all histories of inputs, desired values and step sizes, all lengths from 1 on, real and complex',
     'No test covers the filters.',
     ['lms.hh', 'bip_buffer.hh'], [('normalized least mean squares over a bip buffer', 'lms.hh: NLMS, NCLMS')], [('history, filter', 'the last inputs and the coefficients', 'lms.hh')], ['operator()', 'coefficients'])
prop('C32', 'Complex arithmetic obeys the field operations within rounding',
     'Addition, subtraction, negation, multiplication, division, scaling, conjugation, squared magnitude, magnitude, argument and polar construction of complex numbers equal the mathematical operations within rounding, and the compound assignments equal their plain forms, also when an operand is the assigned object itself. On integers sums and products are exact; equality compares both parts; a number of which only the real part or nothing is given has zero for the rest.',
     ['inputs', 'programs'], 'all operand values without overflow, all expressions, integer, float and double',
     'No test covers the type directly.',
     ['complex.hh'], [('pair arithmetic', 'complex.hh: Complex')], [('re, im', 'the parts', 'complex.hh')], ['all operators and functions'])
prop('C33', 'Sine and cosine of a fraction of a turn are accurate in every octant',
     'For all integers n and N with -N <= n <= N <= 100000000 the cosine and sine of the fraction n/N of a turn agree with the mathematical values within three roundings of the type around one, they are exact at multiples of a quarter turn, and their magnitude does not exceed one by more than a rounding. The radian measure of n/N is two pi n/N.',
     ['inputs'], 'all pairs of n and N with N from 1 up to 2^28',
     'unit_circle_test.cc covers a limited set of sizes.',
     ['unit_circle.hh', 'const.hh'], [('reduction to an eighth turn in integers, polynomial kernels', 'unit_circle.hh: UnitCircle')], [], ['cos', 'sin', 'rad'])
prop('C34', 'Arc tangent is accurate and two-argument arc tangent hits the right quadrant',
     'The arc tangent of any finite number is within a few roundings of the mathematical value, odd and bounded by a quarter turn. The two-argument arc tangent is the angle of the point in the right quadrant, within a few roundings, with the sign of a zero ordinate kept where the compiler honours it: on the negative axis it is plus or minus half a turn, on the ordinate plus or minus a quarter turn.',
     ['inputs'], 'all finite arguments including zeros of both signs, very small and very large ones, float and double',
     'atan2_test.cc covers points on circles of moderate size.',
     ['atan2.hh', 'const.hh'], [('reduction to three ranges, rational kernel', 'atan2.hh')], [], ['atan', 'atan2'])
prop('C35', 'Powers of ten, binary scaling and decibels are accurate over the whole range',
     'Scaling by a power of two is exact wherever the result, the power and its reciprocal are representable without gradual underflow. The power of ten of x is accurate relative to its value to a rounding error proportional to one plus the magnitude of x, and to a few roundings whatever its magnitude unless compiled with fast-math options, for all x whose result and its reciprocal are representable; ten times the decimal logarithm is accurate to the rounding that ten square roots allow for values between 1e-38 and 1e38, and to 1e-4 over the whole range, and converting decibels to a power ratio is the power of ten of a tenth of it.',
     ['inputs'], 'all arguments in range, float and double',
     'No test covers them; large exponents were wrong.',
     ['exp.hh', 'decibel.hh'], [('range reduction and rational kernel, repeated squaring', 'exp.hh: ldexp, exp10'), ('repeated square roots and a series', 'decibel.hh')], [], ['ldexp', 'exp10', 'decibel', 'idecibel'])
prop('C36', 'The integer arc tangent is within its resolution in every quadrant',
     'For every pair of 8-bit or 16-bit integers other than the origin, the integer two-argument arc tangent, in units of 2^-8 (2^-16) of a turn modulo one turn, differs from the true angle by no more than about one unit for vectors near full scale, and by a bound which grows in inverse proportion to the magnitude for shorter ones.',
     ['inputs'], 'all pairs of 8-bit integers, all pairs of 16-bit integers',
     'cordic_test.cc checks points near full scale only and averages the error.',
     ['cordic.hh'], [('vectoring iterations in integers', 'cordic.hh: CORDIC')], [], ['atan2'])
prop('C37', 'The uniform natural cubic spline is the natural interpolating spline',
     'For any knot values, start, spacing and stride the spline passes through all knots, has continuous first and second derivatives at the inner ones and zero second derivative at both ends, and outside the knots it continues the outermost pieces. Straight lines are reproduced everywhere.',
     ['inputs', 'configurations'], 'all numbers of knots from 2 on, all values, starts, spacings and strides, all positions inside and outside, real and complex values',
     'No test covers the splines.',
     ['spline.hh'], [('tridiagonal elimination', 'spline.hh: UniformNaturalCubicSpline')], [('A, B, C, D, x0, dx', 'polynomials per interval', 'spline.hh')], ['operator()'])
prop('C38', 'The cubic Hermite spline interpolates with finite-difference slopes',
     'For three or more points with increasing abscissas the Hermite spline passes through all points, and between two of them it is the cubic with the values there and with slopes that are the mean of the two adjacent difference quotients inside and the one-sided difference quotient at the ends; outside it continues the outermost cubics. The form with equally spaced abscissas gives the same as the general one.',
     ['inputs', 'configurations'], 'all numbers of points from 3 on, all values and increasing abscissas, all positions inside and outside, on and off the knots',
     'No test covers the splines.',
     ['spline.hh'], [('interval search and Hermite basis', 'spline.hh: CubicHermiteSpline')], [], ['eval'])
prop('C39', 'Helpers and constants equal their definitions',
     'The sign is -1, 0 or 1; linear interpolation gives (1-x)a+xb and thereby the ends exactly at 0 and 1; clamping returns the value limited to both ends; the normal density, the normalized sinc (one at zero) and the unit impulse equal their formulas within rounding. The provided constants are the correctly rounded values of the multiples and roots of pi and of one over the square root of two.',
     ['inputs'], 'all finite arguments, integer, float and double',
     'No test covers the helpers.',
     ['utils.hh', 'const.hh'], [('closed formulas', 'utils.hh, const.hh')], [], ['signum', 'lerp', 'clamp', 'normal_pdf', 'sinc', 'delta', 'constants'])
prop('C40', 'Objects keep to themselves: equal histories give equal results',
     'What an object of any class returns depends only on how it was constructed and on the calls made to it: neither other objects, of the same class or of another one, nor what its memory held before, nor the interleaving of calls to several objects has any influence. A copied or assigned object continues exactly as the original would from there, and both go on independently. Functions and function objects without state return the same for the same arguments, whatever was called before.',
     ['histories', 'schedules'], 'all classes and functions of the library, all schedules of constructing, calling, copying, assigning and destroying several objects, all call histories',
     'Every test uses one object of a class at a time, in memory that is mostly zero, and copies none.',
     ['delay.hh', 'movext.hh', 'kahan.hh', 'hilbert.hh', 'cdc.hh', 'fdzp.hh', 'resampler.hh', 'ema.hh', 'biquad.hh', 'lms.hh'], [('state held in members by value', 'all headers')],
     [('members', 'the whole state of an object', 'all classes')], ['all member functions', 'copy construction', 'assignment'])
prop('C41', 'Readers and writers work the same through their abstract interfaces',
     'Used only through the abstract interfaces for PCM and pixel data, readers and writers behave as they do when used directly: leaving out the stride means packed frames or pixels, rate, channels, frames, dimensions and kind are those of the file, and destroying a writer completes its file. A source that does not say how many frames it has reports an unknown number. A writer which cannot create its file is never good.',
     ['histories', 'inputs'], 'all sequences of calls through the interfaces, with and without strides, all formats',
     'No test goes through the interfaces; the default stride there is given separately from the one of each class.',
     ['pcm.hh', 'pel.hh', 'wav.hh', 'netpbm.hh'], [('virtual functions with default arguments', 'pcm.hh, pel.hh')], [], ['write', 'read', 'silence', 'skip', 'good', 'rate', 'channels', 'frames', 'mono', 'width', 'height', 'destructor'])
prop('C42', 'Line estimators given more points than fit use the first of them',
     'Given more points than declared, both repeated-median estimators compute from the first of them, as many as declared, and the Theil-Sen estimator from the first pairs with different abscissas, as many pairs as the declared number of points has and ordered by their first and then their second point, with as many of the first residuals at most. No memory outside of the estimator and the given points is touched, and a later computation with points that fit is not affected.',
     ['inputs', 'histories', 'configurations'], 'all numbers of points above the declared capacity, of which the first two have different abscissas, and sequences of computations with more and fewer points on one object',
     'No test covers the estimators, and whether an array inside of an object has been overrun is not visible in its results.',
     ['theil_sen.hh', 'repeated_median.hh', 'quick.hh'], [('work arrays of fixed size filled from a given number of points', 'theil_sen.hh, repeated_median.hh')], [('temp_, inner_, outer_', 'work arrays', '')], ['compute', 'slope', 'yint', 'xint', 'operator()'])
prop('C43', 'Different objects can be used in different threads at the same time',
     'Objects of all classes, each used by one thread only, and functions without state can be used by several threads at the same time without any synchronization: no memory that one thread writes is used by another, and all results are those of the same calls in a single thread. This includes copies of one object, readers and writers of different files, and windows and filter responses shared by several threads.',
     ['schedules', 'histories'], 'all interleavings of the steps of calls in several threads, all classes and functions',
     'No test has threads, and a static intermediate buffer is invisible in a single one, whatever the calls and the objects.',
     ['fft.hh', 'quick.hh', 'window.hh', 'resampler.hh', 'wav.hh', 'netpbm.hh', 'cordic.hh', 'coeffs.hh', 'spline.hh', 'fdzp.hh'], [('variables with static storage', 'all headers')], [], ['all constructors and calls'])
prop('C44', 'A failed or unfinished recording is a prefix marked as of unknown length',
     'If the device takes no more than some number of bytes, or the program ends before the writer is done, the file is a prefix of the complete one except for the lengths in a WAV header: the header gives a length only if all samples are in the file, and is otherwise read as one of a recording of unknown length. A writer is good as long as everything written to the device was taken, is not good after a write to the device failed, and does not become good again. If everything is taken, be it in small portions, the file is complete.',
     ['fault_sequences', 'crash_points', 'histories'], 'all limits of the size of the file, all failures of writes to the device and all points between them at which the program ends, all formats and sequences of writes',
     'The tests write files that fit, and look at none that is incomplete; a writer that completes its header no matter what behaves the same unless something fails.',
     ['wav.hh', 'netpbm.hh'], [('destructor of the WAV writer', 'wav.hh'), ('good', 'wav.hh, netpbm.hh')], [], ['write', 'silence', 'good', 'destructor'])
prop('C45', 'Recordings and images can be streamed through pipes',
     'Written to a pipe, a recording is a header that marks its length as unknown, followed by all samples and nothing else, and an image is what it is in a file. Readers at the end of a pipe return the same header fields and samples as from a file of the same bytes, in whatever portions these arrive, and are good until more is read than was sent. They do not wait for bytes beyond the header and the frames or pixels they are asked for.',
     ['schedules', 'histories', 'inputs'], 'all portions in which bytes are sent, all orders of sending and reading, all formats',
     'The tests use no files, let alone pipes; a reader that looks for the end, or fills a buffer, works with every file.',
     ['wav.hh', 'netpbm.hh'], [('read', 'wav.hh, netpbm.hh'), ('destructor of the WAV writer', 'wav.hh')], [], ['read', 'write', 'silence', 'good', 'destructor'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
