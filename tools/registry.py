"""What each property's check consists of (see check.py)."""

# Every harness is built twice: with the flags of the project's own Makefile, and by another
# compiler without fast math and with AddressSanitizer.
VARIANTS = {
    'fast': ('g++', ['-O2', '-fno-exceptions', '-fno-rtti', '-ffast-math', '-ftree-vectorize']),
    'asan': ('clang++', ['-O1', '-g', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer']),
    'clang': ('clang++', ['-O2', '-ffast-math']),
    'tsan': ('clang++', ['-O0', '-g', '-fsanitize=thread', '-pthread']),
}

CHECKS = {}


def check(prop, **kw):
    CHECKS[prop] = kw


check('C01', trace='TraceDeque',
      note='TLC proves that the ring-buffer model implements the bounded sequence for small capacities, exhaustively; every call of the recorded '
           'runs of the real code (a transition cover of the model, directed and random histories, capacities up to 70000) is validated '
           'against the sequence. Assumes that other capacities and element types behave like the tried ones.',
      harness=[dict(name='deque', src='deque.cc')],
      models=[dict(module='DequeRing', cfg='DequeRing', thorough_cfg='DequeRingT', min_states=100),
              dict(module='DequeRing', cfg='DequeRingS', script='deque', workers=1, min_states=20)])

check('C02', trace='TraceStack',
      note='TLC proves that the array model implements the bounded LIFO sequence for small capacities, exhaustively; every call of the recorded '
           'runs of the real code (a transition cover of the model, random histories, capacities up to 70000) is validated against the '
           'sequence. Assumes that other capacities and element types behave like the tried ones.',
      harness=[dict(name='stack', src='stack.cc')],
      models=[dict(module='StackArray', cfg='StackArray', thorough_cfg='StackArrayT', min_states=20),
              dict(module='StackArray', cfg='StackArrayS', script='stack', workers=1, min_states=20)])

check('C03', trace='TraceDelay',
      note='TLC proves that the ring model implements the delay line for lengths up to 4 (thorough: 7), exhaustively; every sample of the recorded '
           'runs of the real code, lengths 1 to 70000, is validated. Assumes that other lengths and types behave like the tried ones.',
      harness=[dict(name='delay', src='delay.cc')],
      models=[dict(module='DelayRing', cfg='DelayRing', thorough_cfg='DelayRingT', min_states=100),
              dict(module='DelayRing', cfg='DelayRingS', script='delay', workers=1, min_states=20)])

check('C04', trace='TraceBip',
      note='TLC proves that the doubled ring of the model shows the window for lengths up to 4 (thorough: 7), exhaustively; the views returned by '
           'the real code in recorded runs, lengths 1 to 40000, are validated. Assumes that other lengths and types behave like the tried ones.',
      harness=[dict(name='bip', src='bip.cc')],
      models=[dict(module='BipRing', cfg='BipRing', thorough_cfg='BipRingT', min_states=100),
              dict(module='BipRing', cfg='BipRingS', script='bip', workers=1, min_states=20)])

check('C05', trace='TraceSwa',
      note='TLC proves for window lengths 1 to 7 (thorough: 11), exhaustively over histories of two values, that the root of the tree model is the '
           'bag of the window and that few operations are applied; bags are the free commutative monoid, so this carries over to all operations. '
           'Recorded runs of the real code with bags, sums, minima and maxima are validated for lengths up to 40000.',
      harness=[dict(name='swa', src='swa.cc')],
      models=[dict(module='SwaTree', cfg='SwaTree%d' % n) for n in (1, 2, 3, 4, 5, 6, 7)] +
             [dict(module='SwaTree', cfg='SwaTree%d' % n, thorough_only=True) for n in (9, 11)] +
             [dict(module='SwaTree', cfg='SwaTreeS', script='swa', workers=1, min_states=10)])

check('C06', trace='TraceMovExt',
      note='TLC proves for window lengths 1 to 4 (thorough: 7), exhaustively over histories of three values including the start value, that the two '
           'stacks of the model give the extreme of the window with fewer than four comparisons per sample. Recorded runs of the real code are '
           'validated for lengths up to 40000 and all arithmetic types; infinities and NaN are not covered.',
      harness=[dict(name='movext', src='movext.cc'), dict(name='movext-lengths', src='movext.cc', flags=['-DLENGTHS'])],
      models=[dict(module='MovExtStacks', cfg='MovExt%d' % n) for n in (1, 2, 3, 4)] +
             [dict(module='MovExtStacks', cfg='MovExt%d' % n, thorough_only=True, workers=4) for n in (5, 6, 7)] +
             [dict(module='MovExtStacks', cfg='MovExtS', script='movext', workers=1, min_states=10)])

check('C19', trace='TraceTrigger',
      note='TLC checks the consequences of the definition over all histories of the five input classes; the recorded runs of the real code (a '
           'transition cover of that model, all pairs of inputs around the thresholds, random histories, float, double and int) are validated '
           'with exact comparisons.',
      harness=[dict(name='trigger', src='trigger.cc')],
      models=[dict(module='TriggerModel', cfg='TriggerModel'),
              dict(module='TriggerModel', cfg='TriggerModelS', script='trigger', workers=1)])

check('C20', trace='TraceCalculus',
      note='TLC checks the telescoping of integration and differentiation over all short histories; the recorded runs of the real code on '
           'histories with exact sums are validated exactly, for integer, floating-point and complex samples. Rounded sums are not covered.',
      harness=[dict(name='calculus', src='calculus.cc')],
      models=[dict(module='CalculusModel', cfg='CalculusModel'),
              dict(module='CalculusModel', cfg='CalculusModelS', script='calculus', workers=1)])

check('C09', trace='TraceQuick', case_events=('sort', 'select', 'try'),
      note='TLC runs a step-by-step model of the partitioning on all arrays of length 6 (thorough: 7) over three values, sorting and selecting '
           'every rank, with termination; recorded results of the real code on arrays of 0 to 70000 elements of many shapes and types are '
           'validated, with bounds on the comparisons.',
      harness=[dict(name='quick', src='quick.cc')],
      models=[dict(module='QuickModel', cfg='QuickModel', thorough_cfg='QuickModelT', workers=4),
              dict(module='QuickModel', cfg='QuickModelU', workers=4, thorough_only=True)])

check('C08', trace='TraceKahan', case_events=('new', 'copy', 'range'),
      note='TLC runs the algorithm in a toy floating-point arithmetic of 3 (thorough: 4) bits on all sequences of up to 6 (7) representable inputs and '
           'finds the promised error bound kept; sums recorded from the real code, with fast-math by two compilers, are compared with the '
           'exact sums in big-integer arithmetic after every input, for sequences of up to a million inputs.',
      harness=[dict(name='kahan', src='kahan.cc', variants=['fast', 'asan', 'clang'])],
      models=[dict(module='KahanModel', cfg='KahanModel', thorough_cfg='KahanModelT', workers=4), dict(module='BigTest', cfg='BigTest')])

check('C07', trace='TraceSma',
      note='TLC explores the running sums in a toy floating-point arithmetic of 3 bits over input histories of every length (windows of 3, thorough: '
           '4) and finds that the compensated one never drifts; the recorded runs of the real code with integer, floating-point and complex '
           'samples are compared with exact sums. The plain running sum is only covered where its sums are exact.',
      harness=[dict(name='sma', src='sma.cc'), dict(name='sma-lengths', src='sma.cc', flags=['-DLENGTHS']), dict(name='csma', src='sma.cc', flags=['-DCOMPLEX'])],
      models=[dict(module='SmaModel', cfg='SmaModel', thorough_cfg='SmaModelT'), dict(module='SmaModel', cfg='SmaModelB'),
              dict(module='SmaModel', cfg='SmaModelS', script='sma', workers=1)])

check('C10', trace='TraceLines', case_events=('theil', 'rm1', 'rm2'),
      note='TLC checks over all small point sets that the specified estimators find a line exactly despite wild points; the real code is run on '
           'those sets and on generated ones of 2 to 70 points with repeated abscissas, on objects used again and again, and its results are '
           'compared with medians of exact slopes.',
      harness=[dict(name='lines', src='lines.cc', flags=['-DROBUST'])],
      models=[dict(module='LinesSets', cfg='LinesA'), dict(module='LinesSets', cfg='LinesB'), dict(module='LinesSets', cfg='LinesD'),
              dict(module='LinesSets', cfg='LinesS', script='lines', workers=1)])

check('C11', trace='TraceLines', case_events=('reg', 'regu'),
      note='TLC checks that the specified least-squares line satisfies the normal equations over small point sets; the lines computed by the real '
           'code for 2 to 70000 points, with given and with equally spaced abscissas, are compared with the exact rational solution within a '
           'rounding-error bound. Point sets too ill-conditioned for the precision are not covered.',
      harness=[dict(name='regression', src='lines.cc')],
      models=[dict(module='LinesSets', cfg='LinesB'), dict(module='LinesSets', cfg='LinesD')])

check('C12', trace='TraceWav', case_events=('writer',),
      note='TLC checks a byte-level model of the writer over all short runs; the bytes of files written by the real code in all formats, with '
           'random sequences of writes and silences, strides, all levels and values around the decision thresholds, are parsed and compared '
           'sample by sample by the specification. Of files beyond a few thousand bytes only headers and lengths are validated.',
      harness=[dict(name='wav', src='wav.cc')],
      models=[dict(module='WavModel', cfg='WavModel', thorough_cfg='WavModelT')])

check('C13', trace='TraceWav', case_events=('reader', 'writer'),
      note='TLC checks a byte-level model of writer and reader over all short runs; the real reader is run on files made by an independent '
           'generator and by the real writer, along a transition cover of the model and random sequences of reads and skips with strides, and '
           'every value, untouched element and the state of good are validated.',
      harness=[dict(name='wavread', src='wav.cc', flags=['-DREADER'])],
      models=[dict(module='WavModel', cfg='WavModel', thorough_cfg='WavModelT'),
              dict(module='WavModel', cfg='WavModelS', script='wav', workers=1)])

check('C14', trace='TracePnm', case_events=('writer', 'reader', 'again'),
      note='TLC proves on all strings up to 10 characters of a small alphabet that a character-by-character automaton and the grammar of legal headers '
           'agree; the real reader is run on every legal one of them (952 headers) and on generated images, the bytes of written images are '
           'parsed by the specification, and codes are compared with the sRGB curve computed from series. Maximum values above 255 are not covered.',
      harness=[dict(name='pnm', src='pnm.cc')],
      models=[dict(module='PnmModel', cfg='PnmModel', thorough_cfg='PnmModelT'),
              dict(module='PnmModel', cfg='PnmModelS', script='pnm', workers=1)])

check('C15', trace='TraceHeader', case_events=('wav', 'pnm', 'missing'),
      note='What the real readers say about all truncations and many (thorough: all) single-byte changes of well-formed headers, insertions, '
           'deletions, inconsistent combinations of fields, all short strings over a small alphabet and random bytes is compared with the '
           'grammars in the specification, which TLC checks against byte-level models of writer, reader and parser.',
      harness=[dict(name='header', src='header.cc')],
      models=[dict(module='PnmModel', cfg='PnmModel', thorough_cfg='PnmModelT'), dict(module='WavModel', cfg='WavModel', thorough_cfg='WavModelT')])

check('C33', trace='TraceCircle', case_events=('circle',),
      note='TLC proves for all n and N up to 40 (thorough: 300) that the reduction to octants is an identity within an eighth of a turn and that '
           'the polynomials are as accurate as double precision there; the values the real code computes for all n up to N = 40 and for '
           'sampled N up to 10^8, at run time and at compile time, are compared with cosines and sines from series.',
      harness=[dict(name='circle', src='circle.cc')],
      models=[dict(module='CircleModel', cfg='CircleModel', thorough_cfg='CircleModelT'), dict(module='RealTest', cfg='RealTest')])

check('C34', trace='TraceAtan', case_events=('atan', 'atan2'),
      note='What the real code computes around every boundary of its ranges, on the axes, in all quadrants and for sampled arguments is compared '
           'with arc tangents from series, whose specification TLC checks against identities.',
      harness=[dict(name='atan', src='atan.cc')],
      models=[dict(module='AtanModel', cfg='AtanModel', thorough_cfg='AtanModelT'), dict(module='RealTest', cfg='RealTest')])

check('C36', trace='TraceCordic', case_events=('cordic',),
      note='TLC proves on an integer model of the rotations that the result is within the bound for a grid of 8-bit vectors (thorough: all of them); '
           'the result of the real code for every pair of 8-bit integers, and for thousands of pairs of 16-bit integers including all '
           'extremes, is compared with the angle from series.',
      harness=[dict(name='cordic', src='cordic.cc')],
      models=[dict(module='CordicModel', cfg='CordicModel', thorough_cfg='CordicModelT', workers=4), dict(module='RealTest', cfg='RealTest')])

check('C35', trace='TraceExp', case_events=('ldexp', 'exp10', 'decibel', 'idecibel'),
      note='TLC proves for all exponents up to 1023 that the repeated squaring yields the power of two, and checks the rational kernel of the power '
           'of ten and the series behind the decibels on a grid; what the real code computes for every power of two, around every change of '
           'the reduction and for sampled arguments is compared with exponentials and logarithms from series.',
      harness=[dict(name='exp', src='exp.cc')],
      models=[dict(module='ExpModel', cfg='ExpModel'), dict(module='RealTest', cfg='RealTest')])

check('C39', trace='TraceHelpers', case_events=('signum', 'clamp', 'delta', 'lerp', 'normal', 'sinc', 'const'),
      note='TLC checks the specified helpers on grids against what characterizes them; results of the real code for integers, floats and doubles, '
           'including ends, ties and extremes, are compared with the exact ones or with exponentials and sines from series, and the '
           'constants with pi from its series to half a unit in the last place.',
      harness=[dict(name='helpers', src='helpers.cc')],
      models=[dict(module='HelpersModel', cfg='HelpersModel', thorough_cfg='HelpersModelT'), dict(module='RealTest', cfg='RealTest')])

check('C32', trace='TraceComplex', case_events=('op', 'prog', 'polar', 'frompolar'),
      note='TLC checks the formulas of the code against the laws of the field over programs of compound assignments on two Gaussian integers, with '
           'all aliasings; all programs of up to three steps are run on the real code with integers, floats and doubles, and the results of '
           'every operator and function on sampled operands are compared with exact arithmetic within bounds of a few roundings.',
      harness=[dict(name='complex', src='complex.cc')],
      models=[dict(module='ComplexModel', cfg='ComplexModel', thorough_cfg='ComplexModelT'),
              dict(module='ComplexModel', cfg='ComplexModelS', script='complex', workers=1)])

check('C28', trace='TraceWindow', case_events=('window',),
      note='TLC checks the evaluations of the code (reduced fractions of a turn, the power series cut off) with exact arithmetic against the formulas, '
           'and symmetry, ends and centers, for all lengths up to 32 (thorough: 64); values of the real code at all positions of lengths up to '
           '48 and sampled ones of lengths up to 10^6 are compared with cosines, exponentials and Bessel functions from series.',
      harness=[dict(name='window', src='window.cc')],
      models=[dict(module='WindowModel', cfg='WindowModel', thorough_cfg='WindowModelT'), dict(module='RealTest', cfg='RealTest')])

check('C29', trace='TraceWindow', case_events=('window', 'coeffs'),
      note='TLC checks the reductions of the code with exact arithmetic against the ideal impulse responses for all lengths up to 32 (thorough: 64); '
           'taps computed by the real code for lengths 1 to 48 and sampled ones to 10^4 are compared with sines from series, and coefficient '
           'arrays of 1 to 777 taps, from arbitrary functions, with exact products and sums.',
      harness=[dict(name='filter', src='window.cc', flags=['-DFILTER'])],
      models=[dict(module='WindowModel', cfg='WindowModel', thorough_cfg='WindowModelT'), dict(module='RealTest', cfg='RealTest')])

check('C16', trace='TraceFft', case_events=('fft', 'sparse', 'tone'),
      note='TLC proves for all supported sizes up to 128 (thorough: 360) that the recursion takes the right inputs and twiddle factors, on exponents '
           'of the root of unity; transforms computed by the real code for all supported sizes up to 112 and selected ones up to 2048, in both '
           'directions, are compared with the definition in exact arithmetic; of selected sizes up to 131072, transforms of tones and of a few samples.',
      harness=[dict(name='fft%d' % k, src='fft.cc', flags=['-DPART=%d' % k], variants=['fast', 'asan'] if k in (1, 4) else ['fast']) for k in (1, 2, 3, 4, 5)] +
              [dict(name='large%d' % k, src='fft.cc', flags=['-DLARGE', '-DPART=%d' % k], variants=['fast']) for k in (6, 7)],
      models=[dict(module='FftModel', cfg='FftModel', thorough_cfg='FftModelT'), dict(module='BigTest', cfg='BigTest')])

check('C17', trace='TraceFft', case_events=('rfft', 'sparse', 'tone'),
      note='TLC proves the separation of the half-sized transform on exponents; half spectra computed by the real code for all even supported '
           'sizes up to 100 and selected ones up to 2048 are compared with the definition of the transform in exact arithmetic; of selected sizes up '
           'to 131072, transforms of tones and of a few samples.',
      harness=[dict(name='rfft%d' % k, src='fft.cc', flags=['-DREAL', '-DPART=%d' % k]) for k in (1, 2)] +
              [dict(name='large', src='fft.cc', flags=['-DREAL', '-DLARGE', '-DPART=3'], variants=['fast'])],
      models=[dict(module='FftModel', cfg='FftModel', thorough_cfg='FftModelT'), dict(module='RfftModel', cfg='RfftModel', thorough_cfg='RfftModelT')])

check('C18', trace='TraceFft', case_events=('fdzp', 'tone'),
      note='TLC checks for all sizes that the relocation of the bins, as the code does it in place, yields the padded spectrum; outputs of the real '
           'code for all pairs of sizes up to 13 and selected ones up to 300 are compared with the interpolation in exact arithmetic, and tones up to '
           'sizes of 80000.',
      harness=[dict(name='fdzp%d' % k, src='fft.cc', flags=['-DPAD', '-DPART=%d' % k]) for k in (1, 2)] +
              [dict(name='large', src='fft.cc', flags=['-DPAD', '-DLARGE', '-DPART=3'], variants=['fast'])],
      models=[dict(module='PadModel', cfg='PadModel', thorough_cfg='PadModelT'), dict(module='FftModel', cfg='FftModel', thorough_cfg='FftModelT')])

check('C21', trace='TracePhasor',
      note='TLC explores all short programs of the oscillator with rotations by quarter turns, and a cover of them is run on the real code; every '
           'value it returns in recorded runs with frequencies given in all three ways, changed and reset at random, and after millions of '
           'calls, is compared with the previous one rotated and with the sum of all angles.',
      harness=[dict(name='phasor', src='phasor.cc')],
      models=[dict(module='PhasorModel', cfg='PhasorModel'), dict(module='PhasorModel', cfg='PhasorModelS', script='phasor', workers=1),
              dict(module='RealTest', cfg='RealTest')])

check('C22', trace='TraceEma',
      note='TLC checks on a grid of frequencies, for all orders up to 16, that the specified factor has half power where it should, alone and in a '
           'cascade; every output of recorded runs of the real code, with all ways of setting the factor, changed at random while running, is '
           'compared with the recurrence, through all stages of a cascade with running error bounds.',
      harness=[dict(name='ema', src='ema.cc')],
      models=[dict(module='EmaModel', cfg='EmaModel', thorough_cfg='EmaModelT'), dict(module='RealTest', cfg='RealTest')])

check('C23', trace='TraceBiquad',
      note='TLC checks on a grid of frequencies and qualities that the specified sections are the bilinear transforms of the analog prototypes and '
           'that their cascades have the response of Butterworth filters; every output of recorded runs of the real code, with all designs '
           'changed at random while running, is compared with the difference equation within bounds derived from the roundings, cascades '
           'with exact simulation.',
      harness=[dict(name='biquad', src='biquad.cc')],
      models=[dict(module='BiquadModel', cfg='BiquadModel', thorough_cfg='BiquadModelT', workers=4), dict(module='RealTest', cfg='RealTest')])

check('C24', trace='TraceBlocker',
      note='TLC runs the recurrences on constants, alternating signals and sines and finds them blocked, passed and normalized; every output of '
           'recorded runs of the real code with float, double and complex samples, with the number of samples changed while running, is compared '
           'with the recurrences, the normalizers with running error bounds. A normalizer whose mean power is lost in rounding is not covered.',
      harness=[dict(name='blocker', src='blocker.cc')],
      models=[dict(module='BlockerModel', cfg='BlockerModel')])

check('C25', trace='TraceFmd',
      note='TLC checks for all pairs of points on a grid that the three ways to the angle agree and on carriers that the other two approximate it; '
           'every output of recorded runs of the real code (steady, swept, jumping and arbitrary carriers, steps of half a turn, bandwidths '
           'changed while running) is compared with the angle from series.',
      harness=[dict(name='fmd', src='fmd.cc')],
      models=[dict(module='FmdModel', cfg='FmdModel', thorough_cfg='FmdModelT'), dict(module='RealTest', cfg='RealTest')])

check('C26', trace='TraceAmd',
      note='TLC runs the envelope follower on all histories of six magnitudes with all combinations of factors; the histories and modulated, random, '
           'gated and constant carriers with settings changed while running are demodulated by the real code, and every output is compared with '
           'the formula applied to the exact envelope, with running error bounds.',
      insensitive=('new',),
      harness=[dict(name='amd', src='amd.cc')],
      models=[dict(module='AmdModel', cfg='AmdModel'), dict(module='AmdModel', cfg='AmdModelS', script='amd', workers=1)])

check('C27', trace='TraceQuadrature',
      note='TLC proves for 5 to 33 taps that the shift registers of the code compute the convolution, symbolically and so for all inputs; outputs of '
           'the real code for 5 to 257 taps, with default and other window parameters, on impulses, sines and noise in several portions, are '
           'compared with convolutions with the ideal responses and Bessel functions from series.',
      harness=[dict(name='quadrature', src='quadrature.cc')],
      models=[dict(module='QuadratureModel', cfg='QuadratureModel'), dict(module='RealTest', cfg='RealTest')])

check('C37', trace='TraceSpline', case_events=('natural',),
      note='TLC checks for all vectors of up to 4 (thorough: 5) small knot values that the specified spline has what defines it; values of the real '
           'code for 2 to 257 knots, real and complex, with all kinds of starts, spacings and strides, on, between and outside the knots, are '
           'compared with exact elimination within bounds of the roundings.',
      harness=[dict(name='natural', src='spline.cc')],
      models=[dict(module='SplineModel', cfg='SplineModel', thorough_cfg='SplineModelT', workers=4)])

check('C38', trace='TraceSpline', case_events=('hermite', 'uniform'),
      note='TLC checks for all vectors of up to 4 (thorough: 5) small values and gaps that the specified spline has the prescribed values and slopes '
           'on both sides of each point; values of the real code for 3 to 300 points in general and uniform position, real and complex, on, '
           'between and outside the points, are compared with exact arithmetic within bounds of the roundings.',
      harness=[dict(name='hermite', src='spline.cc', flags=['-DHERMITE'])],
      models=[dict(module='SplineModel', cfg='SplineModel', thorough_cfg='SplineModelT', workers=4)])

check('C31', trace='TraceLms',
      note='TLC explores the filter over its bip buffer in exact complex fractions for up to 3 coefficients and 3 calls: the error is the one of the '
           'last inputs, unit steps reproduce the desired value, no step leads away from a filter that explains it. Every call of the recorded '
           'runs (a transition cover, random histories with silences and copies, 1 to 100 coefficients) is validated with exact arithmetic '
           'within bounds of the roundings.',
      harness=[dict(name='lms', src='lms.cc')],
      models=[dict(module='LmsModel', cfg='LmsModel', thorough_cfg='LmsModelT', workers=4), dict(module='LmsModel', cfg='LmsModelS', script='lms')])

check('C30', trace='TraceResample',
      note='TLC explores the positions of the streaming resampler for all histories of 6 (thorough: 9) calls of all differences in units of up to a '
           'ninth (thorough: 21st) of a sample, and the indices of the block resampler for up to 5 taps and 14 samples. Results of the real code '
           'for 1 to 33 taps, real and complex, with all kinds of rates, cutoffs, differences and strides are compared with the windowed response '
           'interpolated exactly, within bounds of the roundings, and all cells of the outputs are accounted for.',
      harness=[dict(name='resample', src='resample.cc')],
      models=[dict(module='ResampleModel', cfg='ResampleModel', thorough_cfg='ResampleModelT', workers=4),
              dict(module='ResampleModel', cfg='ResampleModelS', script='resample'), dict(module='RealTest', cfg='RealTest')])

check('C40', trace='TraceIsolation', case_events=('start',), insensitive=('start', 'make'),
      note='TLC explores all schedules of 6 (thorough: 7) steps on two objects: histories of a sound design always fit into one tree, and each of six '
           'unsound designs (shared, uninitialized, shallowly copied, not copied, not assigned, counted) is found out. Schedules covering the '
           'model and random ones are run on objects of all classes of the library, and each history again on an object alone in a process of '
           'its own; all results have to fit into one tree.',
      harness=[dict(name='isolation', src='isolation.cc')],
      models=[dict(module='IsolationModel', cfg='IsolationModel', workers=1, thorough_cfg='IsolationModelT', min_states=1000),
              dict(module='IsolationModel', cfg='IsolationModelS', script='isolation', workers=1)])

check('C41', case_events=('writer', 'reader', 'nowhere', 'source'),
      note='The writers and readers of the real code are used through their abstract interfaces only, on random sequences of writes, silences, reads '
           'and skips with and without strides, and the bytes and samples are validated against the specifications of both formats, whose '
           'byte-level models TLC checks over all short runs.',
      harness=[dict(name='pcm', src='wav.cc', flags=['-DABSTRACT'], trace='TraceWav'), dict(name='pel', src='pnm.cc', flags=['-DABSTRACT'], trace='TracePnm')],
      models=[dict(module='WavModel', cfg='WavModel', thorough_cfg='WavModelT'), dict(module='PnmModel', cfg='PnmModel', thorough_cfg='PnmModelT')])

check('C42', trace='TraceLines', case_events=('theil', 'rm1', 'rm2'),
      note='TLC checks, over all abscissas of up to 6 points (8 in the thorough tier) and capacities up to 4 (5), that the loops stay inside of their arrays and '
           'leave there what is specified; the real code is run on those sets and on generated ones with up to 60 points more than fit, with '
           'exactly allocated objects under the address and bounds sanitizers.',
      harness=[dict(name='beyond', src='lines.cc', flags=['-DROBUST', '-DBEYOND'])],
      models=[dict(module='LimitModel', cfg='LimitModel', thorough_cfg='LimitModelT', min_states=1000),
              dict(module='LimitModel', cfg='LimitModelS', script='beyond', workers=1, min_states=1000)])

check('C43', trace='TraceIsolation', case_events=('threads',), insensitive=('start', 'make'),
      note='TLC explores all interleavings of the steps of calls made by two (thorough: three) threads: a design without shared memory always fits, and '
           'three designs with shared memory fail in some interleaving, never when calls follow one another, and always leave a race behind. So the '
           'objects and functions of all classes are run by three threads which take turns in the orders given by TLC without being '
           'ordered for the memory, under a race detector; there has to be no race, and all results are those of one thread.',
      harness=[dict(name='threads', src='isolation.cc', flags=['-DTHREADS'], variants=['tsan'])],
      models=[dict(module='ThreadsModel', cfg='ThreadsModel', workers=1, thorough_cfg='ThreadsModelT', min_states=1000),
              dict(module='ThreadsModel', cfg='ThreadsModelS', script='threads', workers=1, min_states=100)])

check('C44', trace='TraceFault', case_events=('wave', 'image'),
      note='TLC explores a buffered writer on a device with any limit, and a program that ends between any two writes to the device, also while the header is '
           'completed: the file is always a prefix whose header gives no length unless it is complete; two other designs fail. The real writers are run '
           'with those limits and crash points, with random ones and around every byte of the header, by limiting file sizes, by failing or '
           'shortening writes to the device and by ending the process, and what is left of the file is validated.',
      harness=[dict(name='fault', src='fault.cc')],
      models=[dict(module='FaultModel', cfg='FaultModel', workers=1, thorough_cfg='FaultModelT', min_states=5000),
              dict(module='FaultModel', cfg='FaultModelS', script='fault', workers=1, min_states=300)])

check('C45', case_events=('reader', 'writer'),
      note='TLC explores all ways in which bytes arrive at a reader with a buffer and in which it is asked for what has arrived: one that takes what is there never '
           'waits, one that fills its buffer does. The real readers are run along those schedules at the end of a named pipe, the real writers '
           'at the beginning of one, and the samples, and what comes out, are validated against the specifications of both formats.',
      harness=[dict(name='pipewav', src='pipe.cc', flags=['-DWAV'], trace='TraceWav'), dict(name='pipepnm', src='pipe.cc', trace='TracePnm')],
      models=[dict(module='PipeModel', cfg='PipeModel', workers=1, thorough_cfg='PipeModelT', min_states=500),
              dict(module='PipeModel', cfg='PipeModelS', script='pipe', workers=1, min_states=500)])
