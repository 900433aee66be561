prop('P19', 'to_degrees and to_radians scale by the right constant',
     'to_degrees and to_radians return x * 180/pi and x * pi/180 within one '
     'ulp for every finite x whose result is normal, keep signed zeros, '
     'infinities and NaN, and overflow or underflow like any other '
     'multiplication.', A1,
     'Tests convert a few angles of ordinary size.', [LIB],
     [('to_degrees, to_radians', LIB)])
prop('P20', 'Parsing accepts exactly the documented grammar',
     'from_str accepts an optional sign followed by digits with an optional '
     'point and an optional exponent, or inf, infinity or nan in any case, '
     'and rejects every other string with an error. It never panics.',
     'every byte string up to the stated length',
     'Malformed strings are tested by a short list.',
     ['src/conv/from_str'], [('parser', 'src/conv/from_str/float_repr.rs')])
prop('P21', 'Parsing rounds the decimal value to nearest, ties to even',
     'The value from_str returns is the real value of the literal rounded to '
     'nearest, ties to even, wherever the digits, the point and the exponent '
     'stand in it.', 'every literal of the stated shapes',
     'Halfway and nearly-halfway literals are sparse; tests hold a few.',
     ['src/conv/from_str', 'src/conv/big_decimal.rs'],
     [('fast_exact, fast_approx, f256_exact', 'src/conv/from_str')])
prop('P22', 'Parsing keeps signs and saturates at extreme exponents',
     'A leading minus sign yields the negated value, including -0, and '
     'literals too large or too small for the format yield infinity or zero '
     'for every exponent, however many digits it has.',
     'every literal of the stated shapes',
     'Tests try a few extreme exponents.', ['src/conv/from_str'],
     [('exponent parsing', 'src/conv/from_str/float_repr.rs')])
prop('P24', 'Special operands of the elementary functions',
     'sqrt, ln, log2, log10, sin, cos, tan, sin_cos, asin, acos and atan '
     'return NaN for NaN and outside their domain, and the values their '
     'documentation gives at zeros and infinities; asin, acos and atan return '
     'the correctly rounded 0, pi/4, pi/2 or pi at -1 and 1.',
     'every pattern outside the domain or in the listed set',
     'Each special class is tested with one representative at most.',
     ['src/math'], [('domain tests', 'src/math')])
prop('P25', 'Odd and even functions are symmetric',
     'sin, tan, asin and atan of -x are the negated values for x, and cos of '
     '-x equals cos of x, for every x, bit for bit.', A1,
     'Symmetry is sampled.', ['src/math/circular_fns'],
     [('sign handling', 'src/math/circular_fns')])
prop('P26', 'Tiny arguments of the circular functions',
     'For |x| so small that the next term of the series vanishes, sin, tan, '
     'asin, atan and ln_1p return a value within one ulp of x, and cos '
     'returns 1, down to the smallest subnormal.',
     'every pattern with an exponent below the stated one',
     'Tests use arguments of ordinary size.', ['src/math'],
     [('cutoffs', 'src/math/circular_fns')])
prop('P27', 'atan2 of special operands and on the diagonals',
     'atan2(y, x) is NaN if an operand is NaN. It is the correctly rounded '
     'multiple of pi/4 in the quadrant of (x, y) if |x| = |y|, if one of them '
     'is zero or if one or both are infinite, with the sign of y unless y is '
     'zero.', A2, 'Tests check a few pairs per quadrant.',
     ['src/math/circular_fns/atan.rs'],
     [('atan2', 'src/math/circular_fns/atan.rs')])
prop('P28', 'No operation panics or overflows',
     'No arithmetic operation, conversion or parse panics, overflows an '
     'internal integer or indexes out of bounds, whatever its operands, with '
     'overflow checks compiled in.', A3,
     'The test suite runs in release mode, where overflow wraps silently.',
     ['src'], [('internal arithmetic', 'src')])
prop('P29', 'Transcendental results are within the documented error',
     'The elementary functions are within their documented error of the real '
     'value over their whole domain.', A1,
     'Accuracy is sampled on small reference files.', ['src/math'],
     [('series and reduction', 'src/math')])
prop('P30', 'Formatting round-trips',
     'Parsing the text that Display, LowerExp and UpperExp print without a '
     'precision gives the value printed.', A1,
     'Round trips are sampled.', ['src/conv/to_str'],
     [('Display', 'src/conv/to_str')])
