#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the tables below"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=['inputs'], text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ['public API of the crate'],
            hook_needed=None)))


A1 = 'every 256-bit pattern'
A2 = 'every pair of 256-bit patterns'
A3 = 'every triple of 256-bit patterns'
SAMPLE = ('The tests sample a handful of operands; there are %s, and the '
          'mistakes sit at particular exponent differences, ties, carries '
          'and range ends.')
LIB = 'src/lib.rs'

prop('P01', 'Encoding and decoding are lossless',
     'Bit pattern, byte arrays in every byte order and the triple of sign, '
     'exponent and significand all describe the same value: converting to any '
     'of them and back yields the same bits, byte orders are mirror images, '
     'and the triple\'s significand is odd (or everything is 0 for a zero). '
     'The public constants have exactly the documented values.',
     A1 + '; for the triple every finite one',
     'Round trips are tested for a few values; a lost bit or a wrong word '
     'order shows only for particular patterns.',
     [LIB], [('to/from bits and bytes', 'src/lib.rs to_bits, from_bits, '
              'to_be_bytes, from_be_bytes, ...'),
             ('encode/decode', 'src/lib.rs encode, '
              'as_sign_exp_signif, from_sign_exp_signif')])
prop('P02', 'Classification partitions all patterns as IEEE 754 does',
     'Every bit pattern is exactly one of NaN, infinite, zero, subnormal, '
     'normal, and classify and all is_* and eq_zero predicates agree with the '
     'fields of the pattern. Every NaN pattern counts as NaN, whatever its '
     'payload and sign.', A1,
     'Only the default NaN and a few values per class are tested.', [LIB],
     [('predicates', 'src/lib.rs is_nan, is_infinite, is_finite, '
       'is_subnormal, is_normal, classify, eq_zero, is_special')])
prop('P03', 'Comparison is numeric order; total_cmp is IEEE totalOrder',
     'The operators ==, !=, <, <=, >, >= and partial_cmp decide the order of '
     'the real values, with both zeros equal and NaN unordered and unequal to '
     'everything. total_cmp orders all bit patterns as IEEE 754 totalOrder.',
     A2, 'Tests compare a few dozen pairs, none near a word boundary with '
     'both signs.', ['src/binops/cmp.rs', LIB],
     [('partial_cmp, eq', 'src/binops/cmp.rs'), ('total_cmp', LIB)])
prop('P04', 'min, max and clamp pick the right operand',
     'min and max return the smaller or larger operand, and the other operand '
     'if exactly one is NaN. clamp returns a value within the bounds, NaN for '
     'NaN, and panics exactly if min > max or a bound is NaN.', A3,
     'The choice depends on the order of arbitrary pairs.', [LIB],
     [('min, max, clamp', LIB)])
prop('P05', 'Negation and abs change the sign bit only',
     'Negation (by value and by reference) flips the sign of every value '
     'including zeros, infinities and NaNs, abs clears it, and neither '
     'changes any other bit.', A1, SAMPLE % '2^256 patterns', [LIB],
     [('neg, abs', LIB)])
prop('P06', 'Addition and subtraction are correctly rounded',
     'x + y and x - y are the exact sum and difference rounded once to '
     'nearest, ties to even, including subnormal results and overflow to '
     'infinity. Infinities, NaNs and signed zeros follow IEEE 754 (inf - inf '
     'is NaN, x - x is +0).', A2,
     SAMPLE % '2^512 operand pairs', ['src/binops/add.rs'],
     [('add_signifs and rounding', 'src/binops/add.rs')])
prop('P07', 'Multiplication is correctly rounded',
     'x * y is the exact product rounded once to nearest, ties to even, '
     'including subnormal results, underflow and overflow. 0 * inf and NaN '
     'operands give NaN and the sign is the product of the signs.', A2,
     SAMPLE % '2^512 operand pairs',
     ['src/binops/mul.rs', 'src/big_uint/uint128.rs',
      'src/big_uint/uint_generic/mod.rs'],
     [('mul_signifs, rounding', 'src/binops/mul.rs'),
      ('widening_mul', 'src/big_uint')])
prop('P08', 'Division and reciprocal are correctly rounded',
     'x / y is the exact quotient rounded once to nearest, ties to even, '
     'including subnormal results, underflow and overflow, and recip(x) is '
     '1 / x. 0/0, inf/inf and NaN operands give NaN, a finite nonzero value '
     'divided by zero gives an infinity of the right sign.', A2,
     SAMPLE % '2^512 operand pairs', ['src/binops/div.rs', LIB,
                                      'src/big_uint'],
     [('div', 'src/binops/div.rs'),
      ('div_rem', 'src/big_uint/uint_generic/mod.rs'), ('recip', LIB)])
prop('P09', 'Remainder is exact and truncating',
     'x % y is exactly x - trunc(x/y)*y for the real quotient: smaller than '
     'y in magnitude, with the sign of x, never rounded, for every difference '
     'in exponents. x % 0, inf % y and NaN operands give NaN, and x % inf is '
     'x.', A2, 'The remainder loop runs up to thousands of steps; tests '
     'cover a few exponent differences.',
     ['src/binops/rem.rs', 'src/big_uint'],
     [('rem', 'src/binops/rem.rs')])
prop('P10', 'Fused multiply-add rounds once',
     'x.mul_add(y, z) is the exact x*y + z rounded once to nearest, ties to '
     'even, including cancellation, subnormal results and overflow. Special '
     'operands follow IEEE 754 fusedMultiplyAdd.', A3,
     SAMPLE % '2^768 operand triples', ['src/fused_ops/fma.rs'],
     [('fma', 'src/fused_ops/fma.rs')])
prop('P11', 'square, square_add and sum_of_squares round once',
     'square, square_add and sum_of_squares return the exact x^2, x^2 + a and '
     'x^2 + y^2 rounded once to nearest, ties to even. Special operands '
     'follow the IEEE 754 rules of the operations they fuse.', A3,
     SAMPLE % '2^512 operand pairs',
     ['src/fused_ops/sos.rs', 'src/fused_ops/fma.rs', LIB],
     [('sos, fma', 'src/fused_ops')])
prop('P12', 'Square root is correctly rounded',
     'sqrt(x) is the exact square root rounded to nearest, for every normal '
     'and subnormal x. sqrt of a negative nonzero value or NaN is NaN, sqrt '
     'of a zero or +inf is that value.', A1,
     SAMPLE % '2^256 operands', ['src/math/sqrt.rs'],
     [('digit recurrence', 'src/math/sqrt.rs')])
prop('P13', 'Scaling by powers of two is correctly rounded',
     'mul_pow2(n), div_pow2(n), mul2 and div2 return x * 2^n, x / 2^n, 2x and '
     'x/2 exactly, or rounded once to nearest, ties to even, if the result is '
     'subnormal, or an infinity on overflow. This holds for every n including '
     'the largest.', A1 + ' and every u32',
     'Gradual underflow and overflow depend on the exponent, n and the low '
     'bits together.', [LIB], [('mul_pow2, div_pow2, mul2, div2', LIB)])
prop('P14', 'floor, ceil, round and round_tie_even',
     'floor, ceil, round (ties away from zero) and round_tie_even return '
     'exactly the integral value their definition names, for every magnitude '
     'down to subnormals and up to values that are already integral. NaN and '
     'infinities are kept.', A1, SAMPLE % '2^256 operands', [LIB],
     [('nearest_integral, round, round_tie_even', LIB)])
prop('P15', 'trunc, fract and split are exact and complementary',
     'trunc returns the integral part towards zero, fract the exact rest, '
     'split returns exactly that pair, and so integral part plus rest is x. '
     'NaN and infinities have themselves as integral part.', A1,
     SAMPLE % '2^256 operands', [LIB], [('trunc, fract, split', LIB)])
prop('P16', 'ulp is the spacing of representable values',
     'ulp(x) is the weight of the last significand bit of x for every finite '
     'x, including subnormals, zeros and the range where the ulp itself is '
     'subnormal, and NaN for NaN and infinities.', A1,
     SAMPLE % '2^256 operands', [LIB], [('ulp', LIB)])
prop('P17', 'Conversion from integers is exact',
     'from() of every value of every primitive integer type and bool yields '
     'exactly that value, with the right sign, and 0 yields +0.',
     'every value of bool, u8..u128 and i8..i128',
     'Tests convert a few values per type.', ['src/conv/from_int.rs'],
     [('From impls', 'src/conv/from_int.rs')])
prop('P18', 'Conversion from f32 and f64 is exact',
     'from() of every f32 and f64, normal, subnormal, zero or infinite, '
     'yields exactly the same real value with the same sign, and a NaN for a '
     'NaN.', 'every f32 and every f64 bit pattern',
     'Subnormal sources have a path of their own per leading bit.',
     ['src/conv/from_float.rs'], [('From<F>', 'src/conv/from_float.rs')])
prop('P23', 'All forms of an operator are the same operation',
     'For +, -, *, / and %, the forms with references on either or both '
     'sides and the assigning forms with a value or a reference give exactly '
     'the result of the form with two values, with the operands in the same '
     'order.', A2, 'The forms are macro generated and hardly tested.',
     ['src/binops/mod.rs', 'src/binops'],
     [('forward_ref_binop, forward_op_assign', 'src/binops/mod.rs')])

exec(open(V + '/tools/props2.py').read()) \
    if os.path.exists(V + '/tools/props2.py') else None

NA = {}
NOTE = {}
exec(open(V + '/tools/claims.py').read())

P.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
TECH = ('symbolic execution of the LLVM IR of the real code; SAT (kissat, '
        'minisat with SAT sweeping) / SMT (z3) decides the negated property')
sys.path.insert(0, V + '/engine')
import check  # noqa: E402
have = check.all_checks()
man = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[],
           not_applicable=[])
for p in P:
    i = p['id']
    if i in NA:
        man['not_applicable'].append(dict(property=i, reason=NA[i]))
        continue
    c = have[i]
    b = c['bounds'] + ('' if not c['outside'] else ' Outside: ' +
                       c['outside'])
    man['checks'].append(dict(
        property=i,
        quick_cmd='python3-vt engine/check.py %s --tier quick' % i,
        thorough_cmd='python3-vt engine/check.py %s --tier thorough' % i,
        technique=TECH, level='other', level_note=(
            'Solver verdict over all inputs within the bounds. Bounds: ' + b
            + (' ' + NOTE[i] if i in NOTE else ''))))
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
