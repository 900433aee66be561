for i, r in dict(
    P12='the digit recurrence of sqrt (237 dependent steps on 256-bit '
        'remainders) was not brought into reach of the solver: it needs an '
        'inductive invariant per step, which is a proof rather than a '
        'bounded query; the 237-step unrolling is not decided in the time.',
    P19='to_degrees and to_radians multiply by a wide constant with their '
        'own rounding; no encoding of the documented accuracy was finished.',
    P20='parsing: the grammar is decided over byte strings of bounded '
        'length; no encoding was finished.',
    P21='parsing: decimal to binary conversion uses tables of powers of ten '
        'and a big decimal with data-dependent loops over hundreds of '
        'digits; not encodable within useful bounds.',
    P22='parsing: no encoding was finished.',
    P25='the symmetry of the elementary functions needs their kernels as '
        'uninterpreted functions; no encoding was finished.',
    P26='needs the kernels and BigFloat conversions of tiny arguments '
        'encoded; no encoding was finished.',
    P28='panics are part of every obligation of the claimed operations '
        '(a reachable panic is a violation there); no check of its own with '
        'overflow checks enabled was finished.').items():
    NA[i] = r
NA['P29'] = (
    'Transcendental accuracy: the obligation quantifies over the real '
    'function, argument reduction by a multi-thousand-bit constant and '
    'polynomials of 512-bit products; no SMT theory available here decides '
    'it, and the constituent kernels are covered by other properties.')
NA['P30'] = (
    'Formatting needs the lookup tables of the four *_lut crates, whose '
    'sources are not part of this repository (their src directories are '
    'missing), so the code cannot be encoded.')
