"""What each property is and how its check runs.  gen.py writes
properties.jsonl and MANIFEST.json from this file."""
M = 1000000
CHECKS = {}
NOT_APPLICABLE = []   # (id, reason)

COMMON = ['The oracle is exact integer arithmetic written from IEEE 754-2008 / TS 18661-2 (h/ref.hpp); it shares no code or tables with libdfp.',
          'The BID build of this machine (x86_64, software decimal arithmetic) is what runs; DPD, POWER and s390 code is not built here.']
RULE = 'Operands come from a structured generator (digit patterns, cohort members, exponents near the format limits and near each other, ties, subnormals, zeros, infinities, NaNs, non-canonical encodings) and, in the coverage-guided phase, from mutation of cases that reached new code. '


def ph(src, args=(), quick=8 * M, cov=2 * M, thorough=None, workers=8, cap=60, pre='', covthorough=None, variant='cov', covvariant='cov'):
    """random phase, then a coverage-guided one on the coverage build"""
    r = [{'name': pre + 'random', 'variant': variant, 'src': src, 'args': list(args), 'cases': {'quick': quick, 'thorough': thorough or quick * 40}, 'workers': workers, 'cap': None}]
    if cov:
        r.append({'name': pre + 'guided', 'variant': covvariant, 'src': src, 'args': list(args), 'cov': True, 'cases': {'quick': cov, 'thorough': covthorough or cov * 40}, 'workers': workers, 'cap': None})
    return r


def check(pid, title, statement, over, text, why, files, mech, phases, rule, note, assumptions=(), technique='property-based testing: structured random + coverage-guided generation against an exact reference model'):
    CHECKS[pid] = {'title': title, 'statement': statement, 'over': over, 'text': text, 'why': why, 'files': files, 'mechanism': mech,
                   'phases': phases, 'rule': rule, 'assumptions': list(assumptions) + COMMON, 'note': note, 'technique': technique}


check('C01', 'Decimal + - * / are correctly rounded in every rounding mode',
      'For all operands of each decimal format and each of the five decimal rounding modes, +, -, * and / return exactly the IEEE 754-2008 correctly rounded value of the infinitely precise result, including subnormal results, overflow to infinity or to the largest finite number as the mode requires, and the sign of a zero. The result is always a canonical encoding.',
      ['inputs', 'configurations'], 'every pair of operand bit patterns of _Decimal32/64/128 and all 5 rounding modes',
      'The tests have a few dozen literal sums, products and quotients, nearly all in the default rounding mode; the operand space is 2^64 to 2^256 per operation.',
      ['libbid/bid64_add.c', 'libbid/bid128_add.c', 'libbid/bid64_mul.c', 'libbid/bid128_mul.c', 'libbid/bid64_div.c', 'libbid/bid128_div.c', 'libbid/bid_round.c', 'libbid/bid_decimal_data.c', 'sysdeps/soft-dfp/adddd3.c'],
      [{'name': 'round-and-pack with sticky digits, table-driven division by powers of ten', 'where': 'libbid/bid_inline_add.h, libbid/bid_round.c'}, {'name': 'thread-local decimal rounding mode read by every operation', 'where': 'sysdeps/soft-dfp/bid/fe_decround.c'}],
      ph('arith.cc', ['value'], 24 * M, 6 * M), RULE + 'Non-trivial: both operands finite and non-zero with a finite result.',
      'Exploration: millions of generated operand pairs per run against exact arithmetic; no guarantee for inputs not generated.')

check('C02', 'Arithmetic: special operands and preferred exponents',
      'With a zero, infinite or NaN operand, or a result that is zero, infinite or NaN, +, -, * and / return what IEEE 754-2008 prescribes. When the result is exact, its exponent is the preferred one (the smaller operand exponent for + and -, the sum for *, the difference for /) or the nearest representable one, so trailing zeros such as cents survive.',
      ['inputs', 'configurations'], 'every pair of operands of each format whose result is exact or special, in all 5 rounding modes',
      'Tests compare values, under which 1.0 and 1.00 are equal; cohort members and special-operand combinations are hardly sampled.',
      ['libbid/bid64_add.c', 'libbid/bid128_add.c', 'libbid/bid64_mul.c', 'libbid/bid128_mul.c', 'libbid/bid64_div.c', 'libbid/bid128_div.c'],
      [{'name': 'exponent adjustment of exact results', 'where': 'libbid/bid64_div.c, libbid/bid128_div.c trailing-zero removal; libbid/bid_inline_add.h'}],
      ph('arith.cc', ['quantum'], 30 * M, 4 * M), RULE + 'Non-trivial: the result is exact, or an operand or the result is special.',
      'Exploration against the exact model, comparing the encoded exponent as well as the value.')

check('C03', 'Comparison operators and is* macros give the exact numeric order',
      'For all operands, ==, !=, <, <=, >, >= and isgreater, isgreaterequal, isless, islessequal, islessgreater, isunordered answer by the exact numeric values: members of one cohort are equal, +0 equals -0, and any NaN operand is unordered.',
      ['inputs'], 'every pair of operand bit patterns of each format, including NaNs, infinities, zeros and non-canonical encodings',
      'Tests compare a few literals; close values with distant exponents and cohort members are a vast space.',
      ['libbid/bid64_compare.c', 'libbid/bid128_compare.c', 'sysdeps/soft-dfp/eqdd2.c', 'ieee754r/isgreaterd64.c', 'dfp/math.h'],
      [{'name': 'comparison by scaling the smaller-exponent coefficient', 'where': 'libbid/bid64_compare.c, libbid/bid128_compare.c'}],
      ph('basic.cc', ['compare'], 40 * M, 6 * M), RULE + 'Non-trivial: both operands finite, not both zero.',
      'Exploration against exact comparison.')

check('C04', 'Integer <-> decimal conversions are exact or correctly rounded',
      'Converting any signed or unsigned int, 64-bit or 128-bit integer to a decimal format yields the exact value when it fits the precision and otherwise the value correctly rounded in the current decimal rounding mode. Converting a decimal whose truncated value lies in the range of the integer type yields exactly that truncated value.',
      ['inputs', 'configurations'], 'every value of the six integer types, every decimal whose integral part is in range, all 5 rounding modes',
      'Tests convert a handful of small integers; type limits, fractions next to the limits and double rounding need generated inputs.',
      ['sysdeps/soft-dfp/floatdisd.c', 'sysdeps/soft-dfp/candtruncd32.c', 'base-math/floattitd.c', 'base-math/fixtdti.c', 'libbid/bid_from_int.c', 'libbid/bid128_to_int64.c', 'libbid/bid64_to_uint64.c'],
      [{'name': 'range checks against scaled limits', 'where': 'libbid/bid*_to_*int*.c'}, {'name': 'canonicalise-and-truncate helper', 'where': 'sysdeps/soft-dfp/candtruncd32.c, candtruncd64.c'}],
      ph('conv.cc', ['int'], 40 * M, 6 * M), 'Integers near powers of two, powers of ten, type limits and rounding boundaries; decimals whose integral part is near an integer-type limit with all kinds of fractions. Non-trivial: a non-zero integer, or a decimal in range whose integral part is non-zero.',
      'Exploration against exact arithmetic. Out-of-range decimal to integer conversions are undefined in C and not checked.')

check('C05', 'Conversions between decimal formats preserve value and quantum',
      'Widening conversions between decimal formats keep value, quantum, sign and infinity unchanged, so narrowing back restores the operand; narrowing conversions return the correctly rounded value in the current rounding mode with the exponent as close as possible to the original when exact. NaNs convert to NaNs.',
      ['inputs', 'configurations'], 'every operand of each format to each other format, all 5 rounding modes',
      'Tests convert a few literals; double rounding, subnormal and overflow boundaries of the narrower format need generated inputs.',
      ['libbid/bid32_to_bid64.c', 'libbid/bid32_to_bid128.c', 'libbid/bid64_to_bid128.c', 'sysdeps/soft-dfp/trunctddd2.c', 'sysdeps/soft-dfp/extendsddd2.c'],
      [{'name': 'coefficient rescaling with rounding', 'where': 'libbid/bid32_to_bid64.c, libbid/bid64_to_bid128.c'}],
      ph('conv.cc', ['fmt'], 40 * M, 6 * M), RULE + 'Non-trivial: a finite non-zero operand.',
      'Exploration against exact arithmetic, comparing value and encoded exponent.')

check('C11', 'C++ decimal streams: << prints like printf, >> takes just the number',
      'operator<< of std::decimal::decimal32/64/128 writes the text printf gives for the precision and the fixed, scientific and uppercase flags of the stream, padded to its width, however long. operator>> skips white space, extracts exactly the characters of the number at the front of the stream, correctly rounded, so that what follows can be read next, and sets failbit and stores zero when there is none. Numbers written with both notation flags set and read back are the same.',
      ['inputs', 'configurations', 'histories'], 'every value and format, stream flags, precision 0 to hundreds, width and fill; every text as input',
      'One test writes eight short values; long fixed output, several numbers in one stream and malformed input are not covered.',
      ['dfp/decimal/decimal', 'printf-hooks/printf_dfp.c'],
      [{'name': 'format string built from the stream flags', 'where': 'dfp/decimal/decimal decimal_to_string'}, {'name': 'extraction from the stream buffer', 'where': 'dfp/decimal/decimal operator>>'}],
      ph('streams.cc', ['streams'], 2 * M, 2 * M // 10), 'Values from the structured generator with random stream settings; input texts of several numbers, words and separators. Non-trivial: a finite value, or a text that contains a number.',
      'Exploration against the exact decimal formatter and reader of the harness. The header is compiled from the working tree.')

check('C12', 'Rounding modes: per thread, never changed or confused by any call',
      'fe_dec_setround accepts exactly the five modes, affects only the calling thread and takes effect in every later operation of that thread; fe_dec_getround returns the mode last set. No other call, string conversions included, changes the decimal or the binary rounding mode. The binary mode (fesetround) never affects a decimal result.',
      ['inputs', 'histories', 'configurations'], 'every sequence of setting, reading and computing on up to three threads; every call of the library in each of 5 decimal and 4 binary modes, and made by four threads in different modes at once',
      'The tests set modes around single calls on one thread and never check the mode afterwards, nor the binary mode.',
      ['sysdeps/soft-dfp/bid/fe_decround.c', 'include/dfpfenv_private.h', 'dfp/fenv.h'],
      [{'name': 'thread-local decimal rounding mode', 'where': 'sysdeps/soft-dfp/bid/fe_decround.c'}, {'name': 'functions that switch modes internally and restore them', 'where': 'ieee754r/nextafterd32.c, ieee754r/expd64.c'}],
      ph('hist.cc', ['mode'], 4 * M // 10, 15 * M // 100, variant='plain'), 'Calls of all functions, operators, conversions and string functions with generated operands, in each pair of modes; step sequences on three threads, one step at a time; the same function hammered by four threads in different modes. Non-trivial: a binary mode other than to-nearest; at least two threads of which one set a mode.',
      'Exploration. Steps of different threads are interleaved at call granularity, so the model is exact; concurrent calls (four threads, 1.5 ms) rely on the machine to collide.')

check('C31', 'Every result depends only on the call: no history, no interference',
      'The result of any call of the library (operators, conversions, math functions, printing and reading), including errno, is a function of its arguments and the rounding modes: the same after any other calls, in any order, first in a fresh process, and while other threads make calls at the same time.',
      ['histories', 'schedules'], 'every sequence of calls; four threads calling concurrently',
      'Tests make each call once, in one order and on one thread; hidden state (cached tables, static buffers, leftover modes) shows only over histories.',
      ['printf-hooks/printf_dfp.c', 'stdlib/strtod32.c', 'ieee754r/expd64.c', 'ieee754r/logd128.c', 'sysdeps/soft-dfp/bid/fe_decround.c'],
      [{'name': 'reentrancy: no writable static data besides the thread-local mode', 'where': 'whole library'}],
      ph('hist.cc', ['pure'], 5 * M // 100, 5 * M // 1000, variant='plain'), 'Lists of up to 16 calls of anything, or of one function or two with related operands (equal values with other exponents, other signs, neighbours) in different rounding modes, run forwards, backwards, in a process forked before the first libdfp call, and on four threads started together; one function hammered by four threads. Non-trivial: at least two calls.',
      'Exploration; concurrency is whatever the scheduler of the machine produces, so a data race is found only when it changes a result.')

check('C13', 'Classification, sign and NaN queries agree with the encoding',
      'For every bit pattern of each format, fpclassify, isfinite, isinf, isnan, isnormal, issignaling and signbit (functions and macros) report exactly the class and sign that IEEE 754-2008 gives that encoding (the isinf macro -1 for a negative infinity), including subnormals, unnormalised cohort members and non-canonical encodings. fabs, copysign and negation change nothing but the sign.',
      ['inputs'], 'every bit pattern of each format',
      'Tests use one or two representatives per class; the normal/subnormal border depends on coefficient and exponent together.',
      ['ieee754r/fpclassifyd64.c', 'ieee754r/isnormald128.c', 'ieee754r/issignalingd64.c', 'ieee754r/signbitd128.c', 'ieee754r/copysignd64.c', 'libbid/bid64_noncomp.c', 'dfp/math.h'],
      [{'name': 'bit tests on combination field and coefficient', 'where': 'include/dfpacc.h, ieee754r/*.c'}],
      ph('basic.cc', ['class'], 40 * M, 6 * M), RULE + 'Non-trivial: every case (each bit pattern is a class instance).',
      'Exploration against direct decoding of the IEEE encoding.')

check('C14', 'Round-to-integral functions are exact in their direction',
      'For all operands, ceil, floor, trunc, round and roundeven return the integer their direction prescribes, and rint and nearbyint the one the current decimal rounding mode prescribes; operands that are already integral are returned unchanged in value. Signs of zeros, infinities and NaNs are preserved.',
      ['inputs', 'configurations'], 'every operand of each format; all 5 rounding modes for rint and nearbyint',
      'Tests list literals around small halves; ties and near-ties at every digit position and exponent are not sampled.',
      ['ieee754r/ceild64.c', 'ieee754r/roundd128.c', 'ieee754r/roundevend64.c', 'ieee754r/rintd128.c', 'ieee754r/nearbyintd64.c', 'ieee754r/truncd128.c'],
      [{'name': 'quantize-style rounding to exponent zero under a temporarily set mode', 'where': 'ieee754r/roundd64.c, ieee754r/rintd64.c'}],
      ph('basic.cc', ['rint'], 30 * M, 6 * M), RULE + 'Non-trivial: the operand has a non-zero fraction.',
      'Exploration against exact arithmetic. The exponent of integral results is not specified here.')

check('C15', 'lround/lrint families: exact in range, EDOM out of range',
      'For all operands, lround and llround (halves away from zero) and lrint and llrint (current rounding mode) return the exact rounded integer whenever it fits, without touching errno. Otherwise they set errno to EDOM and raise FE_INVALID; lrint and llrint raise FE_INEXACT exactly when the operand is not integral.',
      ['inputs', 'configurations'], 'every operand of each format, all 5 rounding modes, in particular around LONG_MIN and LONG_MAX',
      'Tests use small literals and a few infinities; the 19-digit range edges with fractions are reached only by construction.',
      ['ieee754r/lroundd64.c', 'ieee754r/llroundd128.c', 'ieee754r/lrintd64.c', 'ieee754r/llrintd128.c'],
      [{'name': 'range check against the long limits before conversion', 'where': 'ieee754r/lroundd64.c, ieee754r/lrintd64.c'}],
      ph('basic.cc', ['lround'], 30 * M, 6 * M), RULE + 'Half of the operands have their point moved inside the digits, a quarter sit within a few units of +-2^63. Non-trivial: the result is in range.',
      'Exploration against exact arithmetic.')

check('C16', 'quantize, samequantum, quantum and llquantexp honour the exponent',
      'quantize(x, y) returns x with the exponent of y, correctly rounded in the current mode, or NaN exactly when that needs more digits than the format has or one operand alone is infinite; samequantum is true exactly for equal exponents, two infinities or two NaNs. quantum(x) is 1 times ten to the exponent of x and llquantexp(x) that exponent, LLONG_MIN for non-finite operands.',
      ['inputs', 'configurations'], 'every pair of operands of each format, all 5 rounding modes',
      'Tests have a small table of literals in the default mode; exponent distances and rounding to all digits are not covered.',
      ['ieee754r/quantized64.c', 'ieee754r/samequantumd128.c', 'ieee754r/quantumd64.c', 'ieee754r/llquantexpd64.c', 'libdecnumber/decNumber.c', 'ieee754r/quantized32.c'],
      [{'name': 'rescaling with digit-count check', 'where': 'libdecnumber/decNumber.c decQuantizeOp, decSetCoeff, decApplyRound'}],
      ph('basic.cc', ['quantum'], 40 * M, 6 * M), RULE + 'Non-trivial: finite non-zero operand (quantize), every case (samequantum, quantum, llquantexp).',
      'Exploration against exact arithmetic, comparing encoded exponents.')

check('C17', 'Exponent extraction and scaling are exact',
      'For finite non-zero x, logb, ilogb and llogb return floor(log10|x|), and frexp splits x exactly into a fraction in [0.1, 1) and a power of ten. ldexp, scalbn and scalbln return x times ten to any integer n, exactly when representable and otherwise rounded with overflow reported as ERANGE; zeros, infinities and NaNs give the documented special results.',
      ['inputs'], 'every operand of each format and every int or long exponent argument',
      'Tests use a few literals; argument combinations near the exponent range and near int/long limits are not covered.',
      ['ieee754r/logbd64.c', 'ieee754r/ilogbd128.c', 'ieee754r/llogbd64.c', 'ieee754r/frexpd64.c', 'ieee754r/ldexpd64.c', 'ieee754r/scalbnd128.c', 'ieee754r/scalblnd64.c', 'include/dfpacc.h', 'sysdeps/generic/numdigits.h'],
      [{'name': 'exponent and digit count from the encoding', 'where': 'sysdeps/generic/numdigits.h, sysdeps/bid/bid-private.c'}],
      ph('basic.cc', ['exp'], 12 * M, 4 * M), RULE + 'The integer argument is near zero, near the value that takes x to a format limit, large, or near the limits of its type. Non-trivial: finite non-zero x.',
      'Exploration against exact arithmetic.')

check('C18', 'nextup/nextdown/nextafter/nexttoward return the adjacent value',
      'For all operands, nextup and nextdown return the least representable value greater, respectively greatest less, than the operand, and nextafter and nexttoward the neighbour in the direction of the second operand or the second operand itself when equal, including across zero, subnormals, powers of ten and the largest finite number.',
      ['inputs'], 'every operand of each format, and every second operand (of _Decimal128 for nexttoward)',
      'Tests list a few boundary literals per format; unnormalised cohort members at each decade boundary are not covered.',
      ['ieee754r/nextupd64.c', 'ieee754r/nextdownd128.c', 'ieee754r/nextafterd64.c', 'ieee754r/nexttowardd32.c', 'ieee754r/nextafterd32.c'],
      [{'name': 'add or subtract the smallest subnormal in a directed rounding mode', 'where': 'ieee754r/nextafterd32.c'}],
      ph('basic.cc', ['next'], 30 * M, 6 * M), RULE + 'Non-trivial: finite operand(s).',
      'Exploration against an exact successor function.')

check('C19', 'fmax/fmin, fmaxmag/fminmag and fdim follow TS 18661-2',
      'For all operands fmax, fmin, fmaxmag and fminmag return one of their operands: the larger or smaller by value or by magnitude (ties in magnitude resolved by value), the other operand when exactly one is a quiet NaN. fdim returns the correctly rounded positive difference, or +0.',
      ['inputs', 'configurations'], 'every pair of operands of each format, all 5 rounding modes for fdim',
      'Tests compare literals; near-equal values with different exponents, signs and NaN combinations are not covered.',
      ['ieee754r/fmaxd64.c', 'ieee754r/fmind128.c', 'ieee754r/fmaxmagd64.c', 'ieee754r/fminmagd128.c', 'ieee754r/fdimd64.c', 'ieee754r/fmaxmagd32.c', 'libdecnumber/decNumber.c'],
      [{'name': 'NaN screening then ordered comparison', 'where': 'ieee754r/fmaxd64.c, ieee754r/fmaxmagd64.c'}],
      ph('basic.cc', ['minmax'], 30 * M, 6 * M), RULE + 'Non-trivial: both operands finite, or one NaN.',
      'Exploration against exact comparison and exact arithmetic.')

check('C29', 'Binary <-> decimal floating conversions within one ulp, exact when small',
      'Conversions between each decimal format and float, double, long double and _Float128 return a value within one unit in the last place of the exact value, with the right sign, exact in round-to-nearest when the value is representable in the target, infinite exactly on overflow or infinite operands and NaN exactly for NaN operands.',
      ['inputs', 'configurations'], 'every operand of every binary and (canonical) decimal format in either direction',
      'Tests convert a few literals; powers of two against powers of ten, subnormal and overflow ranges are not covered.',
      ['base-math/truncddsf.c', 'base-math/extendsfdd.c', 'sysdeps/generic/convert_helpers.h', 'libbid/_td_to_df.c', 'libbid/_df_to_td.c'],
      [{'name': 'binary/decimal conversion of the BID runtime', 'where': 'libbid/_df_to_td.c, libbid/_td_to_df.c'}],
      ph('conv.cc', ['bin'], 2 * M, 0), 'Binary operands of all exponents, biased to the decimal format limits and to values that came from decimals; decimal operands likewise. Non-trivial: a non-zero finite operand.',
      'Exploration against exact big-integer arithmetic with one ulp of slack. The conversion kernels are libgcc code outside this repository; only the wiring is libdfp.')

NUMSTR = 'Strings are built from digit patterns (all nines, ties, sticky digits up to 500 places away, leading and trailing zeros), with the point placed anywhere and exponents aimed at the format limits, or huge. '
check('C06', 'strtod32/64/128 round decimal strings correctly and only once',
      'For every numeric string, strtodN returns its exact value correctly rounded in the current decimal rounding mode, whatever the number of digits, the position of the point or the size of the exponent. A value that fits keeps the exponent as written (1.50 stays 150E-2). Overflow sets ERANGE; values below the normal range written with digits the format cannot hold are flushed to a zero of their sign or rounded, a nonzero string never becoming zero without ERANGE.',
      ['inputs', 'configurations'], 'every numeric string, each format, all 5 rounding modes',
      'The tests parse about 60 literals; double rounding and sticky digits need particular long strings.',
      ['stdlib/strtod32.c', 'stdlib/strtod64.c', 'stdlib/strtod128.c', 'sysdeps/soft-dfp/bid/numdigits.h'],
      [{'name': 'accumulate digits, one rounding addition, set the exponent', 'where': 'stdlib/strtod32.c FUNCTION_L_INTERNAL'}],
      ph('parse.cc', ['round'], 5 * M, 1 * M), NUMSTR + 'Non-trivial: the value is not zero.',
      'Exploration against exact arithmetic on the digit string. Flush to zero below the normal range is what the shipped tests pin, so it is accepted there.')

check('C07', 'strtod/wcstod: accepted syntax, end pointer, errno, wide = narrow',
      'For every string, strtodN and wcstodN recognise the longest prefix that C defines (white space, sign, digits with one point, exponent only when complete, inf/infinity, nan and nan(chars), in any case), return its value and set the end pointer just after it, or return +0 with the end pointer at the start when there is none. A null end pointer changes nothing else. errno is touched only for range errors. The letters of inf and nan are recognised in every locale. The wide functions give the same results as the narrow ones, correctly rounded.',
      ['inputs', 'configurations'], 'every narrow or wide string, each format, all 5 rounding modes, two LC_CTYPE locales',
      'The tests have few malformed strings and hardly any wide ones; prefixes, partial exponents and embedded garbage form an unbounded space.',
      ['stdlib/strtod32.c', 'stdlib/wcstod32.c', 'stdlib/wcstod64.c', 'stdlib/wcstod128.c', 'stdlib/strtod64.c'],
      [{'name': 'hand-written scanner shared by narrow and wide through macros', 'where': 'stdlib/strtod32.c'}],
      ph('parse.cc', ['syntax'], 3 * M, 1 * M, pre='narrow-') + ph('parse.cc', ['wide'], 2 * M, 1 * M, pre='wide-') + ph('parse.cc', ['turkish'], 600000, 0, pre='Turkish-'),
      NUMSTR + 'Syntax cases splice and mutate pieces such as "inf", "nan(12", "1e+", "..", "0x1p3". Non-trivial: text is left over, or inf/nan, or no number, and for wide rounding cases a non-zero value.',
      'Exploration against a reference scanner, in the C locale and with a Turkish LC_CTYPE (where the lower case of I is not i).')

PRINTGEN = 'Operands with exponents aimed at the point position, precisions aimed at dropping 0..n digits, dropped parts biased to ties, nines and a single sticky digit. '
check('C08', 'printf and strfrom print the digits of the correctly rounded value',
      'For every value, conversion (f, e, g, a and upper case) and precision, the printf family with H, D or DD and strfromN print the exact decimal value, rounded once in the current decimal rounding mode to the requested precision. %g chooses its style from the exponent after rounding, and %a follows TS 18661-2, so that all digits including trailing zeros appear and the quantum is kept.',
      ['inputs', 'configurations'], 'every operand of each format, 8 conversion letters, every precision, all 5 rounding modes',
      'The tests compare about 250 literal outputs, nearly all in the default rounding mode; carries, ties, and sticky digits at each precision are a vast space.',
      ['printf-hooks/printf_dfp.c', 'stdlib/strfromd32.c', 'sysdeps/bid/bid-private.c', 'sysdeps/soft-dfp/bid/numdigits.h'],
      [{'name': 'rounding of the digit buffer at the position the precision selects', 'where': 'printf-hooks/printf_dfp.c __printf_dfp'}, {'name': 'digits of a BID encoding', 'where': 'sysdeps/bid/bid-private.c __get_digits_d32/64/128'}],
      ph('print.cc', ['digits'], 3 * M, 1 * M), PRINTGEN + 'Non-trivial: finite and not zero.',
      'Exploration against a reference formatter on digit strings. Precision 0 of %a acts as 1, as the shipped tests pin.')

check('C09', 'printf: flags, width, return value, truncation, locale, wide = narrow',
      'Flags (- + space # 0 and \'), field width, the printing of zeros, infinities and NaNs, and the returned count follow C for the printf and wprintf families. snprintf and strfromN with any buffer size n write at most n bytes, terminate when n > 0 and return the full length. A * width or precision, n$ positions, and any mix of decimals of the three formats with other arguments in one call of any printf entry point give the same text as the pieces printed alone. The decimal point, and with \' the grouping, come from the LC_NUMERIC locale, including multi-byte ones and unequal groups.',
      ['inputs', 'configurations'], 'every operand, flag set, width, precision, conversion, rounding mode, buffer size, and six locales (two of them made up)',
      'The tests use literal formats in the C locale; flag, width and truncation combinations are not covered.',
      ['printf-hooks/printf_dfp.c', 'stdlib/strfromd32.c', 'printf-hooks/init_dfp.c'],
      [{'name': 'width bookkeeping separate from output', 'where': 'printf-hooks/printf_dfp.c'}],
      ph('print.cc', ['layout'], 1200000, 200000, pre='C-locale-') + ph('print.cc', ['locale'], 500000, 0, pre='locales-'),
      PRINTGEN + 'Random flag sets, widths up to 299, buffer sizes from 0 to 3 more than the output. mixed: one call of one of ten entry points (printf to strings, memory, files, a descriptor; narrow and wide) with up to 14 arguments, nine of them decimals, in order or by n$. star: width and precision from int arguments of either sign. Non-trivial: a flag or width is given, the operand is special, the output is truncated, or two decimals share a call.',
      'Exploration against a reference formatter. Field width with multi-byte separators is not checked in narrow output (C leaves open bytes or characters).',
      technique='property-based testing: structured random + coverage-guided generation against a reference formatter')

check('C10', 'Printing then reading back gives the same value, %a the same encoding',
      'For every finite or infinite value, strtodN of its %a or strfromN("%a") output gives back the identical canonical encoding (same quantum), in any rounding mode and locale, narrow or wide; %e with p-1 decimals and %f with enough decimals give back the same value. NaN reads back as NaN.',
      ['inputs', 'configurations'], 'every operand of each format, all 5 rounding modes for printing and for reading, seven locales',
      'No test does a round trip over generated values.',
      ['printf-hooks/printf_dfp.c', 'stdlib/strfromd32.c', 'stdlib/strtod32.c', 'stdlib/wcstod32.c'],
      [{'name': '%a presentation per (s, c, q)', 'where': 'printf-hooks/printf_dfp.c'}, {'name': 'exponent kept as written', 'where': 'stdlib/strtod32.c'}],
      ph('print.cc', ['trip'], 4 * M, 1 * M), RULE + 'Non-trivial: finite and not zero.',
      'Metamorphic exploration (round trip). A subnormal printed with %e or %f may be flushed on reading (see C06).',
      technique='property-based testing: structured random + coverage-guided generation with a round-trip oracle')


MATHGEN = 'Arguments come from three sources: the structured operand generator; arguments at which something happens (results crossing powers of ten and the format limits, multiples of pi/4, zeros, poles, segment boundaries, powers of ten and two, values a chosen distance from them); random digits over the exponents where the function is neither trivial nor out of range. '
MATHNOTE = 'Exploration against MPFR at 500 to 1000 bits (or exact integers). The bounds in ulps are the measured accuracy with a margin; in the directed rounding modes, where the library\'s intermediate roundings drift to one side, they are wider. '
MATHTECH = 'property-based testing: structured random + coverage-guided generation against an arbitrary-precision oracle (MPFR)'
def math(pid, group, title, statement, over, why, files, mech, quick, cov, rule, note='', tech=MATHTECH):
    check(pid, title, statement, ['inputs', 'configurations'], over, why, files, mech, ph('math.cc', [group], quick, cov, variant='plain'), MATHGEN + rule, MATHNOTE + note, technique=tech)


math('C20', 'mod', 'fmod, remainder and modf are exact',
     'For all finite x and non-zero y, fmod and remainder return exactly x - n*y, with n the quotient truncated or rounded to nearest-even, however large the quotient; modf splits x exactly into integral and fractional parts. A zero result has the sign of x; fmod or remainder of an infinite x or by zero is a NaN with EDOM.',
     'every pair of operands of each format, all 5 rounding modes', 'The quotient can have up to 12000 digits; tests have small literal quotients.',
     ['ieee754r/fmodd64.c', 'ieee754r/fmodd128.c', 'ieee754r/remainderd32.c', 'ieee754r/modfd32.c', 'libbid/bid64_rem.c', 'libdecnumber/decNumber.c'],
     [{'name': 'remainder with an integer quotient of any length', 'where': 'ieee754r/remainderd32.c'}], 2 * M, 60000, 'Non-trivial: both operands and the result are finite and not zero (modf: both parts not zero).',
     'Known findings: fmod by an infinity is a NaN and fmod of a NaN sets EDOM, as the repository\'s own tests require.', tech='property-based testing: structured random + coverage-guided generation against an exact reference model')

math('C21', 'root', 'fma and sqrt are correctly rounded; cbrt and hypot within 2 ulp',
     'fma and sqrt return the exact result rounded once in the current decimal rounding mode, for all operands, including subnormal results, overflow and special operands; sqrt of a negative number is a NaN with EDOM. cbrt is within 1 ulp and hypot within 2 ulp of the exact value without spurious overflow or underflow, hypot(x, 0) = |x| and hypot of an infinity is +infinity.',
     'every operand, pair or triple of operands of each format, all 5 rounding modes', 'Double rounding, cancellation of the product against the addend and distant exponents need constructed operands.',
     ['ieee754r/fmad32.c', 'ieee754r/sqrtd32.c', 'ieee754r/sqrtd64.c', 'ieee754r/cbrtd64.c', 'ieee754r/cbrtd128.c', 'ieee754r/hypotd32.c', 'libdecnumber/decNumber.c'],
     [{'name': 'exact sum of product and addend, one rounding', 'where': 'ieee754r/fmad32.c'}, {'name': 'decNumber square root', 'where': 'libdecnumber/decNumber.c'}], 5 * M, 200000, 'Non-trivial: finite non-zero operands and a finite result.')

math('C22', 'explog', 'exp, exp2, expm1, log, log2, log10, log1p are accurate for every argument',
     'Over their whole domain exp, exp2, expm1, log, log2, log10 and log1p of each format are within a few ulps of the true value (1 ulp for most; 2 for logd128, 20 for expd64, 5 for log2), also next to 0 and 1, for subnormal arguments and results, and up to the overflow and underflow thresholds. Results outside the range are infinity with ERANGE or a zero of the right sign.',
     'every operand of each format, all 5 rounding modes', 'Table entries, series and range reduction cover the real line; one bad digit in a table or one bad segment shows only for arguments that use it.',
     ['ieee754r/expd64.c', 'ieee754r/expd128.c', 'ieee754r/logd64.c', 'ieee754r/logd128.c', 'ieee754r/ddlogtbls.h', 'ieee754r/decexptables.c', 'ieee754r/exp2d32.c', 'ieee754r/expm1d32.c', 'ieee754r/log1pd32.c', 'ieee754r/log2d32.c', 'ieee754r/log10d32.c'],
     [{'name': 'table of exp(n) and ln(n/100) with a polynomial in the remainder', 'where': 'ieee754r/expd64.c, ieee754r/logd64.c, ieee754r/ddlogtbls.h'}], 1500000, 50000, 'Non-trivial: the argument is not a NaN.')

math('C23', 'pow', 'pow is accurate, keeps signs and handles all special operands',
     'For all x and y, pow(x, y) is within 1 ulp (30 ulps for _Decimal64) of the true power to nearest, negative for negative x and odd y, a NaN with EDOM for finite negative x and non-integral y, and follows C for zeros, ones, infinities and NaNs. Overflow gives an infinity with ERANGE, underflow a zero or subnormal of the right sign.',
     'every pair of operands of each format, all 5 rounding modes', 'Parity of large exponents, bases near one with huge exponents, results at the range limits: a two-dimensional space sampled by a few literals.',
     ['ieee754r/powd32.c', 'ieee754r/powd64.c', 'ieee754r/powd128.c', 'libdecnumber/decNumber.c'],
     [{'name': 'extended-precision log and exp', 'where': 'ieee754r/powd64.c'}, {'name': 'parity of the exponent', 'where': 'ieee754r/powd64.c, ieee754r/powd128.c'}], 1200000, 80000, 'Bases and exponents are also chosen so that the power lands at a chosen point of the exponent range. Non-trivial: no NaN operand.')

math('C24', 'trig', 'sin, cos, tan and their inverses are accurate for every argument',
     'For arguments below 1E60 in magnitude sin, cos and tan of each format are within 1 ulp of the true value of the decimal argument (an absolute error of 1E-72 times the argument is allowed), and for all arguments asin, acos, atan and atan2 are within 1 ulp (asind128, acosd128, atan2 8), with the right quadrant and sign. Out-of-domain arguments and infinities give a NaN with EDOM.',
     'every operand of each format (atan2: every pair), all 5 rounding modes', 'Argument reduction is exercised only by large arguments and arguments near multiples of pi/2, which tests with small literals do not reach.',
     ['ieee754r/sind32.c', 'ieee754r/cosd32.c', 'ieee754r/tand32.c', 'ieee754r/asind32.c', 'ieee754r/asind128.c', 'ieee754r/acosd32.c', 'ieee754r/atand32.c', 'ieee754r/atan2d32.c', 'decNumberMath/decNumberMath.c'],
     [{'name': 'argument reduction by a long constant pi', 'where': 'decNumberMath/decNumberMath.c'}], 500000, 25000, 'Non-trivial: the argument is not a NaN.', 'Known finding: sin, cos and tan of arguments of 1E60 and more have no correct digits.')

math('C25', 'hyp', 'Hyperbolic functions and their inverses are accurate for every argument',
     'Over their whole domain sinh, cosh, tanh, asinh, acosh and atanh of each format are within 1 ulp of the true value in the default rounding mode, also for tiny arguments, next to the domain edges and up to overflow. Out-of-domain arguments give a NaN with EDOM, poles and overflow an infinity with ERANGE.',
     'every operand of each format, all 5 rounding modes', 'Cancellation for small arguments and next to the domain edges is not sampled by the tests.',
     ['ieee754r/sinhd32.c', 'ieee754r/coshd32.c', 'ieee754r/tanhd32.c', 'ieee754r/asinhd32.c', 'ieee754r/acoshd32.c', 'ieee754r/atanhd32.c', 'decNumberMath/decNumberMath.c'],
     [{'name': 'exponential formulas with extra digits', 'where': 'decNumberMath/decNumberMath.c'}], 500000, 25000, 'Non-trivial: the argument is not a NaN.')

math('C26', 'gamma', 'erf, erfc, tgamma and lgamma are accurate for every argument',
     'Over their whole domain erf, erfc and lgamma of each format and tgamma of _Decimal32/64 are within the stated few ulps of the true value (erf 12, erfc 20, tgamma 1, lgamma 40; lgamma near its negative zeros in absolute error), tgammad128 within 200 ulps plus the error of its exponential. Poles give an infinity (tgamma of negative integers a NaN with EDOM), overflow an infinity with ERANGE.',
     'every operand of each format, all 5 rounding modes', 'The functions are pieced together from a dozen rational approximations; each is used only on its own interval.',
     ['ieee754r/erfd32.c', 'ieee754r/tgammad32.c', 'ieee754r/lgammad32.c'],
     [{'name': 'rational approximations per interval', 'where': 'ieee754r/erfd32.c, ieee754r/lgammad32.c'}, {'name': 'reflection for negative arguments', 'where': 'ieee754r/lgammad32.c'}], 700000, 50000, 'Non-trivial: the argument is not a NaN.')

math('C27', 'special', 'Math functions: special operands, domain, pole and range errors',
     'For operands that are zeros, infinities, NaNs, at or just beyond the edge of a domain, integers, the smallest or the largest numbers, every math function returns what C Annex F prescribes (NaN, signed infinity, signed zero or value) and sets errno to EDOM for domain errors, ERANGE for poles and overflow, and to nothing for results in range and for NaN operands.',
     'special and boundary operands of 28 functions of each format, all 5 rounding modes', 'The special values of 84 functions times five rounding modes are only partly listed in the tests, and errno rarely.',
     ['ieee754r/expd64.c', 'ieee754r/logd128.c', 'ieee754r/powd64.c', 'ieee754r/tgammad32.c', 'ieee754r/atan2d32.c', 'ieee754r/remainderd32.c', 'ieee754r/acoshd32.c', 'include/dfpmacro.h'],
     [{'name': 'errno wrapper around each function', 'where': 'ieee754r/*.c INTERNAL_FUNCTION_NAME'}], 1500000, 50000, 'Operands are then replaced, with probability two thirds, by special and boundary values. Non-trivial: no NaN operand.')

check('C30', 'No call reads or writes outside its objects, or fails to return',
      'For any bit patterns as operands, any integer argument, any string and any buffer size, every call of the library returns and touches only its own objects: no read or write outside the objects passed, no overrun of internal buffers, no division by zero, null access or array index out of range. snprintf, swprintf and strfrom write at most the given number of characters, end the text within them and return the full length; strtod and wcstod do not look past the terminator.',
      ['inputs', 'configurations'], 'every function, operator, conversion, printing and reading call with arbitrary arguments; widths and precisions to 12000; buffers of any size',
      'Tests run without sanitizers, on well-formed input and with ample buffers.',
      ['printf-hooks/printf_dfp.c', 'printf-hooks/fmt_d32.c', 'stdlib/strtod32.c', 'decNumberMath/decNumberMath.c', 'libdecnumber/decNumber.c', 'ieee754r/decexptables.c', 'libbid/bid_round.c', 'libdecnumber/bid/bid2dpd_dpd2bid.c', 'dfp/decimal/decimal'],
      [{'name': 'fixed-size digit and text buffers', 'where': 'printf-hooks/printf_dfp.c, stdlib/strtod32.c'}, {'name': 'table lookups indexed by exponent or digit count', 'where': 'ieee754r/decexptables.c, libbid/bid_decimal_data.c'}],
      ph('safe.cc', ['safe'], 6 * M // 10, 2 * M // 10, variant='asan', covvariant='asan')
      + ph('print.cc', ['layout', '--crash-only'], 1 * M // 10, 0, variant='asan', pre='print-')
      + ph('parse.cc', ['syntax', '--crash-only'], 3 * M // 10, 0, variant='asan', pre='parse-')
      + ph('streams.cc', ['streams', '--crash-only'], 2 * M // 10, 0, variant='asan', pre='streams-'),
      'Calls with structured and with uniformly random operand bits and extreme integers; text made of numbers, words, rubbish and runs of thousands of characters in exactly sized blocks; printing into exactly sized blocks. Non-trivial: every call; for reading, text that starts with a number.',
      'Exploration under AddressSanitizer and UndefinedBehaviorSanitizer with canaries and a watchdog. Shifts, signed overflow and misaligned access, which the BID code uses throughout, are not judged.',
      technique='fuzzing: structured random and coverage-guided generation against an AddressSanitizer/UndefinedBehaviorSanitizer build')

check('C35', 'No call keeps memory: what it allocates it frees',
      'Every block of memory that a call of the library allocates (function, operator, conversion, printing, reading, with any arguments) is freed when it returns, so that a program can make any number of calls.',
      ['inputs', 'histories'], 'every function, operator, conversion, printing and reading call with arbitrary arguments, with a current locale that is not C (so that locale objects are allocated)',
      'No test counts allocations; the blocks are allocated only for some arguments (long intermediate results, locales other than C) and each early return has its own clean-up.',
      ['libdecnumber/decNumber.c', 'stdlib/strtod32.c', 'stdlib/strfromd32.c', 'printf-hooks/printf_dfp.c'],
      [{'name': 'allocation and clean-up of temporary numbers', 'where': 'libdecnumber/decNumber.c decLnOp, decExpOp, decMultiplyOp, decNumberPower'}, {'name': 'locale objects on each return', 'where': 'stdlib/strtod32.c'}],
      ph('safe.cc', ['kept'], 1500000, 0),
      'The calls, texts and formats of C30. malloc, calloc, realloc and free count what this thread holds; a call that leaves blocks is made six more times, and each must leave blocks again. Non-trivial: the call allocates.',
      'Exploration with counting allocation functions.',
      technique='property-based testing: structured random generation with an allocation-balance invariant')

check('C32', 'sqrt, fma, remainder, scaling and others keep the preferred exponent',
      'A non-zero result of sqrt, fma, remainder, fdim, modf, frexp, logb, ldexp, scalbn, scalbln, nextup, nextdown, fabs or copysign that is exact has the preferred quantum exponent of IEEE 754-2008 and TS 18661-2 (or the nearest one that can represent it), and one that is rounded has the smallest possible exponent. fmax, fmin, fmaxmag and fminmag return an operand with its exponent unchanged.',
      ['inputs', 'configurations'], 'every operand, pair or triple of finite operands of each format, all 5 rounding modes',
      'Tests compare values, under which 1.0 and 1.00 are equal.',
      ['ieee754r/sqrtd32.c', 'ieee754r/fmad32.c', 'ieee754r/remainderd32.c', 'ieee754r/fdimd32.c', 'ieee754r/modfd32.c', 'ieee754r/scalbnd32.c', 'ieee754r/ldexpd32.c', 'libdecnumber/decNumber.c'],
      [{'name': 'ideal exponent of exact results', 'where': 'libdecnumber/decNumber.c'}, {'name': 'conversion of a decNumber to the format', 'where': 'libdecnumber/decimal32.c'}],
      ph('quant.cc', ['quant'], 12 * M, 2 * M), RULE + 'Non-trivial: a result that is not a special value (fmax and fmin: operands with different exponents).',
      'Exploration against the exponent the exact model predicts; the value itself is judged by the other properties.')

check('C33', 'The decNumber engine computes as its specification says',
      'For all operands of at most the working precision, in every context (precision 3 to 120, any exponent range, eight rounding modes, with and without clamping), the decNumber operations that the math functions, printing and conversions are built on give the result and raise the conditions that the General Decimal Arithmetic Specification prescribes; exp, ln, log10 and power within one unit in the last place.',
      ['inputs', 'configurations'], 'finite and special operands, contexts and in-place use of 50 decNumber operations and of text conversion',
      'The tests reach the engine only through the precisions 7, 16 and 34 and a few operands.',
      ['libdecnumber/decNumber.c', 'libdecnumber/decContext.c', 'libdecnumber/decNumberLocal.h'],
      [{'name': 'arithmetic on units of decimal digits with residue rounding', 'where': 'libdecnumber/decNumber.c decAddOp, decMultiplyOp, decDivideOp, decCopyFit, decFinalize'}],
      ph('engine.py', [], 2500000, 0, variant='plain'), 'Contexts of the three formats and random ones; operands of digit patterns with exponents near those of the other operand, of the precision and of the exponent limits; NaNs with payloads and infinities; results in place of an operand. Non-trivial: all operands finite.',
      'Exploration against libmpdec (the decimal module of Python), an independent implementation of the same specification. Excluded, as limits of the engine which libdfp does not run into: sums and fused sums of operands longer than the precision, power of a subnormal base to a negative exponent, of a negative base to exponents of 1E9 and more, and of an infinite base in place.',
      technique='differential property-based testing: structured random generation against libmpdec')

check('C28', 'All internal forms of a decimal stand for the same number',
      'decoded32/64/128 print exactly the sign, digits and exponent of the encoding. Turning an encoding into DPD, a decNumber, scientific or engineering text and back keeps sign, coefficient and exponent, including redundant DPD declets and non-canonical coefficients (zero); a decNumber or text of any length becomes an encoding by one correct rounding with the right conditions; digit counts, getting and setting of exponent and digits, and left-justification are exact.',
      ['inputs', 'configurations'], 'every encoding of each format in BID and in DPD, decNumbers and texts of up to 75 digits and any exponent, 5 rounding modes',
      'Tests look at about a hundred literals; declet tables have 1024 entries each way and each format has its own bit layout.',
      ['libdecnumber/bid/bid2dpd_dpd2bid.c', 'libdecnumber/bid/decimal32.c', 'libdecnumber/bid/decimal64.c', 'libdecnumber/bid/decimal128.c', 'libdecnumber/dpd/decimal64.c', 'libdecnumber/decDPD.h', 'sysdeps/bid/decode.c', 'sysdeps/soft-dfp/bid/numdigits.h', 'sysdeps/bid/bid-private.h'],
      [{'name': 'declet tables and bit layout of the combination field', 'where': 'libdecnumber/bid/bid2dpd_dpd2bid.c, libdecnumber/dpd/decimal128.c'}, {'name': 'digit helpers', 'where': 'sysdeps/soft-dfp/bid/numdigits.h'}],
      ph('decnum.cc', ['decnum'], 12 * M, 2 * M), 'Encodings from the operand generator and uniformly random DPD bits with many eights and nines; digit strings at rounding boundaries with exponents at the limits of the format. Non-trivial: finite and not zero.',
      'Exploration against a codec written from the tables of IEEE 754-2008 and exact rounding. NaN payloads are carried as bits and only their kind and sign are compared.')

check('C34', 'The floating exceptions raised agree with the result',
      'In every rounding mode, a call that returns a NaN from operands that are not NaNs raises FE_INVALID, an infinity at a pole FE_DIVBYZERO, an infinity by overflow FE_OVERFLOW, and any other result none of the three. rint and lrint raise FE_INEXACT exactly when the operand is not integral; ceil, floor, trunc, round and nearbyint never do; comparisons, classification, copysign and the like raise nothing. No call clears an exception raised before.',
      ['inputs', 'configurations'], 'operands of each format except signalling NaNs, all 5 rounding modes; library functions with an exception interface (the arithmetic operators have none)',
      'Tests check the exceptions of a few functions at a few operands, and never that an exception stays away.',
      ['include/dfpmacro.h', 'ieee754r/expd64.c', 'ieee754r/logd128.c', 'ieee754r/tand32.c', 'ieee754r/ldexpd32.c', 'ieee754r/rintd128.c', 'ieee754r/nextafterd32.c', 'ieee754r/fmad32.c', 'ieee754r/remainderd32.c', 'dfp/math.h'],
      [{'name': 'exception next to errno in each wrapper', 'where': 'ieee754r/*.c INTERNAL_FUNCTION_NAME, include/dfpmacro.h DFP_EXCEPT'}],
      ph('basic.cc', ['flags'], 30 * M, 4 * M) + ph('math.cc', ['flags'], 250000, 0, pre='math-'),
      RULE + 'Half of the calls are repeated with all exceptions raised before. Non-trivial: an exception is expected, or no operand is a NaN.',
      'Exploration. Which exception is due follows from operands and exact result. FE_UNDERFLOW is judged for ldexp only, FE_INEXACT for the rounding functions only, and the exceptions of ilogb and llogb of zeros, infinities and NaNs are not specified.')
