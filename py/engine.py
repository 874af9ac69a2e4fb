#!/usr/bin/env python3
"""decNumber, the arithmetic engine inside libdfp, against Python's decimal
module (libmpdec): an independent implementation of the same specification."""
import argparse, ctypes, decimal, json, multiprocessing, os, random, signal, sys, time
from decimal import Decimal as D

ap = argparse.ArgumentParser()
ap.add_argument('--lib'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--cases', type=int, default=100000)
ap.add_argument('--workers', type=int, default=8); ap.add_argument('--known'); ap.add_argument('--out'); ap.add_argument('--cap', type=float, default=600)
ap.add_argument('--replay', nargs=2); ap.add_argument('--survey', type=int, default=0); ap.add_argument('--only')
A = ap.parse_args()
ND = 1516


class SNum(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int32), ('neg', ctypes.c_int32), ('exp', ctypes.c_int32), ('nd', ctypes.c_int32), ('d', ctypes.c_char * ND)]


class SCtx(ctypes.Structure):
    _fields_ = [('prec', ctypes.c_int32), ('emax', ctypes.c_int32), ('emin', ctypes.c_int32), ('round', ctypes.c_int32), ('clamp', ctypes.c_int32), ('status', ctypes.c_uint32)]


L = ctypes.CDLL(A.lib + '/shim_dec.so')
MODES = [decimal.ROUND_CEILING, decimal.ROUND_UP, decimal.ROUND_HALF_UP, decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_DOWN, decimal.ROUND_DOWN, decimal.ROUND_FLOOR, decimal.ROUND_05UP]
FLAGS = [(decimal.InvalidOperation, 0x01 | 0x04 | 0x08 | 0x40 | 0x80), (decimal.DivisionByZero, 2), (decimal.Inexact, 0x20), (decimal.Overflow, 0x200), (decimal.Clamped, 0x400), (decimal.Rounded, 0x800), (decimal.Subnormal, 0x1000), (decimal.Underflow, 0x2000)]


def snum(x, s=None):
    s = s or SNum()
    t = x.as_tuple()
    s.neg = t.sign; s.kind = 0; s.exp = 0
    dg = bytes(48 + c for c in t.digits) or b'0'
    if t.exponent == 'F':
        s.kind = 1; dg = b'0'
    elif t.exponent == 'n':
        s.kind = 2
    elif t.exponent == 'N':
        s.kind = 3
    else:
        s.exp = t.exponent
    dg = dg.lstrip(b'0') or b'0'
    s.nd = len(dg); s.d = dg
    return s


def dec(s):
    if s.kind == 9:
        return None
    g = s.d[:s.nd] if s.nd <= len(s.d) else s.d
    dg = tuple(c - 48 for c in g)
    if s.kind == 1:
        return D((s.neg, (0,), 'F'))
    if s.kind == 2:
        return D((s.neg, dg if dg != (0,) else (), 'n'))
    if s.kind == 3:
        return D((s.neg, dg if dg != (0,) else (), 'N'))
    return D((s.neg, dg, s.exp))


CLS = ['sNaN', 'NaN', '-Infinity', '-Normal', '-Subnormal', '-Zero', '+Zero', '+Subnormal', '+Normal', '+Infinity']
ONE = {'abs': 'abs', 'exp': 'exp', 'invert': 'logical_invert', 'ln': 'ln', 'logb': 'logb', 'log10': 'log10', 'minus': 'minus', 'normalize': 'normalize', 'plus': 'plus', 'reduce': 'normalize',
       'squareroot': 'sqrt', 'tointegralexact': 'to_integral_exact', 'tointegral': 'to_integral_value', 'nextminus': 'next_minus', 'nextplus': 'next_plus', 'copyabs': 'copy_abs', 'copynegate': 'copy_negate', 'copy': 'copy_decimal'}
TWO = {'add': 'add', 'and': 'logical_and', 'compare': 'compare', 'comparesig': 'compare_signal', 'comparetotal': 'compare_total', 'comparetotalmag': 'compare_total_mag', 'divide': 'divide', 'divideint': 'divide_int',
       'max': 'max', 'maxmag': 'max_mag', 'min': 'min', 'minmag': 'min_mag', 'multiply': 'multiply', 'or': 'logical_or', 'power': 'power', 'quantize': 'quantize', 'remainder': 'remainder', 'remaindernear': 'remainder_near',
       'rotate': 'rotate', 'scaleb': 'scaleb', 'shift': 'shift', 'subtract': 'subtract', 'xor': 'logical_xor', 'nexttoward': 'next_toward', 'copysign': 'copy_sign'}
SPECIAL1 = ['isnormal', 'issubnormal', 'class', 'toint', 'touint', 'bcd', 'trim', 'fromstring', 'tostring']
SPECIAL2 = ['samequantum', 'rescale']
WIDE = {'multiply', 'divide', 'plus', 'minus', 'abs', 'compare', 'copy', 'bcd', 'tostring', 'class', 'copyabs', 'copynegate', 'samequantum', 'max', 'min'}
LOOSE = {'exp', 'ln', 'log10', 'power'}       # documented as within one unit in the last place
OPS = sorted(ONE) + sorted(TWO) + SPECIAL1 + SPECIAL2 + ['fma']
WEIGHT = {'add': 4, 'subtract': 4, 'multiply': 4, 'divide': 5, 'quantize': 3, 'squareroot': 3, 'fma': 4, 'plus': 3, 'compare': 2, 'remainder': 2, 'tointegral': 2, 'fromstring': 2, 'tostring': 2, 'power': 2}


# ---- generation
def digits(r, n):
    k = r.randrange(8)
    if k == 0:
        s = '9' * n
    elif k == 1:
        s = '1' + '0' * (n - 1)
    elif k == 2:
        m = r.randint(0, n); s = '9' * m + '0' * (n - m)
    elif k == 3:
        m = r.randint(0, n); s = ''.join(r.choice('0123456789') for _ in range(m)) + r.choice(['5', '4', '49', '50', '51', '99', '0']) + r.choice('0009') * max(0, n - m)
    elif k == 4:
        s = ''.join(r.choice('01') for _ in range(n))
    elif k == 5:
        s = ''.join(r.choice('000000001234567899999') for _ in range(n))
    else:
        s = ''.join(r.choice('0123456789') for _ in range(n))
    return s[:max(n, 1)].lstrip('0') or r.choice(['0', '1', '5', '7'])


def context(r, op):
    """[digits, emax, emin, rounding, clamp]; the three formats, and others with room for their digits"""
    if r.random() < .5:
        prec, emax = r.choice([(7, 96), (16, 384), (34, 6144)])
    else:
        prec = r.choice([3, 4, 5, 7, 9, 16, 34, r.randint(3, 12), r.randint(3, 60), r.randint(3, 120)])
        if op in LOOSE:
            prec = min(prec, 50)
        emax = prec + r.choice([r.randint(0, 6), r.randint(0, 60), r.randint(0, 400), 6144])
        if op in LOOSE:      # with fewer exponents than digits ln near 1 is subnormal, and the engine's ln does not end
            emax = max(emax, 3 * prec)
    return [prec, emax, 1 - emax, 3 if op in LOOSE else r.randrange(8), r.randrange(2)]


def fit(t, c):
    """the operand as a context of c's width holds it"""
    x = XC.create_decimal(t)
    return str(decimal.Context(prec=c[0], Emax=c[1], Emin=c[2], clamp=c[4], traps=[]).plus(x)) if x.is_finite() else t


def number(r, c, other=None, special=.07):
    if r.random() < special:
        s = r.choice(['Inf', 'NaN', 'NaN%d' % r.randint(1, 10 ** r.randint(1, 12)), 'sNaN', 'sNaN%d' % r.randint(1, 99)])
        if s.startswith('Na') or s.startswith('sN'):
            room = c[0] - c[4]
            p = s.lstrip('sNa')
            s = s[:len(s) - len(p)] + (p[:max(room, 0)].lstrip('0') or '')
        return r.choice(['', '-']) + s
    prec = c[0]
    n = r.choice([1, prec, prec, r.randint(1, prec), r.randint(1, 2 * prec + 2), r.randint(1, 8)])
    d = '0' if r.random() < .06 else digits(r, n)
    if other is not None and r.random() < .5 and other.is_finite():
        k = r.randrange(5)
        oe = other.as_tuple().exponent; on = len(other.as_tuple().digits)
        if k == 0:
            e = oe
        elif k == 1:
            e = oe + on - len(d) + r.randint(-1, 1)
        elif k == 2:
            e = oe + on - prec - len(d) + r.randint(-2, 2)
        elif k == 3:
            e = oe + prec + r.randint(-3, 3)
        else:
            d = ''.join(map(str, other.as_tuple().digits)); e = oe
            if r.random() < .6 and len(d) > 0:
                v = max(0, int(d) + r.randint(-1, 1)); d = str(v)
            elif len(d) < 80:
                z = r.randint(0, 4); d += '0' * z; e -= z
    else:
        k = r.randrange(8)
        if k < 3:
            e = r.randint(-len(d) - 3, 3)
        elif k == 3:
            e = c[1] - len(d) + 1 + r.randint(-2, 1)
        elif k == 4:
            e = c[2] - len(d) + 1 + r.randint(-prec - 1, 2)
        elif k == 5:
            e = c[2] - prec + 1 + r.randint(-2, 3)
        elif k == 6:
            e = r.randint(c[2], c[1])
        else:
            e = -len(d) + r.randint(-prec, prec)
    return r.choice(['', '-']) + d + 'E%d' % e


def text(r, c):
    if r.random() < .6:
        d = digits(r, r.randint(1, 2 * c[0] + 4)); p = r.randint(0, len(d))
        if r.random() < .3:
            d = '0' * r.randint(1, 5) + d
        s = r.choice(['', '-', '+']) + (d[:p] + '.' + d[p:] if r.random() < .6 else d)
        if r.random() < .6:
            s += r.choice('eE') + r.choice(['', '+', '-']) + str(r.choice([r.randint(0, 9), r.randint(0, 500), c[1] + r.randint(-5, 5), -c[2] + r.randint(-5, 80) if c[2] < 0 else 3, r.randint(0, 10 ** 12)]))
    else:
        s = r.choice(['', '-', '+']) + r.choice(['inf', 'Infinity', 'NAN', 'nan12', 'sNaN', 'snan3', 'INF', 'infinit', 'nan0', 'nan007', 'e', '.', '', '1e', '1e+', '..1', '1.2.3', '0x1', ' 1', '1 ', 'na', '--1', '00.00e5', '.e1', '1_0', 'nan1234567890123456789'])
    return s


def gen(r, op):
    c = context(r, op)
    if op in ('quantize', 'rescale'):
        c[4] = 1
    if op in ('logb', 'scaleb') and c[0] < 5:
        c[0] = 5; c[1] = max(c[1], 5); c[2] = 1 - c[1]
    if op == 'fromstring':
        return [op, c, [text(r, c)], 0]
    sp = .07
    if op in ('and', 'or', 'xor', 'invert'):
        def log():
            return r.choice(['', '', '', '-']) + ''.join(r.choice('01' if r.random() < .98 else '2') for _ in range(r.randint(1, c[0] + 2))) + r.choice(['', '', '', 'E1', 'E0'])
        a = [log() if r.random() < .95 else number(r, c) for _ in range(2)]
    elif op in ('exp',):
        a = [r.choice(['', '-']) + digits(r, r.randint(1, c[0])) + 'E%d' % r.randint(-c[0] - 6, 0) if r.random() < .9 else number(r, c)]
        x = D(a[0])
        if x.is_finite() and x.adjusted() > 4:
            a[0] = '-' * (x < 0) + str(x.as_tuple().digits[0])
    elif op == 'power':
        a = [number(r, c, None, .05), number(r, c, None, .05)]
        if r.random() < .9:
            a = [r.choice(['', '', '-']) + digits(r, r.randint(1, c[0])) + 'E%d' % r.randint(-c[0] - 2, 3), r.choice(['', '-']) + (str(r.randint(0, 60)) if r.random() < .6 else digits(r, r.randint(1, 6)) + 'E-%d' % r.randint(1, 6))]
        if a[0][0] == '-' and D(a[1]).is_finite() and D(a[1]).adjusted() >= 9:      # documented limit of the engine
            a[0] = a[0][1:]
    elif op in ('scaleb', 'shift', 'rotate', 'rescale'):
        b = str(r.randint(-c[0] - 1, c[0] + 1)) if op in ('shift', 'rotate') else str(r.choice([r.randint(-20, 20), r.randint(-2 * (c[1] + c[0]) - 2, 2 * (c[1] + c[0]) + 2), c[2] - c[0] + 1 + r.randint(-1, 1), c[1] - c[0] + 1 + r.randint(-1, 1)]))
        a = [number(r, c), b if r.random() < .93 else number(r, c)]
    else:
        a = [number(r, c, None, sp)]
        if op == 'fma':
            a.append(number(r, c, D(a[0])))
            p = D(a[0]), D(a[1])
            o = None
            if p[0].is_finite() and p[1].is_finite():
                o = D((0, (p[0].as_tuple().digits + p[1].as_tuple().digits), p[0].as_tuple().exponent + p[1].as_tuple().exponent))
            a.append(number(r, c, o))
        else:
            a.append(number(r, c, D(a[0]), sp))
        if op == 'toint' or op == 'touint':
            a[0] = str(r.choice([-2 ** 31, 2 ** 31, 2 ** 32, 0, 10 ** 9, 4 * 10 ** 9]) + r.randint(-3, 3)) + r.choice(['', '', '', 'E1', 'E-1', 'E0'])
    if op == 'fma':      # the product fits: a longer one is not added correctly, and libdfp does not ask for it
        t = [D(fit(z, c)) for z in a[:2]]
        if all(z.is_finite() for z in t):
            k = sum(len(z.as_tuple().digits) for z in t) - c[0]
            if k > 0:
                t = [D((z.as_tuple().sign, z.as_tuple().digits[:max(1, c[0] // 2)], z.as_tuple().exponent)) for z in t]
            a[:2] = [str(z) for z in t]
    if op == 'rescale' and D(a[1]).is_finite() and D(a[1]) > c[1] - c[0] + 1:
        a[1] = str(c[1] - c[0] + 1 - r.randint(0, 3))
    n = 3 if op == 'fma' else 2 if op in TWO or op in SPECIAL2 else 1
    if op not in WIDE or r.random() < .5:
        a = [fit(t, c) for t in a]
    elif op != 'tostring':
        a = [t if D(t).adjusted() <= c[1] or not D(t).is_finite() else fit(t, c) for t in a]
    if op == 'power' and not any(D(t).is_nan() for t in a[:2]):    # the engine's limits: an infinite base in place, 1 / subnormal, (-x) ** 1E+9
        if a[0][0] == '-' and (D(a[0]).is_infinite() or D(a[1]).is_finite() and D(a[1]).adjusted() >= 9):
            a[0] = a[0][1:]
        if D(a[0]).is_finite() and D(a[0]) and D(a[0]).adjusted() < c[2] and a[1][0] == '-':
            a[1] = a[1][1:]
    return [op, c, a[:n], r.choice([0, 0, 1, 2]) if op not in ('fma', 'tostring') else 0]


# ---- one case: (verdict, message, label)
BUF = [SNum() for _ in range(4)]
XC = decimal.Context(prec=decimal.MAX_PREC, Emax=decimal.MAX_EMAX, Emin=decimal.MIN_EMIN, traps=[])


def mkdec(s):
    return XC.create_decimal(s)


def rep(x):
    return 'an ill-formed number' if x is None else x if isinstance(x, str) else str(x)


def flagnames(m):
    return ' '.join(f.__name__ for f, b in FLAGS if m & b) or 'none'


def check(case):
    op, c, a, alias = case
    ctx = decimal.Context(prec=c[0], Emax=c[1], Emin=c[2], rounding=MODES[c[3]], clamp=c[4], capitals=1, traps=[], flags=[])
    sc = SCtx(c[0], c[1], c[2], c[3], c[4], 0)
    flags = True
    res = BUF[3]
    if op == 'fromstring':
        s = a[0]
        L.sd_fromstring(ctypes.byref(sc), s.encode(), ctypes.byref(res))
        got = dec(res)
        bad = s != s.strip() or '_' in s
        try:
            want = ctx.create_decimal('x' if bad else s)
        except decimal.InvalidOperation:
            want = D('NaN')
        if len(s) > 1000 or 'nan' in s.lower():   # payload handling differs on purpose (libmpdec rejects long payloads)
            flags = False
            if want.is_nan() and got is not None and got.is_nan():
                return 1, '', 'text NaN'
    else:
        x = [mkdec(t) for t in a]
        if any(len(t.as_tuple().digits) > 700 for t in x):
            return 2, '', ''
        for i, t in enumerate(x):
            snum(t, BUF[i])
        if op == 'tostring':
            o = ctypes.create_string_buffer(ND + 60)
            L.sd_tostring(ctypes.byref(BUF[0]), 0, o); g1 = o.value.decode()
            L.sd_tostring(ctypes.byref(BUF[0]), 1, o); g2 = o.value.decode()
            w1, w2 = str(x[0]), x[0].to_eng_string()
            if (g1, g2) != (w1, w2):
                return 0, 'to-string gives %s / %s, expected %s / %s' % (g1, g2, w1, w2), ''
            return 1, '', 'text'
        if op == 'fma':
            L.sd_fma(ctypes.byref(sc), ctypes.byref(BUF[0]), ctypes.byref(BUF[1]), ctypes.byref(BUF[2]), ctypes.byref(res))
        else:
            L.sd_op(IDX[op], ctypes.byref(sc), ctypes.byref(BUF[0]), ctypes.byref(BUF[min(1, len(x) - 1)]), alias, ctypes.byref(res))
        got = dec(res)
        if op == 'fma':
            want = ctx.fma(*x)
        elif op == 'copy':
            want = x[0]
        elif op == 'bcd':
            want = x[0]
        elif op in ONE:
            want = getattr(ctx, ONE[op])(x[0])
        elif op in TWO:
            want = getattr(ctx, TWO[op])(x[0], x[1])
        elif op == 'samequantum':
            want = D(int(x[0].same_quantum(x[1])))
        elif op == 'isnormal':
            want = D(int(x[0].is_normal(ctx)))
        elif op == 'issubnormal':
            want = D(int(x[0].is_subnormal(ctx)))
        elif op == 'class':
            want = D(CLS.index(x[0].number_class(ctx)))
        elif op in ('toint', 'touint'):
            t = x[0]; ok = t.is_finite() and t.as_tuple().exponent == 0 and len(t.as_tuple().digits) <= 10
            v = int(t) if ok else 0
            ok = ok and (-2 ** 31 <= v < 2 ** 31 if op == 'toint' else 0 <= v < 2 ** 32)
            want = D(v if ok else 0)
            if (sc.status != 0) == ok:
                return 0, 'status %s' % flagnames(sc.status), ''
            flags = False
        elif op == 'trim':
            want = x[0]
            if want.is_finite():
                t = want.as_tuple(); dg = list(t.digits); e = t.exponent
                if dg == [0]:
                    e = 0
                else:
                    while e and dg[-1] == 0:
                        dg.pop(); e += 1
                want = D((t.sign, tuple(dg), e))
        elif op == 'rescale':
            t = x[1]
            if x[0].is_nan() or t.is_nan():
                want = ctx.add(x[0], t); 
            elif x[0].is_infinite() or t.is_infinite():
                want = D(x[0]) if x[0].is_infinite() and t.is_infinite() else ctx.divide(D(0), D(0))
            elif t != t.to_integral_value() or abs(t) > 10 ** 7 or not (c[2] - c[0] + 1 <= int(t) <= c[1]):
                want = ctx.divide(D(0), D(0))
            else:
                want = ctx.quantize(x[0], D((0, (1,), int(t))))
    if got is None:
        return 0, 'ill-formed result', ''
    m = 0
    for f, b in FLAGS:
        if ctx.flags[f]:
            m |= b
    gm = 0
    for f, b in FLAGS:
        if sc.status & b:
            gm |= b
    same = got.compare_total(want, XC) == 0
    if not same and op in LOOSE and got.is_finite() and want.is_finite():
        u = D((0, (1,), max(max(t.adjusted() for t in (got, want) if t or t is got), c[2]) - c[0] + 1))
        if abs(XC.subtract(got, want)) <= u:
            return 1, '', op + ' within 1 ulp'
    label = op
    if not same:
        return 0, 'result %s, expected %s' % (rep(got), rep(want)), ''
    if flags and op not in LOOSE and m != gm:
        return 0, 'conditions raised: %s, expected: %s (result %s)' % (flagnames(gm), flagnames(m), rep(got)), ''
    triv = op != 'fromstring' and not all(t.is_finite() for t in x)
    return (3 if triv else 1), '', op


def show(case):
    op, c, a, alias = case
    return '%s(%s) prec=%d emax=%d emin=%d rounding=%s clamp=%d%s' % (op, ', '.join(a), c[0], c[1], c[2], MODES[c[3]], c[4], ' in place' if alias else '')


IDX = {o: L.sd_find(o.encode()) for o in OPS}


def shrink(case):
    best = case
    budget = 600

    def fails(k):
        nonlocal budget
        budget -= 1
        try:
            if k[0] not in WIDE and k[0] != 'fromstring' and any(fit(t, k[1]) != str(mkdec(t)) for t in k[2]):
                return False
            return check(k)[0] == 0
        except Exception:
            return False
    prog = True
    while prog and budget > 0:
        prog = False
        op, c, a, al = best
        cand = []
        if al:
            cand.append([op, c, a, 0])
        if op != 'fromstring':
            for i in range(len(a)):
                t = mkdec(a[i])
                if t.is_finite():
                    dg = ''.join(map(str, t.as_tuple().digits)); e = t.as_tuple().exponent; sg = '-' * t.as_tuple().sign
                    n = len(dg)
                    for k in ([dg[:n // 2], dg[n // 2:].lstrip('0'), dg[:-1], dg[1:].lstrip('0')] if n > 1 else []):
                        cand.append([op, c, a[:i] + [sg + (k or '0') + 'E%d' % e] + a[i + 1:], al])
                    for k in range(min(n, 40)):
                        if dg[k] not in '01' or k and dg[k] == '1':
                            cand.append([op, c, a[:i] + [sg + dg[:k] + ('0' if k else '1') + dg[k + 1:] + 'E%d' % e] + a[i + 1:], al])
                    if e:
                        cand.append([op, c, a[:i] + [sg + dg + 'E%d' % (e // 2 if e > 0 else -((-e) // 2))] + a[i + 1:], al])
                    if sg:
                        cand.append([op, c, a[:i] + [dg + 'E%d' % e] + a[i + 1:], al])
        else:
            s = a[0]
            cand += [[op, c, [s[:i] + s[i + 1:]], al] for i in range(len(s))]
        if c[3]:
            cand.append([op, c[:3] + [c[3] - 1] + c[4:], a, al])
        if c[0] > 3:
            cand.append([op, [c[0] - 1] + c[1:], a, al])
        for k in cand:
            if budget <= 0:
                break
            if fails(k):
                best = k; prog = True
                break
    return best


def worker(w, n, q, stop, now):
    r = random.Random(A.seed * 1000003 + w)
    bag = [o for o in OPS for _ in range(WEIGHT.get(o, 1)) if not A.only or A.only == o]
    st = {'e': 0, 'n': 0, 'k': 0, 'lab': {}, 'sub': {}, 'sam': [], 'fail': None}
    seen = set()
    t0 = time.time()
    cur = None
    try:
        for i in range(n):
            if i % 256 == 0 and (stop.is_set() or time.time() - t0 > A.cap):
                break
            op = r.choice(bag)
            cur = gen(r, op)
            now.value = json.dumps(cur).encode()[:4000]
            signal.alarm(30)
            v, msg, lab = check(cur)
            signal.alarm(0)
            if v == 2:
                st['k'] += 1
                continue
            st['e'] += 1
            st['sub'][op] = st['sub'].get(op, 0) + 1
            if v == 0:
                k = shrink(cur)
                st['fail'] = {'sub': 'engine', 'case': json.dumps(k), 'show': show(k), 'msg': check(k)[1]}
                stop.set()
                break
            if v == 1:
                st['n'] += 1
                seen.add(hash((op, tuple(cur[1]), tuple(cur[2]))))
            st['lab'][lab] = st['lab'].get(lab, 0) + 1
            if v == 1 and len(st['sam']) < 6 and i % 97 == 0:
                st['sam'].append(show(cur))
    except Exception as e:
        st['err'] = '%r on %s' % (e, json.dumps(cur))
    st['d'] = len(seen)
    q.put((w, st))


def main():
    if A.replay:
        signal.alarm(30)
        case = json.loads(A.replay[1])
        v, msg, _ = check(case)
        print('FAIL %s: %s' % (show(case), msg) if v == 0 else 'PASS')
        return 1 if v == 0 else 0
    if A.survey:
        r = random.Random(A.seed); bad = {}; ex = {}; lab = {}
        t0 = time.time()
        for i in range(A.survey):
            op = r.choice(OPS) if not A.only else A.only
            k = gen(r, op)
            v, msg, l = check(k)
            lab[op, v] = lab.get((op, v), 0) + 1
            if v == 0:
                bad[op] = bad.get(op, 0) + 1
                if len(ex.setdefault(op, [])) < 3:
                    k = shrink(k); ex[op].append('%s: %s' % (show(k), check(k)[1]))
        for o in bad:
            print(o, bad[o], *['\n    ' + e for e in ex[o]])
        print('%d in %.1f s' % (A.survey, time.time() - t0), {k: n for k, n in lab.items() if k[1] != 1 and k[1] != 0})
        return 0
    q = multiprocessing.Queue(); stop = multiprocessing.Event(); t0 = time.time()
    ps = []
    now = [multiprocessing.Array('c', 4096, lock=False) for _ in range(A.workers)]
    for w in range(A.workers):
        p = multiprocessing.Process(target=worker, args=(w, A.cases // A.workers, q, stop, now[w])); p.start(); ps.append(p)
    got = {}
    while len(got) < A.workers:
        try:
            w, st = q.get(timeout=1); got[w] = st
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join()
    J = {'evaluations': 0, 'distinct': 0, 'nontrivial': 0, 'skipped': 0, 'labels': {}, 'per_sub': {}, 'samples': [], 'wall': round(time.time() - t0, 2)}
    for w in sorted(got):
        s = got[w]
        J['evaluations'] += s['e']; J['nontrivial'] += s['n']; J['distinct'] += s['d']; J['skipped'] += s['k']; J['samples'] += s['sam']
        for a, b in (('lab', 'labels'), ('sub', 'per_sub')):
            for k, v in s[a].items():
                J[b][k] = J[b].get(k, 0) + v
        if s['fail'] and not J.get('failure'):
            J['failure'] = s['fail']
        if s.get('err'):
            J['error'] = s['err']
    for w, p in enumerate(ps):      # killed by the alarm, or crashed
        if w not in got and not J.get('failure'):
            c = now[w].value.decode(); ok = p.exitcode in (-signal.SIGALRM, -signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS)
            if ok and c:
                J['failure'] = {'sub': 'engine', 'case': c, 'show': show(json.loads(c)), 'msg': 'did not return within 30 s' if p.exitcode == -signal.SIGALRM else 'ended by signal %d' % -p.exitcode}
            else:
                J['error'] = 'a worker ended with %s' % p.exitcode
    json.dump(J, open(A.out, 'w')) if A.out else print(json.dumps(J)[:3000])
    return 0


sys.exit(main())
