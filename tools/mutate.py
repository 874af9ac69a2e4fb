#!/usr/bin/env python3
"""development aid: plant random small changes and see which checks notice.
mutate.py --n N --seed S --slots K [--files REGEX] [--scale X] [--out FILE]
Works in copies under /tmp/mut; needs /tmp/cov/lines.json (lines the checks execute).  Survivors are written to FILE with their diff."""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time, queue
sys.path.insert(0, '/verif')
BASE = '/tmp/wr'
os.environ['VERIF_REPO'] = BASE
import run, registry
ap = argparse.ArgumentParser()
ap.add_argument('--n', type=int, default=40); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--slots', type=int, default=6)
ap.add_argument('--files', default='.'); ap.add_argument('--not', dest='nfiles', default='^$'); ap.add_argument('--scale', type=float, default=0.08); ap.add_argument('--out', default='/tmp/mut/out.txt')
ap.add_argument('--rebuild', action='store_true'); ap.add_argument('--tables', action='store_true', help='change entries of initialised arrays instead of code')
A = ap.parse_args()
R = random.Random(A.seed)
LINES = json.load(open('/tmp/cov/lines.json'))
CK = registry.CHECKS
SRCS = ['arith', 'basic', 'conv', 'hist', 'math', 'parse', 'print', 'quant', 'safe', 'streams', 'decnum']

def checks_for(f):
    b = os.path.basename(f)
    m = [(r'libbid/bid(64|128)_add|libbid/bid_inline_add|bid_round|decimal_data|bid_add', 'C01 C02 C06 C31'), (r'_mul|bid128_fma', 'C01 C02'), (r'_div', 'C01 C02'), (r'compare|ieee754r/is(less|great|unord)', 'C03'),
         (r'_to_u?int|from_int|floattit|fixtdti|fix.*ti|ticonst|float.*ti|candtrunc|floatti|fixun', 'C04 C15'), (r'bid32_to|bid64_to_bid', 'C05 C01'), (r'strtod|wcstod', 'C06 C07 C10 C11'),
         (r'printf|fmt_|strfrom', 'C08 C09 C10'), (r'decround|mapround', 'C12 C08 C01 C14'), (r'fpclass|isnorm|isinf|isnan|isfin|issig|signbit|copysign|fabs|noncomp', 'C13'),
         (r'ceil|floor|trunc|/round|rint|nearby', 'C14 C15'), (r'lround|lrint', 'C15'), (r'quanti|quantum|llquant', 'C16 C32'), (r'logb|scalb|ldexp|frexp', 'C17 C32'), (r'next', 'C18'), (r'fmax|fmin|fdim', 'C19'),
         (r'fmod|remain|modf', 'C20 C32'), (r'fma|sqrt|cbrt|hypot', 'C21 C32'), (r'exp|log|decexptables|declntables', 'C22 C23 C25'), (r'pow', 'C23'), (r'a?(sin|cos|tan)2?d32', 'C24'), (r'(sin|cos|tan)h', 'C25'), (r'erf|gamma', 'C26'),
         (r'decNumberMath', 'C24 C25 C22'), (r'libdecnumber', 'C33 C28'), (r'bid_b2d|bid_dpd|bid-private|decode|numdigits|dpd|bid2dpd|bid/decimal', 'C28 C08 C16'), (r'decimal$', 'C11'), (r'binarydec|_to_[sdtxh]f|[sdtx]f_to|_[sdt]d_to|binpow|decpow|convert_data', 'C29 C05 C04'),
         (r'bid_internal|bid_conf|bid_functions|div_macros', 'C01 C02 C05'), (r'include/|dfp/', 'C13 C16 C12 C03'), (r'ieee754r|sysdeps|libbid', 'C27')]
    r = []
    for k, v in m:
        if re.search(k, f) or re.search(k, b):
            for c in v.split():
                if c not in r: r.append(c)
    if re.search('ieee754r', f) and 'C27' not in r: r.append('C27')
    r = r[:6] or ['C27', 'C31']
    if re.search('libbid|ieee754r', f): r.append('C34')
    return r

def mutants(line):
    """all (description, new line) of one source line"""
    r = []
    code = re.sub(r'//.*|/\*.*?\*/', lambda m: ' ' * len(m.group()), line)
    def sub(m, new): r.append(line[:m.start()] + new + line[m.end():])
    for m in re.finditer(r'(?<![<>=!\-+*/&|])(<=|>=|==|!=|<(?!<)|>(?!>)(?<!->))(?![<>=])', code):
        o = m.group()
        for n in {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['==']}[o]: sub(m, n)
    for m in re.finditer(r'&&|\|\|', code): sub(m, '||' if m.group() == '&&' else '&&')
    for m in re.finditer(r'(?<![\+\-eE(,=<>&|?:*] )(?<![\+\-eE(,=])[\+\-](?![\+\-=>0-9]*\w*[\+\-]?>)(?![\+\-])', code):
        if re.search(r'[\w)\]]\s*$', code[:m.start()]) : sub(m, '-' if m.group() == '+' else '+')
    for m in re.finditer(r'\+\+|--', code): sub(m, '--' if m.group() == '++' else '++')
    for m in re.finditer(r'<<|>>', code): pass
    for m in re.finditer(r'(?<![\w.#"])(\d+)(?![\w.])', code):
        v = int(m.group());
        for n in (v + 1, v - 1): sub(m, str(n))
    for m in re.finditer(r'0x([0-9a-fA-F]+)', code):
        v = int(m.group(), 16); b = R.randrange(max(1, len(m.group(1)) * 4)); sub(m, '0x%0*x' % (len(m.group(1)), v ^ (1 << b)))
    for m in re.finditer(r'\d\.\d{3,}', code):
        k = R.randrange(m.start() + 2, m.end()); d = line[k]; r.append(line[:k] + str((int(d) + 1) % 10) + line[k + 1:])
    m = re.match(r'(\s*)(if|else if|while) ?\((.*)\)\s*\{?\s*$', code)
    if m and m.group(2) != 'while' and m.group(3).count('(') == m.group(3).count(')'):
        for k in ('0', '1'): r.append(line[:m.start(3)] + k + line[m.end(3):])
    m = re.match(r'\s*[\w\.\[\]>\-]+\s*[\+\-\*|&]?=[^=].*;\s*$', code)
    if m: r.append(re.match(r'\s*', line).group() + ';')
    m = re.match(r'\s*[\w]+\s*\(.*\);\s*$', code)
    if m: r.append(re.match(r'\s*', line).group() + ';')
    for m in re.finditer(r"'(\d)'", code): sub(m, "'%d'" % ((int(m.group(1)) + 1) % 10))
    return [x for x in dict.fromkeys(r) if x != line]

def candidates():
    c = []
    for f, d in LINES.items():
        if not re.search(A.files, f) or re.search(A.nfiles, f): continue
        if not os.path.exists(BASE + '/' + f): continue
        src = open(BASE + '/' + f, encoding='latin1').read().split('\n')
        for l, n in d.items():
            if n:
                i = int(l) - 1
                if src[i].lstrip().startswith('#'): continue
                for m in mutants(src[i]): c.append((f, i, src[i], m))
        # tables: lines of initialisers, never counted by gcov
    for f in os.popen("cd %s && ls libbid/*data*.c ieee754r/*tables.c sysdeps/bid/*.c libdecnumber/decDPD.h 2>/dev/null" % BASE).read().split():
        if not re.search(A.files, f) or re.search(A.nfiles, f): continue
        src = open(BASE + '/' + f, encoding='latin1').read().split('\n')
        for i, s in enumerate(src):
            if re.search(r'0x[0-9a-fA-F]{6,}', s):
                c += [(f, i, s, m) for m in mutants(s)][:1]
    return c

def table_candidates():
    c = []
    for f in os.popen("cd %s && git ls-files '*.c' '*.h' | grep -v ^tests" % BASE).read().split():
        if not re.search(A.files, f) or re.search(A.nfiles, f): continue
        src = open(BASE + '/' + f, encoding='latin1').read().split('\n')
        inside = False
        for i, s in enumerate(src):
            if inside and '};' in s: inside = False
            if inside:
                for m in re.finditer(r'0[xX]([0-9a-fA-F]+)|(\d\.\d+|\d{2,})', re.sub(r'//.*|/\*.*?\*/', lambda m: ' ' * len(m.group()), s)):
                    if m.group(1): n = '0x%0*x' % (len(m.group(1)), int(m.group(1), 16) ^ (1 << R.randrange(len(m.group(1)) * 4)))
                    else:
                        k = R.randrange(min(len(m.group(2)), 20)); t = m.group(2)
                        if t[k] == '.': k -= 1
                        n = t[:k] + str((int(t[k]) + 1) % 10) + t[k + 1:]
                    c.append((f, i, s, s[:m.start()] + n + s[m.end():]))
            if re.search(r'\[[^]]*\]\s*=\s*\{?\s*(/[/*].*)?$', s) or re.match(r'.*\[[^]]*\]\s*=\s*\{[^}]*$', s): inside = True
    return c

def prep(slot):
    d = '/tmp/mut/%d' % slot
    if os.path.exists(d) and not A.rebuild: return
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(['cp', '-a', BASE, d + '/r']); shutil.rmtree(d + '/r/_build', ignore_errors=True)
    env = dict(os.environ, VERIF_REPO=d + '/r')
    subprocess.check_call([sys.executable, '/verif/run.py', '--build', d + '/b', 'plain'], env=env, stdout=subprocess.DEVNULL)
    for s in SRCS: shutil.copy('/tmp/mut/h/' + s + '.o', d + '/b/')
    link(d)

def link(d):
    b = d + '/b'
    for s in SRCS:
        subprocess.check_call(['g++', '/tmp/mut/h/%s.o' % s, '-o', b + '/' + s, b + '/shim.so', b + '/shimxx.so', b + '/shim_dec.so', '-Wl,-rpath,' + b, '-L' + b, '-ldfp', '-lpthread', '-rdynamic', '-l:libmpfr.so.6'])

def harness():
    os.makedirs('/tmp/mut/h', exist_ok=True)
    ps = []
    for s in SRCS:
        o = '/tmp/mut/h/%s.o' % s
        if not os.path.exists(o) or A.rebuild: ps.append(subprocess.Popen(['g++', '-std=gnu++17', '-g1', '-O1', '/verif/checks/%s.cc' % s, '-c', '-o', o]))
    for p in ps: assert p.wait() == 0
    open('/tmp/mut/known', 'w').write(''.join(l.split()[2] + '\n' for l in open('/verif/known-findings.txt') if l.startswith('known:')))

def judge(slot, mu):
    f, i, old, new = mu
    d = '/tmp/mut/%d' % slot; p = d + '/r/' + f
    orig = open(p, encoding='latin1').read(); s = orig.split('\n'); assert s[i] == old
    s[i] = new; open(p, 'w', encoding='latin1').write('\n'.join(s))
    b = d + '/b'
    try:
        env = dict(run.ENV)
        q = subprocess.run(['make', '-s', '-j2', 'libdfp.so'], cwd=b, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode: return 'nocompile', ''
        try:
            os.environ['VERIF_REPO'] = d + '/r'; run.REPO = d + '/r'
            cs = checks_for(f)
            if f.endswith('decimal/decimal'): run.make_shimxx(b, 'plain')
            if any(c in ('C33', 'C28') for c in cs): run.make_shimdec(b, 'plain')
        except RuntimeError: return 'nocompile', ''
        for c in cs:
            for ph in CK[c]['phases']:
                if ph['variant'] == 'asan' or ph.get('cov') : continue
                n = ph['cases'] if isinstance(ph['cases'], int) else ph['cases']['quick']
                out = d + '/o.json'
                if os.path.exists(out): os.unlink(out)
                cmd = run.cmdline(ph, b) + ['--seed', '7', '--cases', str(int(n * A.scale)), '--workers', '1', '--known', '/tmp/mut/known', '--out', out, '--cap', '60']
                try: q = subprocess.run(['nice'] + cmd, env=run.run_env('plain'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150)
                except subprocess.TimeoutExpired: return 'killed', c + ' timeout'
                if not os.path.exists(out): return 'killed', c + ' crash'
                J = json.load(open(out))
                if J.get('failure'): return 'killed', c + ' ' + J['failure']['sub'] + ': ' + J['failure']['msg'][:100]
                if J.get('error'): return 'killed', c + ' error ' + str(J['error'])[:100]
        return 'SURVIVED', ' '.join(cs)
    finally:
        open(p, 'w', encoding='latin1').write(orig)

def main():
    harness()
    ts = [threading.Thread(target=prep, args=(k,)) for k in range(A.slots)]
    for t in ts: t.start()
    for t in ts: t.join()
    C = table_candidates() if A.tables else candidates()
    byf = {}
    for c in C: byf.setdefault(c[0], []).append(c)
    # weight: square root of the number of candidates of a file
    fs = sorted(byf); w = [len(byf[f]) ** 0.5 for f in fs]
    todo = []
    seen = set()
    while len(todo) < A.n and len(seen) < len(C):
        f = R.choices(fs, w)[0]; m = R.choice(byf[f])
        if m not in seen: seen.add(m); todo.append(m)
    Q = queue.Queue()
    for m in todo: Q.put(m)
    cnt = {}
    out = open(A.out, 'a'); lock = threading.Lock()
    def work(slot):
        while True:
            try: m = Q.get_nowait()
            except queue.Empty: return
            t = time.time()
            try: v, why = judge(slot, m)
            except Exception as e: v, why = 'ERROR', repr(e)
            with lock:
                cnt[v] = cnt.get(v, 0) + 1
                out.write('%s %s:%d (%.0f s) %s\n' % (v, m[0], m[1] + 1, time.time() - t, why))
                if v != 'killed': out.write('   - %s\n   + %s\n' % (m[2].strip(), m[3].strip()))
                out.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(A.slots)]
    for t in ts: t.start()
    for t in ts: t.join()
    out.write('TOTAL %s\n' % cnt); print(cnt)
main()
