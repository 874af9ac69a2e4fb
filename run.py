#!/usr/bin/env python3
"""Build libdfp from /repo's working tree, run one property's check, write its
evidence.   run.py ID [--tier quick|thorough] [--seed N]
            run.py --replay FILE          re-run one saved failing case
            run.py --build DIR [variant]  development aid
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
PYVT = '/opt/veriftools/pyvenv/bin/python3'
ENV = dict(os.environ, LC_ALL='C', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
for v in ('MAKEFLAGS', 'MAKELEVEL', 'LD_LIBRARY_PATH', 'LD_PRELOAD', 'CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'CXXFLAGS'):
    ENV.pop(v, None)
NCPU = len(os.sched_getaffinity(0))

VARIANT = {
    'plain': [],
    'cov': ['-fsanitize-coverage=trace-pc,trace-cmp'],
    'asan': ['-fsanitize-coverage=trace-pc,trace-cmp', '-fsanitize=address,undefined', '-fno-sanitize=object-size,shift,signed-integer-overflow,alignment,shift-base,shift-exponent', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
}


def sh(cmd, cwd=None, env=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if log is not None:
        log.append('$ %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    if p.returncode:
        raise RuntimeError('command failed (%d): %s\n%s' % (p.returncode, ' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def configure(d):
    os.makedirs(d)
    env = dict(ENV, CC='gcc', CXX='g++', AWK='gawk', CFLAGS='-O2 -g', CXXFLAGS='-O2 -g')
    sh([REPO + '/configure', '--prefix=' + d + '/inst'], cwd=d, env=env)
    if not os.path.exists(REPO + '/libbid/bid_binarydecimal.c'):
        open(d + '/bid_binarydecimal.c', 'w').write('/* see /opt/vp/build.sh */\n')


def clone_configured(src, dst):
    shutil.copytree(src, dst, symlinks=True)
    for root, _, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if f in ('config.log',) or os.path.islink(p):
                continue
            b = open(p, 'rb').read()
            if src.encode() in b:
                open(p, 'wb').write(b.replace(src.encode(), dst.encode()))


def make_lib(d, variant, jobs):
    args = ['make', '-j%d' % jobs]
    if VARIANT[variant]:
        w = d + '/ccwrap'
        open(w, 'w').write('#!/bin/bash\nfor a in "$@"; do if [ "$a" = -c ]; then exec gcc "$@" %s; fi; done\nexec gcc "$@"\n' % ' '.join(VARIANT[variant]))
        os.chmod(w, 0o755)
        args.append('CC=' + w)
    sh(args + ['libdfp.so'], cwd=d)
    if not os.path.exists(d + '/libdfp.so.1'):
        os.symlink(os.path.basename(os.path.realpath(d + '/libdfp.so')), d + '/libdfp.so.1')


def make_shim(d, variant):
    fl = ['-fsanitize=address,undefined'] if variant == 'asan' else []
    sh(['gcc', '-std=gnu11', '-g', '-O1', '-fno-builtin', '-fPIC', '-shared', '-I' + REPO + '/dfp', VERIF + '/h/shim.c', '-o', d + '/shim.so', '-L' + d, '-ldfp', '-Wl,-rpath,$ORIGIN'] + fl)


def make_shimxx(d, variant):
    fl = ['-fsanitize=address,undefined'] if variant == 'asan' else []
    sh(['g++', '-g', '-O1', '-fPIC', '-shared', '-D__STDC_WANT_DEC_FP__=1', '-I' + REPO + '/dfp', VERIF + '/h/shimxx.cc', '-o', d + '/shimxx.so', '-L' + d, '-ldfp', '-Wl,-rpath,$ORIGIN'] + fl)


def make_shimdec(d, variant):
    fl = ['-fsanitize=address,undefined'] if variant == 'asan' else []

    sh(['gcc', '-std=gnu11', '-g', '-O1', '-fPIC', '-shared', '-I' + REPO + '/libdecnumber', '-I' + REPO + '/libdecnumber/bid', '-I' + REPO + '/sysdeps/soft-dfp/bid', '-I' + REPO + '/sysdeps/bid', '-I' + REPO + '/include', '-I' + REPO + '/dfp', '-I' + REPO, VERIF + '/h/shim_dec.c'] + sorted(glob.glob(d + '/*.os')) + ['-o', d + '/shim_dec.so', '-lm'] + fl)


def harness_cmd(src, out, libdir, variant):
    """harness object: does not depend on /repo's sources"""
    fl = ['-fsanitize=address,undefined'] if variant == 'asan' else []
    return ['g++', '-std=gnu++17', '-g1', '-O1', VERIF + '/checks/' + src, '-c', '-o', out] + fl


def write_dict(d):
    """numbers the mathematical functions compare their argument with: a dictionary for the generators, one list per function; nothing is decided from it"""
    out = set()
    for p in sorted(glob.glob(REPO + '/ieee754r/*d*.c')):
        m = re.match(r'(\w+?)d(32|64|128)\.c$', os.path.basename(p))
        if m:
            for l in open(p, errors='replace'):
                for v in re.findall(r'(?:[<>]=?|==) *(?:DFP_CONSTANT *\()? *-?(\d*\.\d+(?:[eE][-+]?\d+)?|\d+\.)|(\d*\.\d+(?:[eE][-+]?\d+)?) *<', l):
                    v = v[0] or v[1]
                    if 0 < float(v) < float('inf'):
                        out.add('%s %s\n' % (m.group(1), v))
    with open(d + '/mathdict.txt', 'w') as f:
        f.writelines(sorted(out))


class Job(threading.Thread):
    def __init__(self, fn, *a):
        super().__init__(daemon=True)
        self.fn, self.a, self.err, self.res = fn, a, None, None
        self.start()

    def run(self):
        try:
            self.res = self.fn(*self.a)
        except BaseException as e:
            self.err = e

    def wait(self):
        self.join()
        if self.err:
            raise self.err
        return self.res


def build(scratch, variants, sources):
    """returns {variant: dir}; harness executables are DIR/<source stem>"""
    objs = {}
    for v in set(x[0] for x in sources):
        for s in set(x[1] for x in sources if x[0] == v):
            if s.endswith('.cc') :
                k = 'asan' if v == 'asan' else 'plain'
                if (k, s) not in objs:
                    o = '%s/%s-%s.o' % (scratch, s[:-3], k)
                    objs[(k, s)] = (o, Job(sh, harness_cmd(s, o, None, k)))
    first = scratch + '/' + variants[0]
    configure(first)
    dirs = {variants[0]: first}
    for v in variants[1:]:
        dirs[v] = scratch + '/' + v
        clone_configured(first, dirs[v])
    jobs = max(2, NCPU)
    def one(v):
        write_dict(dirs[v])
        make_lib(dirs[v], v, jobs)
        make_shim(dirs[v], v)
        if (v, 'streams.cc') in sources:
            make_shimxx(dirs[v], v)
        if any((v, s) in sources for s in ('engine.py', 'decnum.cc')):
            make_shimdec(dirs[v], v)
    js = [Job(one, v) for v in variants]
    for j in js:
        j.wait()
    for (v, s) in sources:
        if not s.endswith('.cc'):
            continue
        o, j = objs[('asan' if v == 'asan' else 'plain', s)]
        j.wait()
        d = dirs[v]
        sh(['g++', o, '-o', d + '/' + s[:-3], d + '/shim.so', '-L' + d, '-ldfp', '-Wl,-rpath,' + d, '-rdynamic', '-lpthread'] + (['-l:libmpfr.so.6'] if s == 'math.cc' else []) + ([d + '/shimxx.so'] if s == 'streams.cc' else []) + ([d + '/shim_dec.so'] if s == 'decnum.cc' else []) + (['-fsanitize=address,undefined'] if v == 'asan' else []))
    return dirs


def known_findings(pid):
    """lines 'known: property=<id> <kfid> <text>' of known-findings.txt"""
    r = {}
    try:
        for l in open(VERIF + '/known-findings.txt'):
            m = re.match(r'known: property=(\S+) (\S+) (.*)', l)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return r


def run_env(variant):
    e = dict(ENV)
    if variant == 'asan':
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:check_printf=0'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=67'
    return e


def cmdline(ph, d):
    if ph['src'].endswith('.py'):
        return [PYVT, VERIF + '/py/' + ph['src'], '--lib', d] + ph.get('args', [])
    return [d + '/' + ph['src'][:-3]] + ph.get('args', [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--build', nargs='+')
    ap.add_argument('--keep', action='store_true')
    A = ap.parse_args()
    if A.build:
        d = os.path.abspath(A.build[0]); v = A.build[1] if len(A.build) > 1 else 'plain'
        shutil.rmtree(d, ignore_errors=True)
        configure(d); make_lib(d, v, NCPU); make_shim(d, v); make_shimxx(d, v); make_shimdec(d, v); print(d)
        return 0
    from registry import CHECKS
    replay = json.load(open(A.replay)) if A.replay else None
    pid = replay['property'] if replay else A.id
    C = CHECKS[pid]
    t0 = time.time()
    phases = [p for p in C['phases'] if p.get('tier', A.tier) == A.tier]
    if replay:
        phases = [p for p in C['phases'] if p['name'] == replay['phase']][:1]
    for v in ('TMPDIR',):
        pass
    scratch = tempfile.mkdtemp(prefix='dfpchk-')
    rc = 3
    try:
        variants = []
        for p in phases:
            if p['variant'] not in variants:
                variants.append(p['variant'])
        dirs = build(scratch, variants, [(p['variant'], p['src']) for p in phases])
        tb = time.time() - t0
        kf = known_findings(pid)
        kfile = scratch + '/known'
        open(kfile, 'w').write(''.join(k + '\n' for k in kf))
        if replay:
            p = phases[0]
            if replay.get('rerun'):   # needs the history of the whole run
                out = scratch + '/out.json'
                r = subprocess.run(cmdline(p, dirs[p['variant']]) + replay['rerun'] + ['--known', kfile, '--out', out], env=run_env(p['variant']))
                F = json.load(open(out)).get('failure') if os.path.exists(out) else {'msg': 'no result'}
                print('replay: %s' % ('FAIL %s' % F['msg'] if F else 'PASS'))
                return 1 if F else 0
            r = subprocess.run(cmdline(p, dirs[p['variant']]) + ['--known', kfile, '--replay', replay['sub'], replay['case']], env=run_env(p['variant']))
            print('replay: %s' % ('FAIL' if r.returncode else 'PASS'))
            return 1 if r.returncode else 0
        tot = {'evaluations': 0, 'distinct': 0, 'nontrivial': 0, 'skipped': 0}
        labels, persub, kfhit, kfex, samples, pinfo = {}, {}, {}, {}, [], []
        rules = []
        failure = None
        for p in phases:
            d = dirs[p['variant']]
            out = '%s/out-%s.json' % (scratch, p['name'])
            n = p['cases'] if isinstance(p['cases'], int) else p['cases'][A.tier]
            cmd = cmdline(p, d) + ['--seed', str(A.seed), '--cases', str(n), '--workers', str(p.get('workers', 8)), '--known', kfile, '--out', out, '--cap', str(p.get('cap') or (240 if A.tier == 'quick' else 1800))]
            if p.get('cov'):
                cmd.append('--cov')
            r = subprocess.run(cmd, env=run_env(p['variant']), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
            if not os.path.exists(out):
                raise RuntimeError('harness gave no result (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stderr[-3000:]))
            J = json.load(open(out))
            for k in tot:
                tot[k] += J.get(k, 0)
            for src, dst in ((J.get('labels', {}), labels), (J.get('per_sub', {}), persub), (J.get('known', {}), kfhit)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            for k, v in J.get('known_examples', {}).items():
                kfex.setdefault(k, v)
            samples += J.get('samples', [])[:: max(1, len(J.get('samples', [])) // 12)][:12]
            if J.get('rule') and J['rule'] not in rules:
                rules.append(J['rule'])
            pinfo.append({'phase': p['name'], 'build': p['variant'], 'evaluations': J['evaluations'], 'distinct_nontrivial': J['distinct'], 'wall_s': J.get('wall'), 'edges_covered': J.get('cov_edges'), 'corpus': J.get('corpus')})
            if J.get('error') and not J.get('failure'):
                raise RuntimeError('harness error: %s\n%s' % (J['error'], r.stderr[-3000:]))
            if J.get('failure'):
                F = J['failure']
                # replay three times before believing it
                fails = 0; q = None
                for _ in range(3):
                    q = subprocess.run(cmdline(p, d) + ['--known', kfile, '--replay', F['sub'], F['case']], env=run_env(p['variant']), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=300)
                    fails += 1 if q.returncode else 0
                    if F['msg'].startswith('no return'):
                        fails *= 3
                        break
                F['replayed'] = fails
                F['stderr'] = (q.stderr or '')[-3000:] or r.stderr[-3000:]
                if fails < 3:   # not a function of the case alone: does the same run fail again?
                    os.unlink(out)
                    r = subprocess.run(cmd, env=run_env(p['variant']), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
                    J2 = json.load(open(out)) if os.path.exists(out) else {}
                    if not J2.get('failure'):
                        raise RuntimeError('failure did not replay (%d/3) nor recur: %s' % (fails, json.dumps(F)))
                    F = J2['failure']
                    F['stderr'] = r.stderr[-3000:]
                    F['rerun'] = cmd[len(cmdline(p, d)):]
                    k = F['rerun'].index('--known'); del F['rerun'][k:k + 4]
                    F['msg'] += ' (depends on the calls made before: the replay repeats the whole run)'
                failure = (p, F)
                break
        wall = time.time() - t0
        ev = {'property': pid, 'tier': A.tier, 'seed': A.seed, 'level': 'exploration',
              'coverage': {'evaluations': tot['evaluations'], 'distinct_nontrivial': tot['distinct'], 'rule': C['rule'], 'samples': samples[:40] or ['(none)'],
                           'nontrivial_evaluations': tot['nontrivial'], 'discarded': tot['skipped'], 'classes': labels, 'per_relation': persub, 'phases': pinfo,
                           'known_finding_hits': kfhit, 'known_finding_examples': kfex, 'build_s': round(tb, 1)},
              'assumptions': C.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if failure else 0}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
        for k, v in sorted(kf.items()):
            print('KNOWN-FINDING: property=%s %s (%s; met %d times in this run)' % (pid, v, k, kfhit.get(k, 0)))
        print('%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)' % (pid, A.tier, tot['evaluations'], tot['distinct'], wall, tb))
        if failure:
            p, F = failure
            os.makedirs(VERIF + '/build/replay', exist_ok=True)
            rp = '%s/build/replay/%s-%d.json' % (VERIF, pid, A.seed)
            json.dump({'property': pid, 'phase': p['name'], 'sub': F['sub'], 'case': F['case'], 'show': F['show'], 'msg': F['msg'], 'rerun': F.get('rerun'), 'stderr': F.get('stderr', '')}, open(rp, 'w'), indent=1)
            print('  failing case: %s' % F['show'])
            print('  %s' % F['msg'])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
        else:
            rc = 0
    except RuntimeError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        rc = 3
    finally:
        if not A.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print('scratch: ' + scratch)
    return rc


if __name__ == '__main__':
    sys.exit(main())
