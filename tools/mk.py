#!/usr/bin/env python3
"""development aid: mk.py ID PROPERTY FILE <<spec   spec = OLD ==== NEW ==== needs ==== breaks ==== demo.c body"""
import sys, os, json, subprocess
pid, prop, f = sys.argv[1:4]
old, new, needs, breaks, body = [x.strip('\n') for x in sys.stdin.read().split('\n====\n')]
subprocess.check_call(['bash', '/verif/tools/plant.sh', 'reset'])
p = '/tmp/wt/' + f
s = open(p, encoding='latin1').read()
n = s.count(old)
k = int(sys.argv[4]) if len(sys.argv) > 4 else None
assert n == 1 or (k is not None and k < n), 'occurrences: %d' % n
if k is None: s = s.replace(old, new)
else:
    i = -1
    for _ in range(k + 1): i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
open(p, 'w', encoding='latin1').write(s)
D = '/verif/seeded/' + pid
os.makedirs(D, exist_ok=True)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
open(D + '/demo.c', 'w').write('''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <wchar.h>
#include <math.h>
#include <fenv.h>
static int bad;
#define CHECK(c) do { if (!(c)) { printf ("wrong: %s\\n", #c); bad = 1; } } while (0)
''' + body + '\n')
sys.exit(subprocess.call(['bash', '/verif/tools/plant.sh', 'save', pid]))
