#!/usr/bin/env python3
"""Checks with TLC that the specification makes sense: sane.py [N [DOMAIN...]]. N sources of each suite (all: 0)."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import suite
from vlib import *


def sane(srcs, timeout=3000):
    """[(source, property)] of what does not hold."""
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for s, m in srcs:
            f.write(json.dumps({'src': codes(s), 'm': m}) + '\n')
    try:
        rc, out = tlc('Sane', env={'TRACE': path}, timeout=timeout)
    finally:
        os.unlink(path)
    st = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not st or int(st.group(2)) != len(srcs) + 16:
        raise Broken('TLC failed:\n' + out[-4000:])
    bad = re.findall(r'^"<<\\"INSANE\\", (\d+), \\"(\w+)\\">>"$', out, re.M)
    return [(srcs[int(i) - 1], p) for i, p in bad], int(st.group(2))


if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 500
    r = random.Random(1)
    worst = 0
    for d in sys.argv[2:] or suite.DOMAINS:
        su = suite.Suite(d)
        xs = r.sample(su.srcs, min(n, len(su.srcs))) if n else su.srcs
        bad, k = sane(xs)
        print(d, len(xs), 'sources,', len(bad), 'insane', flush=True)
        for x, p in sorted(bad, key=lambda b: len(b[0][0]))[:6]:
            print('  ', p, x)
        worst = worst or len(bad)
    sys.exit(1 if worst else 0)
