"""Readers and lexers that are moved about, recorded and validated by the specification."""
import random
from vlib import *
import gen

FIXED = [b'', b'a', b'(a)\nb (c)\n(d)', b'a ? { 1 => 2 }', b'{ a => 1 }', b'a[1] [2]', b'f |$x| { $x } |', b'a / b / c', b'/a/ / /b/', b'"a\nb" (c)', b'# c\n(a) /* \n */ (b)\n /* c */ (d)',
         '\u00e9 \u65e5\U0001f600'.encode(), 'a "\u00e9" (\u65e5'.encode(), b'a\0b', b'1 0x1F 1.5e3 07', b"'a' 'b\n(c)'\n(d)", b'\n\n(\n(\n (', b'a =~ /b/ ? {', b'$a::b ::c D::E', b'if else (1) [2] {3}', b'a\r\n(b)\r\n [c]']


def history(r, src):
    """(source, operations for the harness, operations for the specification)"""
    cs = codes(src)
    text = src.decode('utf-8', 'replace') if -1 not in cs and -2 not in cs else None
    size = len(src)
    whole = [0]
    for c in cs:
        if c < 0:
            break
        whole.append(whole[-1] + len(chr(c).encode()))
    reads = 0
    hs = []
    for _ in range(r.randrange(4, 40)):
        k = r.choice(['next', 'next', 'next', 'peek', 'advance', 'at', 'set', 'from', 'token', 'token', 'token', 'token', 'token', 'current', 'move', 'assert', 'assert'])
        n = 0
        if k == 'set':
            # beyond what cannot be read there is nothing that the specification knows of
            n = r.randrange(whole[-1] + 1) if r.random() < .4 or text is None else r.choice(whole) if r.random() < .8 else size + r.randrange(4)
        elif k == 'from':
            n = r.choice(whole)
        elif k == 'move':
            n = r.choice(whole)
        elif k == 'assert':
            n = r.randrange(1, reads + 2)
        elif k == 'token':
            reads += 1
        hs.append({'op': k, 'n': n})
    return src, hs, [[h['op'], h['n']] for h in hs]


def histories(seed, n):
    r = random.Random('cursors %s' % seed)
    pool = [s for s, m in gen.sources('cursors %s' % seed, n, ['valid', 'soup', 'pos', 'str', 'stmt', 'expr'] , modes=0) if b'@(' not in s and b'@ (' not in s and len(s) < 200 and -2 not in codes(s)]
    return [history(r, r.choice(FIXED) if r.random() < .3 else r.choice(pool)) for _ in range(n)]


def run(hs):
    return observe_many([{'s': s, 'cursor': h} for s, h, o in hs])


def validate(hs, results, timeout=900):
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for (s, h, o), x in zip(hs, results):
            f.write(json.dumps({'s': codes(s), 'ops': o, 'r': x['R']}) + '\n')
    try:
        rc, out = tlc('CursorTrace', env={'TRACE': path}, timeout=timeout)
    finally:
        os.unlink(path)
    bad = {}
    for line in out.split('\n'):
        m = MISMATCH.match(line)
        if m:
            mm = re.match(r'^<<"MISMATCH", (\d+), "(\w+)", "(.*)">>$', unescape(m.group(1)), re.S)
            bad[int(mm.group(1)) - 1] = unescape(mm.group(3))
    st = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not st or int(st.group(2)) != len(hs) + 16:
        raise Broken('TLC failed:\n' + '\n'.join(x for x in out.split('\n') if not x.startswith('"'))[-4000:])
    return bad, {'states': int(st.group(2)), 'transitions': int(st.group(1)) - 16}


if __name__ == '__main__':
    import sys, time
    build()
    hs = histories(sys.argv[2] if len(sys.argv) > 2 else 1, int(sys.argv[1]))
    res = run(hs)
    t = time.time()
    bad, st = validate(hs, res)
    print(len(hs), len(bad), st, time.time() - t)
    for i, w in sorted(bad.items(), key=lambda b: len(hs[b[0]][1]))[:6]:
        print(hs[i][0])
        wl, gl = eval(w.replace('<<', '[').replace('>>', ']')), eval(res[i]['R'].replace('<<', '[').replace('>>', ']'))
        for o, a, b in zip(hs[i][2], wl, gl):
            print('   ', o, a, b if a != b else '')
            if a != b:
                break
