"""Programs over the constructors of PN, recorded and validated by the specification."""
import random
from vlib import *

GOOD = ['', 'a', 'name', '_', '-', 'a-b', 'A1', 'b::c', '::a', '::a::b', 'x::1', 'params', 'a::-', 'Zz_9', '::_']
BAD = ['1', ':', '::', 'a:', 'a::', 'a:b', 'a b', ' a', 'a ', 'a::b::', ':::a', 'a::::b', '9a', '::1', '$a', 'a.b', 'a\\', '"', 'a::b c', 'a:::b', '::::a']
NAMES = ['f', '+', '=>', 'nop', '!', '[]', 'render-s', '->', 'qr', 'a::b', '@@', '<<|', '|']
CHARS = ['a', 'b', ' ', '"', '\\', '\t', '\n', '\r', '\0', '\x01', '\x08', '\x0c', '\x1f', '\x7f', '<', '&', '\u00e9', '\u2028', '\u2029', '\u202a', '\u4e2d', '\U0001f600', '$', "'", '/', '\x1b', '\x80', '\xa0', '0', '\ufeff']
TYPES = {'int8': (-128, 127), 'int16': (-32768, 32767), 'int32': (-2**31, 2**31 - 1), 'int': (-2**63, 2**63 - 1), '': (-2**63, 2**63 - 1), 'uint8': (0, 255), 'uint16': (0, 65535), 'uint32': (0, 2**32 - 1), 'uint': (0, 2**63 - 1), 'uint64': (0, 2**63 - 1)}


def canon(f):
    """A float as the specification has it: digits and the exponent of the first."""
    neg = '-' if str(f)[0] == '-' else ''
    m, e = ('%.17e' % abs(f)).split('e')
    for p in range(17):
        t = '%.*e' % (p, abs(f))
        if float(t) == abs(f):
            m, e = t.split('e')
            break
    d = m.replace('.', '').rstrip('0')
    return neg + ('0e0' if not d else d + 'e' + str(int(e)))


def character(r):
    """Any character, those of one byte as often as all others."""
    c = r.choice((r.randrange(0x80), r.randrange(0x800), r.randrange(0xd800), r.randrange(0xe000, 0x110000), r.randrange(0x80)))
    return chr(c)


def literal(r):
    """(operation for the harness, operation for the specification)"""
    k = r.choice('nbiiifffssss')
    if k == 'n':
        return {'op': 'nil'}, ['lit', ['nil']]
    if k == 'b':
        v = r.random() < .5
        return {'op': 'b', 's': 'true' if v else 'false'}, ['lit', ['b', v]]
    if k == 'i':
        t = r.choice(list(TYPES))
        lo, hi = TYPES[t]
        v = r.choice([lo, hi, 0, min(hi, r.randrange(1000)), r.randrange(lo, hi + 1)])
        return {'op': 'i', 's': str(v), 't': t}, ['lit', ['i', str(v)]]
    if k == 'f':
        d = r.randrange(1, 10 ** r.randrange(1, r.choice((4, 16, 20))))
        s = '%s%de%d' % (r.choice(['', '', '-']), d, r.choice([0, -1, -2, -3, 1, 2, -len(str(d)), r.randrange(-25, 25), r.randrange(-25, 25), r.randrange(-9, 9)]))
        if r.random() < .03:
            s = '%de%d' % (r.randrange(10 ** 6), r.randrange(-320, 303))
        if r.random() < .06:
            s = r.choice(['0', '-0', '1e21', '1e20', '1e-6', '1e-7', '123456789012345', '1e15', '1e16', '1e17', '0.0001', '0.00001', '100.5', '1e100', '5e-324'])
        return {'op': 'f', 's': s}, ['lit', ['f', canon(float(s))]]
    s = ''.join(r.choice(CHARS) if r.random() < .7 else character(r) for _ in range(r.randrange(6) if r.random() < .95 else r.choice((8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 300))))
    return {'op': 's', 's': s}, ['lit', ['s', [ord(c) for c in s]]]


def program(r):
    hs, ss, n, dead = [], [], 0, set()

    def put(h, s, k=1):
        nonlocal n
        hs.append(h)
        ss.append(s)
        n += k
    sizes = []
    for _ in range(r.randrange(1, 14)):
        live = [i for i in range(n) if i not in dead and sizes[i][1] < 60]
        k = r.choice(['lit', 'lit', 'lit', 'list', 'map', 'map', 'call', 'ascall', 'params', 'name'])
        if k == 'lit' or not live:
            h, s = literal(r)
            put(h, s)
            sizes.append(('lit', 1, []))
            continue
        some = [r.choice(live) for _ in range(r.choice((0, 1, 1, 2, 2, 3)) if r.random() < .96 else r.choice((5, 8, 9, 12, 16, 17, 33)))]
        size = 1 + sum(sizes[i][1] for i in some)
        one = r.choice(live)
        name = r.choice(NAMES)
        if k == 'list':
            put({'op': k, 'a': some}, [k, some])
            sizes.append(('list', size, some))
        elif k == 'call':
            put({'op': k, 's': name, 'a': some}, [k, name, some])
            sizes.append(('list', size, some))
        elif k == 'map':
            keys = [r.choice(GOOD) if r.random() < .93 else r.choice(BAD) for _ in some]
            if any(x in BAD for x in keys):
                dead.add(n)
            put({'op': k, 'k': keys, 'a': some}, [k, keys, some])
            sizes.append(('map', size, some))
        elif k == 'ascall':
            put({'op': k, 's': name, 'a': [one]}, [k, name, one])
            sizes.append(('list', sizes[one][1] + 1, sizes[one][2] if sizes[one][0] == 'list' else [one]))
        elif k == 'params':
            ps = sizes[one][2] if sizes[one][0] == 'list' else [one]
            put({'op': k, 'a': [one]}, [k, one], len(ps))
            sizes += [sizes[i] for i in ps]
        else:
            put({'op': k, 's': name, 'a': [one]}, [k, name, one], 0)
    return hs, ss


def programs(seed, n):
    r = random.Random('notation %s' % seed)
    return [program(r) for _ in range(n)]


def run(ps):
    return observe_many([{'pn': h} for h, s in ps])


def validate(ps, results, timeout=900):
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for (h, s), x in zip(ps, results):
            f.write(json.dumps({'ops': s, 'r': x['R']}) + '\n')
    try:
        rc, out = tlc('PNTrace', env={'TRACE': path}, timeout=timeout)
    finally:
        os.unlink(path)
    bad = {}
    for line in out.split('\n'):
        m = MISMATCH.match(line)
        if m:
            mm = re.match(r'^<<"MISMATCH", (\d+), "(\w+)", "(.*)">>$', unescape(m.group(1)), re.S)
            bad[int(mm.group(1)) - 1] = unescape(mm.group(3))
    st = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not st or int(st.group(2)) != len(ps) + 16:
        raise Broken('TLC failed:\n' + out[-4000:])
    return bad, {'states': int(st.group(2)), 'transitions': int(st.group(1)) - 16}


if __name__ == '__main__':
    import sys
    build()
    ps = programs(1, int(sys.argv[1]))
    res = run(ps)
    bad, st = validate(ps, res)
    print(len(ps), len(bad), st)
    for i, w in sorted(bad.items(), key=lambda b: len(ps[b[0]][0]))[:5]:
        print(ps[i][1], '\n want', w, '\n got ', res[i]['R'])
