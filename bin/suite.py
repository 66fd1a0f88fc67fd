#!/usr/bin/env python3
"""The committed suites: sources with a hash of what the specification says of every facet of their outcome.

  suite.py build [DOMAIN...]   observes the sources and lets TLC validate every observation; writes suite/DOMAIN.gz only
                               when the specification agrees with all of them

A suite is a cache of the specification. A check replays it and asks the specification again about anything that differs."""
import gzip, hashlib, json, os, sys, itertools
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, words, large, longs, huge
from vlib import *

SUITE = os.path.join(VERIF, 'suite')
ALL = 'ASEMPTDNFJL01234KC'
W = 3  # bytes per hash

T1 = KEY = None
# tokens for exhaustive enumeration
TOKENS2 = ('and application attr case class consumes default define else elsif false function if import in inherits node or plan produces site step true type undef '
           'unless private = += -= == != =~ !~ < <= > >= << >> + - * / % ! ( ) [ ] { } , ; : ? | || . => +> -> ~> <- <~ @ @@ <| |> <<| |>> $ # a b foo::bar Foo Foo::Bar ::a notice '
           'include workflow resource action stateHandler times each $a $x::y $1 0 1 42 0x1F 017 1.5 1e3 \'s\' "d" "${a}" "a${1}b" /r/ () {} [] [1] {a=>1} %> -%> <% | ~ & ^ ` \\').split() + ['@(E)\nx\n| E\n', '\n', '/* c */', '# c\n']
TOKENS3 = ('class define function if unless else case node type in and = == + - * ! ( ) [ ] { } , ; : ? | . => -> @ <| |> a foo::bar Foo notice $a $1 1 1.5 \'s\' "${a}" /r/ {} [1]').split() + ['\n']
TOKENS4 = ('if { } ( ) [ ] , a Foo $a 1 => | . : + =').split()


def enum(tokens, n, mode='', sep=' '):
    for t in itertools.product(tokens, repeat=n):
        yield sep.join(t).encode(), mode


def bytesources(seed, n):
    """Sources with NULs, bytes that are not UTF-8, and characters at the edges of the encoding."""
    import random
    r = random.Random(seed)
    odd = [b'\0', b'\x80', b'\xff', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f', b'\xef\xbf\xbd', b'\xf4\x8f\xbf\xbf', b'\xef\xbb\xbf', b'\xc2\x85', b'\xe2\x80\xa8', b'\x7f', b'\x01', b'\x0b', b'\x0c', b'\xf5']
    for s, m in gen.sources(seed, n, mutated=.1):
        for _ in range(r.choice((1, 1, 1, 2))):
            i = r.randrange(len(s) + 1)
            s = s[:i] + r.choice(odd) + s[i:]
        yield s, m


def domain_sources(d):
    if d == 'enum2':
        out = [x for m in ('', 'e', 'w', 's') for k in (1, 2) for x in enum(TOKENS2, k, m)] + [(b'', m) for m in ('', 'e', 'w', 's', 't', 'b')]
        out += [x for x in enum([t for t in TOKENS2 if '\n' not in t], 2, '', '')]
    elif d == 'enum3':
        out = list(enum(TOKENS3, 3))
    elif d == 'enum4':
        out = list(enum(TOKENS4, 4))
    elif d in words.ALL:
        out = list(words.sources(d))
    elif d == 'huge':
        out = huge.sources()
    elif d == 'large':
        out = large.sources()
    elif d == 'long':
        out = longs.sources('suite', 3000)
    elif d == 'bytes':
        out = list(bytesources(4242, 6000))
    elif d == 'snip':
        out = [(s.encode('latin1'), m) for s, m in json.load(gzip.open(os.path.join(SUITE, 'snippets.json.gz')))]
    else:
        out = gen.sources('suite ' + d, 7000 if d in ('res', 'heredoc', 'valid', 'epp', 'wf', 'call', 'interp', 'wrap', 'def', 'stmt') else 5000, [d], mutated=.25, modes=.08)
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


def digest(t):
    return hashlib.sha256(t.encode()).digest()[:W]


def spec_hash():
    h = hashlib.blake2b(digest_size=12)
    for f in ("Floats", "Letters", "Chars", "Syntax", "Observe", "PN", "Literal", "Messages", "Validator", "Said"):
        h.update(open(os.path.join(SPEC, f + '.tla'), 'rb').read())
    return h.hexdigest()


def build_suite(d):
    srcs = domain_sources(d)
    t = time.time()
    res = observe_many([{'s': s, 'm': m, 'f': ALL} for s, m in srcs])
    died = [(s, m, r) for (s, m), r in zip(srcs, res) if '!' in r]
    if died:
        raise SystemExit(f'{d}: died {died[:3]}')
    bad = {}
    for i in range(0, len(srcs), 40000):
        b, _ = conform([(s, m, r) for (s, m), r in zip(srcs[i:i + 40000], res[i:i + 40000])], timeout=3600)
        bad.update({(k[0] + i, k[1]): v for k, v in b.items()})
    if bad:
        for (i, f), want in sorted(bad.items(), key=lambda b: len(srcs[b[0][0]][0]))[:int(os.environ.get('SHOW', '5'))]:
            print('BAD', srcs[i], f, '\n want', want[:500], '\n got ', res[i][f][:500])
        raise SystemExit(f'{d}: {len(bad)} mismatches')
    head = {'spec': spec_hash(), 'facets': ALL, 'src': [s.decode('latin1') for s, m in srcs], 'mode': [m for s, m in srcs]}
    # hashes by facet: they compress better, since many are alike
    body = b''.join(digest(r[f]) for f in ALL for r in res)
    with open(os.path.join(SUITE, d + '.gz'), 'wb') as f:
        f.write(gzip.compress(json.dumps(head, ensure_ascii=False, separators=(',', ':')).encode() + b'\n' + body, 9, mtime=0))
    print(f'{d}: {len(srcs)} sources, {time.time() - t:.0f} s, {os.path.getsize(os.path.join(SUITE, d + ".gz"))} bytes', flush=True)


class Suite:
    def __init__(self, d):
        data = gzip.open(os.path.join(SUITE, d + '.gz')).read()
        i = data.index(b'\n')
        head = json.loads(data[:i])
        self.name, self.spec = d, head['spec']
        self.srcs = [(s.encode('latin1'), m) for s, m in zip(head['src'], head['mode'])]
        self.n, self.body = len(self.srcs), data[i + 1:]
        self.facets = head['facets']

    def want(self, i, f):
        k = (self.facets.index(f) * self.n + i) * W
        return self.body[k:k + W]


DOMAINS = gen.DOMAINS + ['bytes', 'snip', 'enum2', 'enum3', 'enum4'] + list(words.ALL) + ['long', 'huge', 'large']

if __name__ == '__main__':
    build()
    for d in [x for x in sys.argv[2:] if x in DOMAINS] or DOMAINS:
        build_suite(d)
