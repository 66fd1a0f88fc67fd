"""Sources that differ in layout only."""
import random
from vlib import *
import gen

WITHIN = [' ', '\t', '  \t', '\r', '/**/', " /* #' */", '/* "{ **/ ', ' /*\u00e9/*/\t', '/* \n */', ' /* a\n\n */ ']
ACROSS = ['\n', ' \n', '\n \t', '\r\n', '#\n', ' # c /*\n', '\n\n', '\n/*\n*/ ', ' /* # */\n', "#\U0001F600'\r\n ", '#"\n # \'\n']
# on a line with a heredoc the first line end is where its text begins
WITHIN_H, ACROSS_H = WITHIN[:6], ['\n', ' \n', '\r\n', '#\n', ' # c\n', '\t\n']


class Marked(gen.Gen):
    """Marks where layout is instead of choosing one."""

    def ws(self):
        return '\ue000' if self.p(.75) else '\ue001'

    def string(self, d=1):
        while True:
            s = gen.Gen.string(self, d)
            if s not in ("'x", '"x', '"${'):
                return s

    def regex(self):
        return '\ue003' + gen.Gen.regex(self)[1:].replace('/', '\ue002')

    def sp(self):
        return '' if self.p(.5) else self.ws()


def slashes(s):
    """Whether divisions are divisions and regular expressions are those: if not, layout becomes part of a token."""
    s = re.sub(r'@\([^)\n]*', '', s)
    for m in re.finditer('[/\ue003]', s):
        left = s[:m.start()].rstrip('\ue000\ue001 \t\r\n')
        w = re.search(r'([\w$:]*)$', left).group(1)
        operand = w and (w[0] == '$' or w not in gen.KEYWORDS or w in ('true', 'false')) or left[-1:] in tuple(')]\'"\ue002')
        if bool(operand) != (m.group(0) == '/'):
            return False
    return True


def lay(r, s):
    """Some layout of a marked source."""
    here = '@(' in s
    return ''.join(r.choice(WITHIN_H if here else WITHIN) if c == '\ue000' else r.choice(ACROSS_H if here else ACROSS) if c == '\ue001' else c for c in s)


def families(seed, n, variants=4, domains=None):
    """[(list of sources, mode)]."""
    g = Marked('layout %s' % seed)
    r = random.Random('lay %s' % seed)
    out = []
    while len(out) < n:
        s, m = g.source(g.c(*(domains or [d for d in gen.DOMAINS if d not in ('soup', 'chars')])))
        if '\ue000' not in s and '\ue001' not in s or any(x in s for x in ('"${"', '<%#', '/*', '/\ue000*', '/ *')):
            continue
        if g.p(.25) and 'e' not in m and not re.search('["\'`@/\ue002]', s):
            s = g.mutate(s)
            if re.search('["\'`@/#\ue002\ue003]', s):
                continue
        if not slashes(s):
            continue
        s = s.replace('\ue002', '/').replace('\ue003', '/')
        vs = [s.replace('\ue000', ' ').replace('\ue001', '\n')] + [lay(r, s) for _ in range(variants - 1)]
        if all(len(v) < 600 for v in vs):
            out.append(([v.encode('utf-8', 'surrogatepass') for v in vs], m))
    return out


def observe_families(fs):
    """What each member of each family means to the implementation; None where that is unknown."""
    reqs = [{'s': s, 'm': m, 'f': 'S'} for ss, m in fs for s in ss]
    res = observe_many(reqs)
    out, k = [], 0
    for ss, m in fs:
        out.append([(r or {'!': 'unknown'}) for r in res[k:k + len(ss)]])
        k += len(ss)
    return [[x.get('S', '!' + x.get('!', '')) for x in xs] for xs in out]


def validate(fs, rs, timeout=900):
    """{(family, 'X' or 'S'): wanted}"""
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for (ss, m), r in zip(fs, rs):
            f.write(json.dumps({'srcs': [codes(s) for s in ss], 'm': m, 'r': r}) + '\n')
    try:
        rc, out = tlc('LayoutTrace', env={'TRACE': path}, timeout=timeout)
    finally:
        os.unlink(path)
    bad = {}
    for line in out.split('\n'):
        m = MISMATCH.match(line)
        if m:
            mm = re.match(r'^<<"MISMATCH", (\d+), "(\w+)", "(.*)">>$', unescape(m.group(1)), re.S)
            bad[(int(mm.group(1)) - 1, mm.group(2))] = unescape(mm.group(3))
    stt = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not stt or int(stt.group(2)) != len(fs) + 16:
        raise Broken('TLC failed:\n' + out[-4000:])
    return bad, {'states': int(stt.group(2)), 'transitions': int(stt.group(1)) - 16}


TOKENS = "a Foo $a 1 ( ) [ ] { } , => - * | . if @@ <| \"${a}\" 'x' = notice ? : -1 == !".split()

WORDS = "class a b { } ( ) , workflow resource step type => [ ] function $a define import".split()


def generate(tokens, depth, variants, mode='', timeout=900):
    """All token sequences. Returns ([(sources, meaning)], sources at odds, stats)."""
    fd, path = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump({'tokens': [codes(t.encode()) for t in tokens], 'depth': depth, 'mode': mode, 'variants': variants}, f)
    try:
        rc, out = tlc('LayoutGen', env={'SETUP': path}, timeout=timeout)
    finally:
        os.unlink(path)
    stt = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not stt:
        raise Broken('TLC failed:\n' + '\n'.join(x for x in out.split('\n') if not x.startswith(('"@', 'Parsing', 'Semantic')))[-4000:])
    fams, odd = [], []
    for line in out.split('\n'):
        if line.startswith('"@'):
            v = json.loads(unescape(line[2:-1]))
            if 'bad' in v:
                odd.append(v['bad'])
            else:
                fams.append(([''.join(map(chr, s)).encode() for s in v['s']], v['r']))
    if len(fams) != int(stt.group(2)) - 1:
        raise Broken('states were lost: %d of %s' % (len(fams), stt.group(2)))
    return fams, odd, {'states': int(stt.group(2)), 'transitions': int(stt.group(1)) - 1}
