"""Large sources: many small programs, one after the other, with what is between them taken from parts of equal length."""
import random
from vlib import *

# what is between two programs, all of one length
FILLERS = [b'\n;' + x for x in (b'\n\n\n\n\n\n', b'      ', b' # aa\n', b'/*\n*/\n', b'/*\xc3\xa9*/', b'\r\n\r\n\r\n', b'#\xe6\x97\xa5\n ', b'\t\t\t\t\t\n', b' \n  \n ', b'# \xc3\xa9\n ', b'/**/\n\n')]
FILLERS = [x for x in FILLERS if len(x) == 8]
MARK = re.compile(b'|'.join(re.escape(x) for x in FILLERS))


def join(r, parts):
    return b''.join(p + r.choice(FILLERS) for p in parts)


def compose(r, parts, size):
    """Sources of one length: the same parts with other fillers, or in another order."""
    ps, n = [], 0
    while n < size:
        p = r.choice(parts)
        ps.append(p)
        n += len(p) + 8
    out = [join(r, ps), join(r, ps)]
    r.shuffle(ps)
    return out + [join(r, ps)]


def parts():
    """Programs of the suites that can be anywhere among others."""
    import suite
    r = random.Random('parts')
    cand = []
    for d in ('stmt', 'def', 'res', 'query', 'expr', 'call', 'str', 'interp', 'heredoc', 'num', 'cond', 'valid', 'lit', 'pos', 'deep', 'wrap', 'snip'):
        su = suite.Suite(d)
        ok = suite.digest('"ok"')
        cand += r.sample([s for i, (s, m) in enumerate(su.srcs) if m == '' and 8 < len(s) < 300 and su.want(i, 'A') == ok], 200)
    res = observe_many([{'s': b'1;' + s + b'\n;      1', 'm': '', 'f': 'A'} for s in cand])
    alone = [s for s, x in zip(cand, res) if x.get('A') == '"ok"']
    # nothing of a part may look like what is between parts
    return [s for s in alone if not MARK.search(s)]


def sources():
    """Those of the suite."""
    r = random.Random('large')
    ps = parts()
    out = []
    for k in range(56):
        out += compose(r, ps, r.choice((4100, 4200, 4500, 5000, 6000)))
    for s in out[::4]:
        # an error far from the start
        i = r.randrange(len(s) * 2 // 3, len(s))
        out.append(s[:i])
    return [(s, '') for s in out]


def fresh(seed, n):
    import suite
    r = random.Random('large %s' % seed)
    ps = sorted({p for s, m in suite.Suite('large').srcs for p in MARK.split(s)[:-1]})
    out = []
    while len(out) < n:
        out += compose(r, ps, r.choice((4100, 4300, 4600)))
        if r.random() < .5:
            out[-1] = out[-1][:r.randrange(4100, len(out[-1]))]
    return [(s, '') for s in out[:n]]
