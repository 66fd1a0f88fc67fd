"""Histories of parsers and validators: generated from the specification, or recorded and validated by it."""
import random
from vlib import *
import gen


def encode(step):
    """A step for the harness: sources are bytes in base64."""
    r = dict(step)
    r['s'] = base64.b64encode(step['s']).decode()
    return r


def run(sessions, vh=None, timeout=600):
    """Observes sessions (lists of steps). Returns the lists of results, or {'!': reason}."""
    res = observe_many([{'steps': [encode(s) for s in ss]} for ss in sessions], vh, timeout)
    return [r if r is None or '!' in r else [r[str(i)] for i in range(len(ss))] for r, ss in zip(res, sessions)]


def validate(sessions, results, timeout=900):
    """Lets the specification judge recorded sessions. Returns ({(session, step): wanted}, stats)."""
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for ss, r in zip(sessions, results):
            f.write(json.dumps({'steps': [dict(s, s=codes(s['s']), f=list(s['f'])) for s in ss], 'r': r}) + '\n')
    try:
        rc, out = tlc('SessionTrace', env={'TRACE': path}, timeout=timeout)
    finally:
        os.unlink(path)
    bad = {}
    for line in out.split('\n'):
        m = MISMATCH.match(line)
        if m:
            mm = re.match(r'^<<"MISMATCH", (\d+), "(\w+)", "(.*)">>$', unescape(m.group(1)), re.S)
            bad[(int(mm.group(1)) - 1, int(mm.group(2)) - 1)] = unescape(mm.group(3))
    st = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not st or int(st.group(2)) != sum(len(s) + 1 for s in sessions):
        raise Broken('TLC failed:\n' + '\n'.join(x for x in out.split('\n') if not x.startswith(('"@', 'Parsing', 'Semantic')))[-4000:])
    return bad, {'states': int(st.group(2)), 'transitions': int(st.group(1)) - len(sessions)}


def judge_parts(xs, timeout=900):
    """Lets the specification judge what was observed of parts of trees: (source, mode, [(number, facets, results)]). Returns ({(index, part, facet): wanted}, stats)."""
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for s, m, ps in xs:
            f.write(json.dumps({'s': codes(s), 'm': m, 'parts': [{'n': n, 'f': list(fs), 'r': r} for n, fs, r in ps]}) + '\n')
    try:
        rc, out = tlc('PartsTrace', env={'TRACE': path}, timeout=timeout)
    finally:
        os.unlink(path)
    bad = {}
    for line in out.split('\n'):
        m = MISMATCH.match(line)
        if m:
            mm = re.match(r'^<<"MISMATCH", (\d+), "p(\d+)(.)", "(.*)">>$', unescape(m.group(1)), re.S)
            bad[(int(mm.group(1)) - 1, int(mm.group(2)) - 1, mm.group(3))] = unescape(mm.group(4))
    st = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not st or int(st.group(2)) != len(xs) + 16:
        raise Broken('TLC failed:\n' + '\n'.join(x for x in out.split('\n') if not x.startswith('"'))[-4000:])
    return bad, {'states': int(st.group(2)), 'transitions': int(st.group(1)) - 16}


def st(op, p='', t='', v='', m='', s=b'', f=''):
    return {'op': op, 'p': p, 't': t, 'v': v, 'm': m, 's': s, 'f': f}


MODES = ['', '', 'w', 't', 'e', 'h', 'b', 'tw', 'hb', 'ew']


def pool(r, n, mode=''):
    """Sources that leave much behind: definitions, errors in the middle of things, heredocs, steps, lookahead."""
    g = gen.Gen(r.random())
    fixed = ['', 'class a { class b { fail(', 'workflow a {} { resource b {} {', "function a::b() { $x = @(E)\n", '"a${"', 'class a { }', 'define b { } type A = B', "@(A)\nx\n| A\n", 'notice 1', '/a', "$a = 'x'\n\n\né 1", 'a <| b |> c', 'node a { ', 'plan x { }', '<% $a -%> x',
             'workflow a { } { workflow b { } { resource c { } { d => $e } } }', 'if a { b {', 'application a { }', 'f(1) |$x| { type B = C }', '[1, 2', 'class a inherits b { define c { } }', '\U0001F600 é', "é\n$a + \n x", '$a ? { b => type C }', 'class', '{ a => { b => class c { } } }']
    out = []
    while len(out) < n:
        s = g.c(*fixed) if g.p(.5) else g.source(g.c('stmt', 'def', 'wf', 'heredoc', 'interp', 'valid', 'res', 'call', 'epp', 'tasks', 'wrap', 'cond'))[0]
        if g.p(.25):
            s = g.mutate(s)
        b = s.encode('utf-8', 'surrogatepass')
        if g.p(.03):
            b = b[:len(b) // 2] + g.c(b'\0', b'\xff', b'\xc3') + b[len(b) // 2:]
        if len(b) < 200:
            out.append(b)
    return out


# Programs with much that a tree has lists of
FERTILE = [b'class a { }', b' define b { } type A = B', b'function f() { } node x { } site { }', b'f(1, $a, b => 2) |$x, $y| { $x; $y }', b'[1, 2, 3] { a => 1, b => 2 }', b'file { a: b => 1, c => 2; d: }', b'case $a { 1, 2: { } 3: { } default: { } }',
           b'$a ? { 1 => 2, 3 => 4 }', b'"a${b}c${d}"', b"class a($b, $c = 1) inherits d { class e { } define f { } }", b'A <| a == 1 and b == 2 |> { c => 1, d => 2 }', b'node a, b.c, /d/ { 1; 2; 3 }', b'@(E)\n a\n | E\n', b'@("E"/tn)\n a${b}\\n\n | E\n',
           b'if a { 1 } elsif b { 2 } else { 3 }', b'type A = B[1, 2] type C = { a => 1, b => 2 } class d { }', b'\xc3\xa9\n$a\n$b', b'function a::b($c, *$d) >> A { $c }', b'plan', b'notice 1, 2', b'class x { fail(', b'define y { } )', b'f(|$x| { })', b'A[1, 2][3] { a => 1 }']


def parser_sessions(seed, n, length=8):
    """Several parsers, many parses, and another look at earlier trees."""
    r = random.Random('parsers %s' % seed)
    src = pool(r, n * 3)
    out = []
    for _ in range(n):
        ps = {p: r.choice(MODES) for p in 'pqr'[:r.randrange(1, 4)]}
        ss = [st('new', p=p, m=m) for p, m in ps.items()]
        ts = []
        same = [r.choice(src if r.random() < .5 else FERTILE) for _ in range(3)]
        for k in range(r.randrange(2, length)):
            if ts and r.random() < .3:
                ss.append(st('look', t=r.choice(ts), f=r.choice(['S', 'SP', 'SPD', 'SPDT2', 'N', 'E'])))
            else:
                t = 't%d' % len(ts)
                ts.append(t)
                ss.append(st('parse', p=r.choice(list(ps)), t=t, m=r.choice(['', '', '', 's']), s=r.choice(same if r.random() < .5 else src), f=r.choice(['SEPD', 'SED', 'SEPDT', 'ED'])))
        # what was there before is there still
        out.append(ss + [st('look', t=t, f=r.choice(['SPD', 'SPD', 'SPDT', 'NPD2', 'SPDE'])) for t in r.sample(ts, min(3, len(ts)))])
    return out


def validator_sessions(seed, n, programs, length=9):
    """Validators and combinations of parser and validator. programs: sources that are programs in mode ''."""
    r = random.Random('validators %s' % seed)
    src = pool(r, n * 2)
    out = []
    for _ in range(n):
        ss = [st('new', p='p'), st('new', p='q', m=r.choice(MODES)), st('vnew', v='v', m=r.choice('01234')), st('vnew', v='x', m=r.choice('01234'))]
        for k in range(2):
            ss.append(st('parse', p='p', t='t%d' % k, s=r.choice(programs), f='A'))
        ss.append(st('part', p='t0', t='u', f='x' * r.randrange(30)))
        ss += [st('pv', p='p', v='v', t='w'), st('pv', p='q', v=r.choice('vx'), t='y')]
        for k in range(r.randrange(2, length)):
            o = r.randrange(13)
            if o > 10:
                ss.append(st('keep', v=r.choice('vx'), t=r.choice(['k0', 'k1', 'k2'])))
            elif o > 9:
                kept = [s['t'] for s in ss if s['op'] == 'keep'] + [s['v'] for s in ss if s['op'] == 'pvparse']
                if kept:
                    ss.append(st('kept', t=r.choice(kept)))
            elif o < 4:
                ss.append(st('check', v=r.choice('vx'), t=r.choice(['t0', 't1', 'u'])))
            elif o < 7:
                ss.append(st('pvparse', t=r.choice('wwy'), v=r.choice(['r0', 'r1', 'r2']), s=r.choice(programs if r.random() < .6 else src)))
            elif o < 8:
                ss.append(st('clear', v=r.choice('vx')))
            elif o < 9:
                ss.append(st('issues', v=r.choice('vx')))
            else:
                ss.append(st('parse', p=r.choice('pq'), t='z', s=r.choice(src), f='SE'))
        out.append(ss + [st('kept', t=k) for k in sorted({s['t'] for s in ss if s['op'] == 'keep'} | {s['v'] for s in ss if s['op'] == 'pvparse'})])
    return out


SOFT = ['VALIDATE_DUPLICATE_KEY', 'VALIDATE_FUTURE_RESERVED_WORD', 'VALIDATE_IDEM_EXPRESSION_NOT_LAST']
HARD = ['VALIDATE_RESERVED_WORD', 'VALIDATE_NOT_RVALUE', 'VALIDATE_ILLEGAL_ASSIGNMENT_CONTEXT', 'VALIDATE_IDEM_NOT_ALLOWED_LAST', 'VALIDATE_DUPLICATE_PARAMETER', 'VALIDATE_DUPLICATE_DEFAULT', 'VALIDATE_NOT_TOP_LEVEL', 'VALIDATE_CATALOG_OPERATION_NOT_SUPPORTED',
        'VALIDATE_ILLEGAL_EXPRESSION', 'VALIDATE_CROSS_SCOPE_ASSIGNMENT', 'VALIDATE_RESERVED_TYPE_NAME', 'VALIDATE_INVALID_SOURCE', 'VALIDATE_RESERVED_PARAMETER', 'PARSE_EXPECTED_TOKEN', 'LEX_UNEXPECTED_TOKEN', 'VALIDATE_UNSUPPORTED_EXPRESSION', 'VALIDATE_NOT_VIRTUALIZABLE', 'VALIDATE_ILLEGAL_CLASSREF']
SAID = ['', 'off', 'OFF', 'warning', 'Warning', 'error', 'ERROR', 'ignore', 'deprecation', 'warn', 'off ', ' error', 'true', 'none', 'errors', 'Off', 'wARNING', '0']


def demotion_sessions(seed, n, programs, length=12):
    """Validators of all sorts, those of users included, with the severities that their owners want. programs: sources that are programs in mode ''."""
    r = random.Random('demotions %s' % seed)
    out = []
    for _ in range(n):
        ss = [st('new', p='p')] + [st('vnew', v=v, m=r.choice('0123400112oo')) for v in 'vxy'[:r.randrange(1, 4)]]
        vs = [s['v'] for s in ss[1:]]
        for k in range(2):
            ss.append(st('parse', p='p', t='t%d' % k, s=r.choice(programs), f='A'))
        ss.append(st('part', p='t1', t='u', f='x' * r.randrange(30)))
        ss.append(st('pv', p='p', v=vs[0], t='w'))
        for k in range(r.randrange(2, length)):
            o = r.random()
            if o < .35:
                code, level = r.choice(SOFT) if r.random() < .8 else r.choice(HARD) if r.random() < .9 else r.choice(['NO_SUCH_ISSUE', '', 'validate_duplicate_key']), r.choice((1, 2, 3, 4)) if r.random() < .9 else r.choice((0, 5, 6))
                ss.append(st('demote', v=r.choice(vs), m=code, f='x' * level))
            elif o < .7:
                ss.append(st('check', v=r.choice(vs), t=r.choice(['t0', 't1', 'u'])))
            elif o < .75:
                ss.append(st('issues', v=r.choice(vs)))
            elif o < .8:
                ss.append(st('clear', v=r.choice(vs)))
            elif o < .84:
                ss.append(st('pvparse', t='w', v='r', s=r.choice(programs)))
            elif o < .9:
                ss.append(st('once', t=r.choice(['t0', 't1', 'u']), m=r.choice('01234')))
            elif o < .94:
                ss.append(st('walk', t=r.choice(['t0', 't1', 'u'])))
            elif o < .97:
                ss.append(st('strict', m=r.choice(SAID)))
            else:
                ss.append(st('keep', v=r.choice(vs), t='k'))
        ss += [st('check', v=v, t=r.choice(['t0', 't1'])) for v in vs]
        out.append(ss + [st('kept', t='k')] * any(s['op'] == 'keep' for s in ss))
    return out


def generate(seed, depth, count, sort, facets='SED', timeout=900):
    """Lets TLC enumerate all histories of the given depth over a small pool. Returns ([(steps, results)], stats)."""
    r = random.Random('generate %s' % seed)
    modes = [r.choice(['', '', 't', 'h']), r.choice(['', 'w', 'e', 'wt'])]
    srcs = []
    while len(srcs) < count:
        srcs += [s for s in pool(r, 1) if s not in srcs]
    res = observe([{'s': s, 'm': m, 'f': 'A'} for m in modes for s in srcs])
    programs = [[bool(res[j * count + i]) and res[j * count + i].get('A') == '"ok"' for i in range(count)] for j in range(2)]
    # what is a program is for the specification to say
    bad, _ = conform([(s, m, {'A': '"ok"' if programs[j][i] else 'no'}) for j, m in enumerate(modes) for i, s in enumerate(srcs)])
    for j in range(2):
        for i in range(count):
            if (j * count + i, 'A') in bad:
                programs[j][i] = bad[(j * count + i, 'A')] == '"ok"'
    fd, path = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump({'sources': [codes(s) for s in srcs], 'programs': programs, 'modes': modes, 'sort': sort, 'depth': depth, 'facets': list(facets)}, f)
    try:
        rc, out = tlc('SessionGen', env={'SETUP': path}, timeout=timeout)
    finally:
        os.unlink(path)
    stt = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not stt:
        raise Broken('TLC failed:\n' + '\n'.join(x for x in out.split('\n') if not x.startswith(('"@', 'Parsing', 'Semantic')))[-4000:])
    begin = [st('new', p='p', m=modes[0]), st('new', p='q', m=modes[1]), st('vnew', v='v', m=sort), st('pv', p='p', t='w', v='v')]
    seen = {}
    for line in out.split('\n'):
        if line.startswith('"@'):
            v = json.loads(unescape(line[2:-1]))
            steps = [st(x['op'], p=x['p'], t=x['t'], v=x['v'], s=srcs[x['i'] - 1] if x['i'] else b'', f=facets if x['op'] in ('parse', 'look') else '') for x in v['h']]
            seen[tuple(json.dumps(encode(s), sort_keys=True) for s in steps)] = (steps, v['r'])
    out = []
    for key, (steps, want) in seen.items():
        if len(key) == depth:
            wants = [None] * 4 + [seen[key[:k + 1]][1] for k in range(depth)]
            out.append((begin + steps, wants))
    if len(seen) != int(stt.group(2)) - 1:
        raise Broken('histories were lost: %d of %s' % (len(seen), stt.group(2)))
    return out, {'states': int(stt.group(2)), 'transitions': int(stt.group(1)) - 1}
