"""What decides the properties about histories, schedules, the command and layout."""
import random
import vlib
from vlib import *
import gen, suite, words, large, sessions, cli, layout, notation, trees, cursors


def states(c, st):
    c.cov['states'] += st['states']
    c.cov['transitions'] += st['transitions']


def right(src, m, fs):
    """Whether a parser that is used once gets these facets right."""
    r = observe([{'s': src, 'm': m, 'f': fs}])[0]
    if r is None or '!' in r:
        return False
    bad, _ = conform([(src, m, {f: r[f] for f in fs})])
    return not bad


def show(steps):
    return [{k: (v.decode('latin1') if isinstance(v, bytes) else v) for k, v in s.items() if v} for s in steps]


# What the judgement of a sort of validators builds on
SORT = {'0': 'S02', '1': 'S12', '2': 'S2', '3': 'S3', '4': 'S4', 'o': 'SPTC'}


def birth(steps, t):
    """The steps that the tree t comes from: a parse, and the parts that were taken."""
    x = [x for x in steps if x['op'] in ('parse', 'part') and x['t'] == t][-1]
    return [x] if x['op'] == 'parse' else birth(steps[:steps.index(x)], x['p']) + [x]


def facets_of(steps, k):
    """The source, mode and facets that the k:th step depends on: what is wrong with those anyhow is not for histories."""
    s = steps[k]
    ps = {x['p']: x['m'] for x in steps[:k + 1] if x['op'] == 'new'}
    vs = {x['v']: x['m'] for x in steps[:k + 1] if x['op'] == 'vnew'}
    ws = {x['t']: (x['p'], x['v']) for x in steps[:k + 1] if x['op'] == 'pv'}
    if s['op'] == 'parse':
        return s['s'], ps[s['p']] + ('s' if 's' in s['m'] else ''), s['f']
    if s['op'] == 'look':
        x = birth(steps[:k], s['t'])[0]
        return x['s'], ps[x['p']] + ('s' if 's' in x['m'] else ''), s['f']
    if s['op'] == 'check':
        x = birth(steps[:k], s['t'])[0]
        return x['s'], ps[x['p']], SORT[vs[s['v']]]
    if s['op'] in ('once', 'walk'):
        x = birth(steps[:k], s['t'])[0]
        return x['s'], ps[x['p']], SORT[s['m'] or 'o']
    if s['op'] == 'pvparse':
        p, v = ws[s['t']]
        return s['s'], ps[p], 'EM' + SORT[vs[v]]
    return None


def right_alone(steps, k):
    """Whether a validator that is used once is right about the part of a tree that the k:th step is about."""
    s = steps[k]
    b = birth(steps[:k], s['t']) if s['op'] in ('check', 'once', 'walk') else []
    if len(b) < 2:
        return True
    m = [x['m'] for x in steps[:k] if x['op'] == 'new' and x['p'] == b[0]['p']][-1]
    v = [x for x in steps[:k] if x['op'] == 'vnew' and x['v'] == s['v']]
    alone = [sessions.st('new', p=b[0]['p'], m=m)] + b + v[-1:] + [s]
    r = sessions.run([alone])[0]
    return isinstance(r, list) and not sessions.validate([alone], [r])[0]


def blame(c, steps, k, want, got, ops):
    """A result of a history is not what it should be."""
    if steps[k]['op'] not in ops:
        return
    d = facets_of(steps, k)
    if d and not (right(*d) and right_alone(steps, k)):
        return
    if not d:
        # what a validator has left: judged where what it was given is right
        for j in range(k):
            e = facets_of(steps, j) if steps[j]['op'] in ('check', 'pvparse') else None
            if e and not (right(*e) and right_alone(steps, j)):
                return
    c.violation({'history': show(steps[:k + 1]), 'want': want, 'got': got})


def histories(c, ss, ops, what, judge=None):
    """Records these histories and lets the specification judge them."""
    res = sessions.run(ss)
    for s, r in zip(ss, res):
        if isinstance(r, dict):
            ds = [facets_of(s, j) for j in range(len(s))]
            if all(observe([{'s': x[0], 'm': x[1], 'f': x[2]}])[0] not in (None,) and '!' not in observe([{'s': x[0], 'm': x[1], 'f': x[2]}])[0] for x in ds if x):
                c.violation({'history': show(s), 'want': 'an answer', 'got': r['!']})
    ok = [(s, r) for s, r in zip(ss, res) if isinstance(r, list)]
    bad, st = sessions.validate([s for s, r in ok], [r for s, r in ok])
    states(c, st)
    c.cov['traces_validated_against_impl'] += len(ok) - len({i for i, k in bad})
    c.cov[what] = c.cov.get(what, 0) + len(ok)
    for (i, k), want in sorted(bad.items(), key=lambda x: (x[0][1], x[0][0]))[:40]:
        if not judge or judge(ok[i][1][k], want):
            blame(c, ok[i][0], k, want, ok[i][1][k], ops)
        if len(c.violations) > 3:
            return
    for s, r in ok[:2]:
        c.cov['samples'].append({'history': show(s)[:6], 'observed': [x[:200] for x in r[:6]]})


def generated(c, seed, depth, count, sort, ops):
    """All histories of a length over a small pool, from the specification, replayed."""
    hs, st = sessions.generate(seed, depth, count, sort)
    states(c, st)
    res = sessions.run([s for s, w in hs])
    c.cov['generated_histories_replayed'] = c.cov.get('generated_histories_replayed', 0) + len(hs)
    good = 0
    for (s, want), r in zip(hs, res):
        if not isinstance(r, list):
            continue
        diff = [k for k in range(len(s)) if want[k] is not None and want[k] != r[k]]
        good += not diff
        if diff and len(c.violations) < 3:
            blame(c, s, diff[0], want[diff[0]], r[diff[0]], ops)
    c.cov['traces_validated_against_impl'] += good


PARSES = ('parse', 'look')
CHECKS = ('check', 'issues', 'clear', 'pvparse', 'keep', 'kept')


def c23_histories(c):
    deep = c.tier != 'quick'
    for k in range(6 if deep else 1):
        histories(c, sessions.parser_sessions('%s.%s' % (c.seed, k), 2500 if deep else 1500, 14 if deep else 9), PARSES, 'recorded_histories_validated')
    for k in range(3 if deep else 1):
        if not c.violations:
            generated(c, '%s.%s' % (c.seed, k), 3 if deep else 2, 6 if deep else 7, '2', PARSES)


def c23_chains(c):
    """Long lives: many sources of the suites through few parsers, against what the suites say of each."""
    lives(c, 'SEPD', [d for d in suite.DOMAINS if not d.startswith('enum') or d == 'enum2'], 1500, None)


def short_lives(c):
    """The same of what a property is about: it holds of a parser that has parsed other sources before as well."""
    fs = ''.join(f for f in c.c['facets'] if f != 'K')
    doms = [d for d in dict.fromkeys(c.c['domains']) if d not in ('enum3', 'enum4', 'huge')]
    lives(c, fs, doms, max(250, 7000 // len(doms)), c.c.get('where'))


def lives(c, fs, doms, most, where):
    r = random.Random('chains %s' % c.seed)
    byte = {}
    for d in doms:
        su = suite.Suite(d)
        n = min(len(su.srcs), most if c.tier == 'quick' else 10 * most)
        for i in r.sample(range(len(su.srcs)), n):
            s, m = su.srcs[i]
            byte.setdefault(m.replace('s', ''), []).append((s, 's' if 's' in m else '', su, i))
    chains = []
    for m, xs in sorted(byte.items()):
        r.shuffle(xs)
        # one that lives very long, others that live long
        n = min(len(xs) // 4, 3000 if c.tier != 'quick' else 1200)
        chains.append((m, xs[:n]))
        for k in range(n, len(xs), 40):
            chains.append((m, xs[k:k + 40]))
    ss = [[sessions.st('new', p='p', m=m)] + [sessions.st('parse', p='p', t='t%d' % j, m=x[1], s=x[0], f=fs) for j, x in enumerate(xs)] +
          [sessions.st('look', t='t%d' % j, f=fs) for j in range(len(xs))] for m, xs in chains]
    res = sessions.run(ss)
    n, suspects = 0, []
    for (m, xs), s, got in zip(chains, ss, res):
        if not isinstance(got, list):
            continue
        for j, (src, sg, su, i) in enumerate(xs):
            n += 1
            parts = split(got[j + 1])
            if [suite.digest(p) for p in parts] != [su.want(i, f) for f in fs]:
                suspects.append((s, j + 1, parts))
            elif got[j + 1 + len(xs)] != got[j + 1]:
                suspects.append((s, j + 1 + len(xs), split(got[j + 1 + len(xs)])))
    c.cov['parses_in_long_lives'] = n
    for s, j, parts in suspects[:200]:
        src, m, f = facets_of(s, j)
        if where and not where(src, m):
            continue
        alone = observe([{'s': src, 'm': m, 'f': fs}])[0]
        if alone and '!' not in alone and [alone[f] for f in fs] != parts and right(src, m, fs):
            c.violation({'history': show(s[:j + 1]), 'want': [alone[f] for f in fs], 'got': parts})
            if len(c.violations) > 2:
                return


def split(t):
    """The members of a tuple as text."""
    out, depth, i, start, quoted = [], 0, 2, 2, False
    n = len(t) - 2
    while i < n:
        ch = t[i]
        if quoted:
            if ch == '\\':
                i += 1
            elif ch == '"':
                quoted = False
        elif ch == '"':
            quoted = True
        elif ch == '<':
            depth += 1
            i += 1
        elif ch == '>':
            depth -= 1
            i += 1
        elif ch == ',' and depth == 0:
            out.append(t[start:i])
            start = i + 2
        i += 1
    if n > 2:
        out.append(t[start:n])
    return out


def at_once(c, reqs, base, what):
    """Runs requests of histories at the same time with the race detector. base: for each what its histories give alone."""
    vh = build(race=True)
    payload = '\n'.join(json.dumps({'i': i, 'first': [sessions.encode(x) for x in first], 'lanes': [[sessions.encode(x) for x in s] for s in ls]}) for i, (first, ls) in enumerate(reqs)) + '\n'
    e = dict(os.environ, GORACE='halt_on_error=1 exitcode=66')
    try:
        p = subprocess.run([vh, '-f'], input=payload.encode(), capture_output=True, timeout=600, env=e)
    except subprocess.TimeoutExpired:
        raise Broken('concurrent histories did not end')
    got = {}
    for line in p.stdout.split(b'\n'):
        if line:
            v = json.loads(line)
            got[int(v.pop('i'))] = v
    n = 0
    for i, (first, ls) in enumerate(reqs):
        for l, s in enumerate(ls):
            b = base[i][l]
            if i in got and isinstance(b, list):
                n += 1
                for k in range(len(s)):
                    if got[i]['%d.%d' % (l, k)] != b[k] and len(c.violations) < 3:
                        c.violation({'at the same time as others': show(first + s[:k + 1]), 'want': b[k], 'got': got[i]['%d.%d' % (l, k)]})
    c.cov[what] = n
    err = p.stderr.decode('utf-8', 'replace')
    if p.returncode and not c.violations and all(isinstance(b, list) for bs in base for b in bs):
        i = min(len(got), len(reqs) - 1)
        if 'DATA RACE' in err or 'concurrent map' in err or 'panic' in err or 'fatal' in err:
            c.violation({'at the same time': [show(reqs[i][0] + s) for s in reqs[i][1]][:2], 'want': 'no interference', 'got': err[:3000]})
        else:
            raise Broken('concurrent histories: ' + err[-2000:])


def concurrent(c, kinds, rounds, what):
    """Histories at the same time: each must give what it gives alone."""
    r = random.Random('lanes %s' % c.seed)
    reqs, big = [], [s for s, m in large.fresh('lanes %s' % c.seed, 60)]
    for k in range(rounds):
        ls = []
        for l in range(8):
            m = r.choice(sessions.MODES)
            src = sessions.pool(r, 12)
            src[5] = r.choice(big)
            steps = [sessions.st('new', p='p', m=m), sessions.st('vnew', v='v', m=r.choice('01234'))]
            for i, s in enumerate(src):
                steps.append(sessions.st('parse', p='p', t='t%d' % i, s=s, f='S' + r.choice(kinds) + r.choice(kinds)))
                steps.append(sessions.st('look', t='t%d' % r.randrange(i + 1), f=r.choice(kinds) + r.choice(kinds)))
            ls.append(steps)
        reqs.append(([], ls))
    flat = sessions.run([s for f, ls in reqs for s in ls])
    at_once(c, reqs, [flat[i * 8:i * 8 + 8] for i in range(len(reqs))], what)


def c28_crowds(c):
    """Several users observe the same trees at the same time, from the moment that the trees are there."""
    r = random.Random('crowds %s' % c.seed)
    kinds, reqs = 'SPTNFJLC01234DPP', []
    big = [s for s, m in large.fresh('crowds %s' % c.seed, 20)]
    for k in range(150 if c.tier != 'quick' else 30):
        first = [sessions.st('new', p='p', m=r.choice(('', '', 'e', 'w', 't')))]
        for i in range(10):
            s = sessions.pool(r, 1)[0] if r.random() < .3 else r.choice(big) if r.random() < .1 else gen.sources(r.randrange(10 ** 9), 1, ['pos', 'valid', 'stmt', 'res', 'def', 'str', 'wrap', 'heredoc'], 0, 0)[0][0]
            first.append(sessions.st('parse', p='p', t='t%d' % i, s=s, f='A'))
        ls = []
        for l in range(6):
            order = list(range(10))
            if l % 2:
                r.shuffle(order)
            ls.append([sessions.st('vnew', v='v', m=r.choice('01234'))] + [x for i in order for x in (sessions.st('look', t='t%d' % i, f=''.join(r.sample(kinds, 3))), sessions.st('check', v='v', t='t%d' % i))])
        reqs.append((first, ls))
    flat = sessions.run([first + s for first, ls in reqs for s in ls])
    ok, base = [], []
    for i, (first, ls) in enumerate(reqs):
        bs = flat[i * 6:i * 6 + 6]
        if all(isinstance(b, list) for b in bs):
            # a tree is there for those only that could be parsed
            there = [j for j in range(10) if bs[0][j + 1] == '<<"ok">>']
            keep = [[k for k, x in enumerate(s) if x['op'] == 'vnew' or int(x['t'][1:]) in there] for s in ls]
            ok.append((first, [[s[k] for k in ks] for s, ks in zip(ls, keep)]))
            base.append([[b[len(first) + k] for k in ks] for b, ks in zip(bs, keep)])
    at_once(c, ok, base, 'histories_of_shared_trees')


def c23_concurrent(c):
    concurrent(c, 'SEPD', 150 if c.tier != 'quick' else 25, 'concurrent_histories')


def c28_concurrent(c):
    concurrent(c, 'SPTNFJLC01234D', 100 if c.tier != 'quick' else 15, 'concurrent_histories')


def c28_orders(c):
    """Sequences of observations of one tree: every answer is the one that was given before."""
    r = random.Random('orders %s' % c.seed)
    n = 20000 if c.tier != 'quick' else 2000
    srcs = [x for x in gen.sources('orders %s' % c.seed, n) if 's' not in x[1]]
    ss = []
    for s, m in srcs:
        looks = [r.choice('SPTNFJLC01234D') for _ in range(r.randrange(3, 8))]
        looks = looks + [r.choice(looks), 'S', 'P', 'D']
        ss.append([sessions.st('new', p='p', m=m), sessions.st('parse', p='p', t='t', s=s, f='SPD')] + [sessions.st('look', t='t', f=f) for f in looks])
    res = sessions.run(ss)
    c.cov['sequences_of_observations'] = sum(isinstance(x, list) for x in res)
    for s, x in zip(ss, res):
        if isinstance(x, list):
            seen = dict(zip('SPD', split(x[1])))
            for k in range(2, len(s)):
                f, v = s[k]['f'], x[k][2:-2]
                if seen.setdefault(f, v) != v and len(c.violations) < 3:
                    c.violation({'history': show(s[:k + 1]), 'want': seen[f], 'got': v})
    sample = [(s, x) for s, x in zip(ss, res) if isinstance(x, list)][:1500 if c.tier != 'quick' else 200]
    bad, st = sessions.validate([s for s, x in sample], [x for s, x in sample])
    states(c, st)
    c.cov['traces_validated_against_impl'] += len(sample) - len({i for i, k in bad})


def c28_large(c):
    """Trees of large sources that look alike, observed in turn: each answer is the one that the suite has for that source."""
    r = random.Random('large %s' % c.seed)
    su = suite.Suite('large')
    by = {}
    for i, (s, m) in enumerate(su.srcs):
        by.setdefault(len(s), []).append(i)
    ss, ws = [], []
    for is_ in by.values():
        # those that a parser that is used once gets right
        res = observe_many([{'s': su.srcs[i][0], 'm': '', 'f': 'SPAT2'} for i in is_])
        is_ = [i for i, x in zip(is_, res) if x and '!' not in x and all(suite.digest(x[f]) == su.want(i, f) for f in 'SPAT2')]
        if len(is_) < 2:
            continue
        for _ in range(8 if c.tier != 'quick' else 2):
            s = [sessions.st('new', p='p')] + [sessions.st('parse', p='p', t='t%d' % i, s=su.srcs[i][0], f='A') for i in is_]
            w = [None] * len(s)
            for _ in range(8):
                i, f = r.choice(is_), r.choice('SPPT2')
                s.append(sessions.st('look', t='t%d' % i, f=f))
                w.append(su.want(i, f))
            ss.append(s)
            ws.append(w)
    res = sessions.run(ss)
    c.cov['histories_of_large_trees'] = sum(isinstance(x, list) for x in res)
    for s, w, x in zip(ss, ws, res):
        if isinstance(x, list):
            for k in range(len(s)):
                if w[k] and suite.digest(x[k][2:-2]) != w[k] and len(c.violations) < 3:
                    c.violation({'history': show(s[:k + 1]), 'want': 'as the suite has it', 'got': x[k]})


def c24_chains(c):
    """Long lives of validators, and of combinations of parser and validator: against what the suites say of each program."""
    r = random.Random('validators %s' % c.seed)
    xs, ok = [], suite.digest('"ok"')
    for d in suite.DOMAINS:
        if not d.startswith('enum') or d == 'enum2':
            su = suite.Suite(d)
            for i in r.sample(range(len(su.srcs)), len(su.srcs) if c.tier != 'quick' else min(len(su.srcs), 1000)):
                if su.srcs[i][1] in ('', 'w', 't', 'e') and su.want(i, 'A') == ok and len(su.srcs[i][0]) < 2000:
                    xs.append((su, i))
    r.shuffle(xs)
    chains, k = [], 0
    while k < len(xs):
        n = 1500 if len(chains) < 10 else r.randrange(30, 70)
        chains.append(('012340123412'[len(chains) % 12], xs[k:k + n]))
        k += n
    ss, ws = [], []
    for v, ys in chains:
        s, w = [sessions.st('new', p=m or '-', m=m) for m in ('', 'w', 't', 'e')] + [sessions.st('vnew', v='v', m=v)] + [sessions.st('pv', p=m or '-', v='v', t='c' + m) for m in ('', 'w', 't', 'e')], []
        for j, (su, i) in enumerate(ys):
            src, m = su.srcs[i]
            if j % 4 == 3:
                s.append(sessions.st('pvparse', t='c' + m, v='r', s=src))
                w.append((len(s) - 1, su, i, v, True))
            else:
                s += [sessions.st('parse', p=m or '-', t='t', s=src, f='A'), sessions.st('check', v='v', t='t')]
                w.append((len(s) - 1, su, i, v, False))
        ss.append(s)
        ws.append(w)
    res = sessions.run(ss)
    n, suspects = 0, []
    for s, w, got in zip(ss, ws, res):
        if not isinstance(got, list):
            continue
        for j, su, i, v, both in w:
            n += 1
            if both:
                parts = split(got[j])
                if len(parts) != 4 or suite.digest(parts[3]) != su.want(i, v) or suite.digest(parts[0]) != su.want(i, 'S'):
                    suspects.append((s, j, su, i, v, got[j]))
            elif suite.digest(got[j]) != su.want(i, v):
                suspects.append((s, j, su, i, v, got[j]))
    c.cov['validations_in_long_lives'] = n
    for s, j, su, i, v, got in suspects[:200]:
        src, m = su.srcs[i]
        alone = observe([{'s': src, 'm': m, 'f': SORT[v]}])[0]
        if alone and '!' not in alone and right(src, m, SORT[v]):
            c.violation({'history': show(s[:j + 1]), 'want': alone[v], 'got': got})
            if len(c.violations) > 2:
                return


def c24(c):
    deep = c.tier != 'quick'
    for k in range(6 if deep else 1):
        seed = '%s.%s' % (c.seed, k)
        srcs = gen.sources('programs ' + seed, 400, ['valid', 'valid', 'stmt', 'res', 'query', 'def', 'wrap'], modes=0)
        fixed = [b'class a { class b { } }', b'1; 2', b'{ a => 1, a => 2 }', b'$a', b'class 3a', b'if true { notice(1) }', b'application', b'node a { } node b { } plan', b"$a = attr", b'a { b: c => d }', b'define site() { }', b'1; application', b'']
        srcs = [s for s, m in srcs] + fixed
        res = observe_many([{'s': s, 'm': '', 'f': 'A'} for s in srcs])
        programs = [s for s, r in zip(srcs, res) if r and r.get('A') == '"ok"']
        bad, _ = conform([(s, '', {'A': '"ok"'}) for s in programs])
        programs = [s for i, s in enumerate(programs) if (i, 'A') not in bad]
        if not programs:
            return
        histories(c, sessions.validator_sessions(seed, 2500 if deep else 1500, programs, 16 if deep else 11), CHECKS, 'recorded_histories_validated')
        if c.violations:
            return
    for sort in ('01234' if deep else '2'):
        if not c.violations:
            generated(c, 'v%s' % c.seed, 3 if deep else 2, 5 if deep else 7, sort, CHECKS)


NESTS = [('[', ']'), ('(', ')'), ('{a=>', '}'), ('!', ''), ('-', ''), ('$x+(', ')'), ('f(', ')'), ('if 1 {', '}'), ('"${', '}"'), ('$x[', ']'), ('a{b: c=>[', ']}'), ('$f.each|$x|{', '}'), ('case 1{2:{', '}}'),
         ('1?{2=>', '}'), ('class a{', '}'), ('1+', ''), ('$x=', ''), ('/* ', ''), ('#', ''), ('1,', ''), ('not_a::', ''), ('@', ''), ('1;', ''), ('A<|a==(', ')|>'), ('a->', ''), ('$x.', '')]


def c01_nesting(c):
    """Deep nesting: judged by the specification as far as it goes, and by that from there on."""
    low, high = (120, 8000) if c.tier == 'quick' else (300, 16000)
    def at(d):
        return [x.encode() for a, b in NESTS for x in (a * d, a * d + '1' + b * d, a * d + '1' + b * (d - 1))]
    shallow = [{'s': s, 'm': '', 'f': 'A'} for s in at(low)]
    res = observe_many(shallow)
    bad, st = conform([(x['s'], '', r) for x, r in zip(shallow, res) if r and '!' not in r])
    states(c, st)
    for i, (s, t, r) in enumerate(zip(at(low), at(high), res)):
        x = observe([{'s': t, 'm': '', 'f': 'A'}])[0]
        nest = NESTS[i // 3][0]
        if r is None or '!' in r or (i, 'A') in bad and ok(bad[(i, 'A')]) != ok(r['A']):
            c.violation({'nesting': nest, 'depth': low, 'form': i % 3, 'want': bad.get((i, 'A'), 'an answer'), 'got': str(r)})
        elif (i, 'A') not in bad and (x is None or '!' in x or ok(x['A']) != ok(r['A'])):
            c.violation({'nesting': nest, 'depth': high, 'form': i % 3, 'want': r['A'], 'got': str(x)[:500]})
        if len(c.violations) > 2:
            return
    c.cov['nestings'] = len(res)
    x = observe([{'s': b'[' * 1000000, 'm': '', 'f': 'A'}])[0]
    if x is None or '!' in x:
        c.violation({'nesting': '[', 'depth': 1000000, 'want': 'an answer', 'got': str(x)[:500]})


def ok(t):
    return t == '"ok"'


def c02_contexts(c):
    """Tokens that depend on what is before them, as far as only the tree shows what they are: after every kind of operand."""
    import itertools
    su = suite.Suite('contexts')
    idx = {x: i for i, x in enumerate(su.srcs)}
    pick = [(o, f, o + sep + f) for o in words.OPERANDS for f in words.FOLLOWERS if '@(' not in o + f and '`' not in o for sep in ('', ' ', '\n')]
    pick = [(o, f, s.encode()) for o, f, s in pick if (s.encode(), '') in idx]
    res = observe_many([{'s': s, 'm': '', 'f': 'S'} for o, f, s in pick])
    c.cov['operands_in_context'] = len(pick)
    diff = [(o, f, s, r['S']) for (o, f, s), r in zip(pick, res) if r and 'S' in r and suite.digest(r['S']) != su.want(idx[(s, '')], 'S')]
    for o, f, s, got in sorted(diff, key=lambda x: len(x[2]))[:400]:
        # the operand by itself and what follows it by itself are for other properties
        if all(right(x, '', 'S') for x in (o.encode(), ('$a ' + f).encode(), ('x ' + f).encode())):
            bad, _ = conform([(s, '', {'S': got})])
            if bad:
                c.violation({'source': s.decode(), 'mode': '', 'facet': 'S', 'want': bad[(0, 'S')], 'got': got})
        if len(c.violations) > 2 or time.time() - c.t0 > 400:
            return


def severities(t):
    return re.sub(r'", "(error|warning)", ', '", ', t)


def c19_together(c):
    """Validators of every strictness that live side by side: each keeps its own."""
    r = random.Random('together %s' % c.seed)
    deep = c.tier != 'quick'
    n = 3000 if deep else 500
    fixed = [b'class a { class b { } }', b'1; 2', b'{ a => 1, a => 2 }', b'define b($name) { }', b'if true { 1; 2 }', b'class a::b($a, $a) { }', b'case 1 { default: { } default: { } }', b'type X = [1]', b'node a { } 1; 2', b'$a = { 1 => 2, 1 => 3 } 1; notice(1)', b"A <| a < 1 |>", b"@file { x: * => 1, * => 2 }"]
    srcs = [s for s, m in gen.sources('together %s' % c.seed, n, ['valid', 'valid', 'res', 'wrap', 'def'], modes=0)] + fixed * (n // 40)
    res = observe_many([{'s': s, 'm': '', 'f': 'A2'} for s in srcs])
    # those that there is something to say about
    srcs = [s for s, x in zip(srcs, res) if x and x.get('A') == '"ok"' and x.get('2') != '<<>>'] or [b'1; 2']
    ss = []
    for _ in range(n):
        sorts = r.sample('0120121034', r.randrange(2, 6))
        s = [sessions.st('new', p='p')] + [sessions.st('vnew', v='v%d' % i, m=m) for i, m in enumerate(sorts)]
        s += [sessions.st('parse', p='p', t='t%d' % i, s=r.choice(srcs), f='A') for i in range(2)]
        for _ in range(r.randrange(3, 8)):
            s.append(sessions.st('check', v='v%d' % r.randrange(len(sorts)), t='t%d' % r.randrange(2)) if r.random() < .8 else sessions.st('vnew', v='v%d' % r.randrange(len(sorts)), m=r.choice('012')))
        ss.append(s)
    histories(c, ss, ('check',), 'recorded_histories_of_several_validators', lambda got, want: 'CRASH' not in got and severities(got) == severities(want))


def c25(c):
    cmd = build_cli()
    deep = c.tier != 'quick'
    for k in range(8 if deep else 1):
        reqs = cli.requests('%s.%s' % (c.seed, k), 6000 if deep else 1500)
        res = cli.run(cmd, reqs)
        bad, st = cli.validate(reqs, res)
        states(c, st)
        c.cov['traces_validated_against_impl'] += len(reqs) - len(bad)
        c.cov['runs_of_the_command'] = c.cov.get('runs_of_the_command', 0) + len(reqs)
        for r, x in list(zip(reqs, res))[:200:50]:
            c.cov['samples'].append({'request': {a: (b.decode('latin1') if isinstance(b, bytes) else b) for a, b in r.items()}, 'observed': x[:300]})
        for i, want in sorted(bad.items(), key=lambda b: len(reqs[b[0]]['src']))[:60]:
            r = reqs[i]
            if r['readable']:
                # wrong for the library is not for the command to get right
                m = ''.join(o for o in r['opts'] if o in 'tw') + ('e' if r['name'].endswith('.epp') else '')
                if not right(r['src'], m, 'SEMNJ01234'):
                    continue
            again = cli.run_one(cmd, r)
            if again != res[i]:
                c.notes.append('not reproducible: %r' % (r,))
            c.violation({'request': {a: (b.decode('latin1') if isinstance(b, bytes) else b) for a, b in r.items()}, 'want': want, 'got': res[i]})
            if len(c.violations) > 2:
                return


def c26(c):
    deep = c.tier != 'quick'
    # what the specification says of all short token sequences, in all layouts of a kind
    for tk, depth, variants, mode in ([(layout.TOKENS, 2, 6, ''), (layout.TOKENS[:14], 3, 2, '')] if not deep else
                                      [(layout.TOKENS, 2, 12, ''), (layout.TOKENS[:20], 3, 3, ''), (layout.WORDS, 3, 2, 'w'), (layout.WORDS, 2, 8, ''), (layout.TOKENS[:8], 4, 2, '')]):
        fams, odd, st = layout.generate(tk, depth, variants, mode)
        if odd:
            raise Broken('the specification is sensitive to layout: %r' % odd[:3])
        states(c, st)
        rs = layout.observe_families([(ss, mode) for ss, r in fams])
        c.cov['token_sequences_replayed'] = c.cov.get('token_sequences_replayed', 0) + len(fams)
        c.cov['traces_validated_against_impl'] += sum(r == [w] * len(r) for r, (ss, w) in zip(rs, fams))
        c26_judge(c, [(ss, mode) for ss, w in fams], rs)
        if c.violations:
            return
    for k in range(5 if deep else 1):
        fs = layout.families('%s.%s' % (c.seed, k), 60000 if deep else 15000, 5 if deep else 4)
        rs = layout.observe_families(fs)
        c.cov['families_of_layouts'] = c.cov.get('families_of_layouts', 0) + len(fs)
        c26_judge(c, fs, rs)
        if c.violations:
            return
        n = 8000 if deep else 1500
        bad, st = layout.validate(fs[:n], rs[:n])
        states(c, st)
        c.cov['traces_validated_against_impl'] += n - len({i for i, f in bad})
        for (ss, m), r in list(zip(fs, rs))[:3]:
            c.cov['samples'].append({'sources': [s.decode('utf-8', 'surrogatepass') for s in ss], 'observed': r[0][:200]})


def c26_judge(c, fs, rs):
    """Families whose members differ to the implementation, though not to the specification."""
    diff = sorted((i for i, r in enumerate(rs) if len(set(r)) > 1), key=lambda i: len(fs[i][0][0]))[:300]
    if not diff:
        return
    bad, _ = layout.validate([fs[i] for i in diff], [rs[i] for i in diff])
    for j, i in enumerate(diff):
        if (j, 'X') not in bad:
            ss, m = fs[i]
            k = next(k for k in range(len(ss)) if rs[i][k] != rs[i][0])
            c.violation({'source': ss[0].decode('utf-8', 'surrogatepass'), 'other layout': ss[k].decode('utf-8', 'surrogatepass'), 'mode': m, 'want': rs[i][0], 'got': rs[i][k]})
            if len(c.violations) > 2:
                return


def c30(c):
    """Programs over the constructors of PN."""
    for k in range(1 if c.tier == 'quick' else 8):
        ps = notation.programs('%s.%s' % (c.seed, k), 12000)
        res = notation.run(ps)
        for p, r in zip(ps, res):
            if r is None or '!' in r:
                c.violation({'program': p[0], 'want': 'an answer', 'got': r and r['!']})
        ok = [(p, r) for p, r in zip(ps, res) if r and '!' not in r]
        bad, st = notation.validate([p for p, r in ok], [r for p, r in ok])
        states(c, st)
        c.cov['traces_validated_against_impl'] += len(ok) - len(bad)
        c.cov['programs'] = c.cov.get('programs', 0) + len(ok)
        for i, want in sorted(bad.items(), key=lambda b: len(ok[b[0]][0][0]))[:3]:
            c.violation({'program': ok[i][0][0], 'want': want, 'got': ok[i][1]['R']})
        for p, r in ok[:3]:
            c.cov['samples'].append({'program': p[0], 'observed': r['R'][:400]})
        if c.violations:
            return


def c31(c):
    """Validators of users, and severities that users want."""
    deep = c.tier != 'quick'
    fixed = [b'1; 2', b'{ a => 1, a => 2 }', b'application', b'1; application; { a => 1, a => 1 }', b'class a { 1; 2 }', b'f(produces, 1) |$x| { 1; $x }', b'$a = { 1 => 2, 1 => [consumes, 3] } 1; notice(1)', b'', b'{ 1 => { 2 => 3, 2 => 4 }, 1 => 5 } plan',
             b'if a { b; application } else { c; 1 }', b'[1, [2, [a, $b]]]', b'application a { } 1; 2', b'produces', b"{ 'a' => 1, a => 2 }", b'class application { }', b'define consumes($a = { a => 1, a => 2}) { 1; 2 }']
    for k in range(6 if deep else 1):
        seed = '%s.%s' % (c.seed, k)
        srcs = [s for s, m in gen.sources('demotions ' + seed, 500, ['valid', 'valid', 'stmt', 'res', 'query', 'def', 'wrap', 'interp', 'heredoc', 'call'], modes=0)]
        srcs += [a + b'; ' + s if s else a for s, a in zip(srcs, fixed * 9)]
        res = observe_many([{'s': s, 'm': '', 'f': 'A2'} for s in srcs + fixed])
        told = [s for s, x in zip(srcs + fixed, res) if x and x.get('A') == '"ok"' and re.search('DUPLICATE_KEY|FUTURE|NOT_LAST', x.get('2', ''))]
        programs = [s for s, x in zip(srcs + fixed, res) if x and x.get('A') == '"ok"'] + told
        bad, _ = conform([(s, '', {'A': '"ok"'}) for s in programs])
        programs = [s for i, s in enumerate(programs) if (i, 'A') not in bad]
        programs += [s for s in fixed if s in programs] * 9
        if not programs:
            return
        histories(c, sessions.demotion_sessions(seed, 4000 if deep else 2000, programs, 18 if deep else 14), ('check', 'issues', 'clear', 'demote', 'walk', 'once', 'strict', 'pvparse', 'keep', 'kept'), 'recorded_histories_of_demotions')
        if c.violations:
            return


PARTS = {'C13': 'P', 'C14': 'T', 'C15': 'NF', 'C16': 'J', 'C17': 'L', 'C18': '234', 'C29': 'C'}


def parts(c, fs):
    """Parts of trees, each a tree of its own: what its facets are follows from it alone."""
    r = random.Random('parts %s' % c.seed)
    for k in range(6 if c.tier != 'quick' else 1):
        srcs = gen.sources('parts %s.%s' % (c.seed, k), 3000, ['valid', 'stmt', 'res', 'query', 'def', 'wrap', 'interp', 'heredoc', 'call', 'wf'])
        res = observe_many([{'s': s, 'm': m, 'f': 'AT'} for s, m in srcs])
        xs = []
        for (s, m), y in zip(srcs, res):
            if y and y.get('A') == '"ok"':
                # the nodes below the first, and that
                n = len(split(split(y['T'])[0])) + 1
                xs.append((s, m, [(i, 'S' + ''.join(set(c.gates(f)) - {'A', 'S'}) + f) for i in r.sample(range(n), min(n, 8)) for f in r.choice(fs)]))
        got = sessions.run([[sessions.st('new', p='p', m=m), sessions.st('parse', p='p', t='t', s=s, m='s' * ('s' in m), f='S')]
                            + [x for i, f in ps for x in (sessions.st('part', p='t', t='u', f='x' * i), sessions.st('look', t='u', f=f))] for s, m, ps in xs])
        bad, st = sessions.judge_parts([(s, m, [(i, f, split(g[3 + 2 * j])) for j, (i, f) in enumerate(ps)]) for (s, m, ps), g in zip(xs, got) if isinstance(g, list)])
        ok = [(x, g) for x, g in zip(xs, got) if isinstance(g, list)]
        states(c, st)
        c.cov['traces_validated_against_impl'] += len(ok) - len({i for i, j, f in bad})
        c.cov['parts_of_trees'] = c.cov.get('parts_of_trees', 0) + sum(len(x[2]) for x, g in ok)
        died = [(x, g) for x, g in zip(xs, got) if isinstance(g, dict)]
        for (s, m, ps), g in died[:3]:
            if right(s, m, 'S' + fs):
                c.violation({'source': s.decode('latin1'), 'mode': m, 'parts': ps, 'want': 'an answer', 'got': g['!']})
        n = 0
        for i, j, f in sorted(bad, key=lambda b: len(ok[b[0]][0][0])):
            (s, m, ps), g = ok[i]
            # what it builds on is right, and so is the whole
            if f == ps[j][1][-1] and not any((i, j, e) in bad for e in ps[j][1][:-1]) and right(s, m, 'SP' + f):
                c.violation({'source': s.decode('latin1'), 'mode': m, 'part': ps[j][0], 'facet': f, 'want': bad[(i, j, f)], 'got': split(g[3 + 2 * j])[-1]})
            n += 1
            if len(c.violations) > 2 or n > 40:
                return


def c32(c, fs='', n=2500, rounds=8):
    """Trees that are put together by hand. fs: the facets that matter, all if there are none."""
    for k in range(1 if c.tier == 'quick' else rounds):
        ts = trees.trees('%s.%s' % (c.seed, k), n)
        res = trees.run(ts)
        bad, st = trees.validate(ts, res)
        states(c, st)
        c.cov['traces_validated_against_impl'] += len(ts) - len(bad)
        c.cov['trees'] = c.cov.get('trees', 0) + len(ts)
        c.cov['nodes'] = c.cov.get('nodes', 0) + sum(len(h) for s, h, o in ts)
        mine = [(i, f, w) for i, d in bad.items() for f, w in list(d.items())[:1] if not fs]
        for i, d in bad.items():
            # as for parsed trees: those that the facet builds on are right
            mine += [(i, f, d[f]) for f in d if f in fs and not set(c.gates(f)) & set(d)][:1]
        for i, f, want in sorted(mine, key=lambda b: len(ts[b[0]][1]))[:3]:
            c.violation({'source': ts[i][0], 'tree': ts[i][1], 'facet': f, 'want': want, 'got': res[i] and res[i].get(f)})
        for t, r in list(zip(ts, res))[:3]:
            c.cov['samples'].append({'source': t[0], 'tree': t[1][-6:], 'observed': (r or {}).get('S', '')[:400]})
        if c.violations:
            return


def c33(c):
    """Readers and lexers that are moved about."""
    for k in range(1 if c.tier == 'quick' else 10):
        hs = cursors.histories('%s.%s' % (c.seed, k), 15000)
        res = cursors.run(hs)
        for h, r in zip(hs, res):
            if (r is None or '!' in r) and len(c.violations) < 3:
                c.violation({'history': [repr(h[0]), h[2]], 'want': 'an answer', 'got': r and r['!']})
        ok = [(h, r) for h, r in zip(hs, res) if r and '!' not in r]
        bad, st = cursors.validate([h for h, r in ok], [r for h, r in ok])
        states(c, st)
        c.cov['traces_validated_against_impl'] += len(ok) - len(bad)
        c.cov['histories'] = c.cov.get('histories', 0) + len(ok)
        c.cov['operations'] = c.cov.get('operations', 0) + sum(len(h[1]) for h, r in ok)
        for i, want in sorted(bad.items(), key=lambda b: len(ok[b[0]][0][1]))[:3]:
            c.violation({'history': [repr(ok[i][0][0]), ok[i][0][2]], 'want': want, 'got': ok[i][1]['R']})
        for h, r in ok[:3]:
            c.cov['samples'].append({'history': [repr(h[0]), h[2]], 'observed': r['R'][:400]})
        if c.violations:
            return


EXTRA = {'C01': [c01_nesting], 'C02': [c02_contexts], 'C19': [c19_together], 'C23': [c23_histories, c23_chains, c23_concurrent], 'C24': [c24, c24_chains], 'C25': [c25], 'C26': [c26], 'C28': [c28_orders, c28_large, c28_concurrent, c28_crowds], 'C30': [c30], 'C31': [c31], 'C32': [c32], **{p: [lambda c, f=f: c32(c, f[0] if f == '234' else f, 1500, 4), lambda c, f=f: parts(c, f)] for p, f in PARTS.items()}, 'C33': [c33]}
for _p in ['C%02d' % n for n in range(1, 23) if n not in (2, 19)] + ['C29']:
    EXTRA.setdefault(_p, []).append(short_lives)
