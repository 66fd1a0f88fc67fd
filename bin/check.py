#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides a property of the working tree of /repo against the specification.

exit 0: it held on everything explored; exit 1 and VIOLATION lines: it does not; anything else: no answer."""
import os, sys, time, traceback, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
import vlib
from vlib import *
import gen, suite, words, large, longs, extra

# A facet is judged only where the facets that it builds on are right, so that a defect is reported as what it is
GATES = {'P': 'S', 'T': 'S', 'N': 'S', 'F': 'S', 'J': 'F', 'L': '', 'D': 'S', 'M': 'E', '0': 'S', '1': 'S', '2': 'S', '3': 'S2', '4': 'S2', 'C': 'SP', 'U': ''}
WIDE = gen.DOMAINS + ['snip', 'long', 'huge', 'large']
ENUM = ['enum2', 'enum3', 'enum4']
WORDS = list(words.ALL)


def plain(s, m):
    return not set(m) - set('s')


def strings(s):
    """What may be the strings and heredocs of a source, each as a source of its own."""
    q = [i for i, c in enumerate(s) if c in b'"'][:8]
    out = [s[i:j + 1] for a, i in enumerate(q) for j in q[a + 1:]]
    i = s.find(b'@(')
    while i >= 0 and len(out) < 40:
        out.append(s[i:])
        i = s.find(b'@(', i + 1)
    return [x for x in out if x != s]


def has(*ts):
    return lambda s, m: any(t in s for t in ts)


def mode(c):
    return lambda s, m: c in m


def ok(text):
    return text == '"ok"'


def judge_accept(f, got, want):
    """Acceptance only: which error it is, is another matter."""
    return got != want and ((got == '"ok"') != (want == '"ok"') or 'CRASH' in got or got == 'NOTHING' or got.startswith('!'))


def entries(text):
    """The issues of a rendered list, each split into what it is and its severity."""
    return re.findall(r'<<"([A-Z_]+)", "(\w+)", (.*?)>>(?=, <<"[A-Z_]+", "|>>$)', text)


def judge_rules(f, got, want):
    g, w = entries(got), entries(want)
    return 'CRASH' in got or [(a, c) for a, b, c in g] != [(a, c) for a, b, c in w]


def judge_severity(all_got, all_want):
    """The rules apart: only what the setting does to what is reported under the strictest one."""
    return not judge_rules('2', all_got['2'], all_want['2']) and any(all_got[f] != all_want[f] for f in '012')


CHECKS = {
    'C01': dict(facets='A', domains=WIDE + ['bytes'] + ENUM + WORDS, judge=judge_accept),
    'C02': dict(facets='K', domains=WIDE + ['bytes'] + ENUM + WORDS, modeless=True),
    'C03': dict(facets='S', domains=['long', 'huge', 'ops', 'expr', 'deep', 'wrap', 'lit', 'snip', 'query'] + ENUM + ['contexts', 'slots', 'punct'], where=plain, live=['ops', 'expr', 'deep', 'wrap']),
    'C04': dict(facets='S', domains=['long', 'huge', 'stmt', 'def', 'cond', 'valid', 'deep', 'wrap', 'snip', 'pos'] + ENUM + ['contexts', 'slots'], where=plain, live=['stmt', 'def', 'cond', 'valid', 'wrap']),
    'C05': dict(facets='S', domains=['long', 'huge', 'res', 'query', 'valid', 'wrap', 'snip', 'stmt'] + ENUM + ['contexts', 'slots'], where=plain, live=['res', 'query', 'valid', 'wrap']),
    'C06': dict(facets='S', domains=['long', 'huge', 'call', 'deep', 'wrap', 'snip', 'stmt', 'def', 'expr'] + ENUM + ['contexts', 'slots'], where=plain, live=['call', 'wrap', 'stmt']),
    'C07': dict(facets='SE', domains=['long', 'huge', 'str', 'chars', 'lit', 'snip', 'wrap', 'valid', 'soup', 'ops', 'bytes'] + ['escapes', 'pairs'], where=has(b"'", b'"', b'/', b'`'), live=['str', 'str', 'lit', 'chars'], modes=['', '', 'h', 'b', 'hb']),
    'C08': dict(facets='SPE', domains=['long', 'huge', 'interp', 'str', 'wrap', 'snip', 'deep', 'pos', 'heredoc'] + ['interpolations', 'escapes', 'pairs'], where=has(b'${', b'$'), live=['interp', 'interp', 'str', 'pos']),
    'C09': dict(facets='SPE', domains=['long', 'huge', 'heredoc', 'snip', 'soup', 'pos', 'ops', 'bytes', 'enum2'] + ['heredocs', 'contexts', 'pairs'], where=has(b'@('), live=['heredoc']),
    'C10': dict(facets='SPED', domains=['long', 'huge', 'epp', 'snip', 'pos', 'soup', 'enum2'] + ['templates', 'pairs'], where=mode('e'), live=['epp']),
    'C11': dict(facets='SEK', domains=['long', 'huge', 'num', 'ops', 'lit', 'chars', 'snip', 'enum2'] + ['digits', 'floats', 'names', 'letters'], where=lambda s, m: any(c in b'0123456789' for c in s), live=['num']),
    'C12': dict(facets='EM', domains=WIDE + ['bytes'] + ENUM + WORDS),
    'C13': dict(facets='P', domains=WIDE + ['bytes'] + ENUM + WORDS),
    'C14': dict(facets='T', domains=WIDE + ENUM + ['contexts', 'slots', 'steps', 'interpolations', 'templates', 'digits', 'floats', 'escapes']),
    'C15': dict(facets='NF', domains=WIDE + ENUM + ['contexts', 'slots', 'steps', 'interpolations', 'templates', 'digits', 'floats', 'escapes']),
    'C16': dict(facets='J', domains=WIDE + ['enum2'] + ['contexts', 'slots', 'steps', 'interpolations', 'templates', 'digits', 'floats', 'escapes']),
    'C17': dict(facets='L', domains=WIDE + ['enum2', 'enum3'] + ['contexts', 'slots', 'digits', 'floats', 'escapes', 'heredocs'], live=['lit', 'lit', 'valid', 'expr', 'wrap', 'str', 'num']),
    'C18': dict(facets='2', domains=WIDE + ['enum2', 'enum3'] + ['contexts', 'slots', 'interpolations'], judge=judge_rules, live=['valid', 'valid', 'query', 'res', 'def', 'wrap', 'lit', 'stmt']),
    'C19': dict(facets='012', domains=['long', 'huge', 'valid', 'res', 'query', 'def', 'wrap', 'stmt', 'lit', 'snip', 'enum2'] + ['contexts', 'slots'], judge_all=judge_severity, live=['valid', 'valid', 'res', 'wrap', 'lit']),
    'C20': dict(facets='SE3', domains=WIDE + ['enum2'] + ['contexts', 'slots', 'interpolations'], by_mode=lambda f, m: f == '3' or 't' in m, live=['tasks', 'valid', 'res', 'def'], modes=['t', 't', '']),
    'C21': dict(facets='SPED4', domains=['long', 'huge', 'wf', 'valid', 'snip', 'pos', 'wrap', 'soup', 'enum2'] + ['steps', 'contexts', 'interpolations'], by_mode=lambda f, m: f == '4' or 'w' in m, live=['wf', 'wf', 'wf', 'valid']),
    'C22': dict(facets='D', domains=WIDE + ['enum2', 'enum3'] + ['contexts', 'slots', 'steps', 'templates']),
    'C27': dict(facets='G', domains=['pos', 'epp', 'heredoc', 'str', 'snip', 'interp', 'large', 'long'], large=60, texts=600, where=lambda s, m: -1 not in codes(s) and -2 not in codes(s), nosuite=True),
    'C29': dict(facets='C', domains=WIDE + ENUM + ['contexts', 'slots', 'steps', 'interpolations', 'templates', 'digits', 'floats', 'escapes', 'names']),
    'C28': dict(facets='U', domains=WIDE + ['contexts'], constant='TRUE'),
}


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed, self.c = pid, tier, seed, CHECKS.get(pid, {})
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.violations = []
        self.notes = []
        self.known = []

    # ---- judging

    def gates(self, f):
        return GATES.get(f, '')

    def judged(self, f, m, got, want):
        """got, want: texts by facet. Whether the property is violated by facet f of these."""
        if 'by_mode' in self.c and not self.c['by_mode'](f, m):
            return False
        if any(got.get(g) != want.get(g) for g in GATES.get(f, '')):
            return False
        if 'judge' in self.c:
            return self.c['judge'](f, got[f], want[f])
        if 'judge_all' in self.c:
            return self.c['judge_all'](got, want)
        return got[f] != want[f]

    def all_facets(self):
        return ''.join(sorted(set(self.c['facets'] + ''.join(GATES.get(f, '') for f in self.c['facets'])) - {''}))

    def confirm(self, candidates):
        """candidates: {(src, mode)}. Observes each again, alone, and asks the specification about it."""
        cs = sorted(candidates, key=lambda x: (len(x[0]), x))[:300]
        while len(cs) > 1 and sum(len(s) for s, m in cs) > 300000:
            cs.pop()
        fs = self.all_facets()
        res = observe_many([{'s': s, 'm': m, 'f': fs} for s, m in cs])
        died = [(x, r) for x, r in zip(cs, res) if r and '!' in r]
        for (s, m), r in died:
            self.dead(s, m, r['!'])
        live = [(x, r) for x, r in zip(cs, res) if r and '!' not in r]
        if not live:
            return
        if 'constant' in self.c:
            bad = {(i, f): self.c['constant'] for i, (x, r) in enumerate(live) for f in fs if r[f] != self.c['constant']}
        else:
            bad, _ = conform([(s, m, r) for (s, m), r in live])
        stale = True
        for i, ((s, m), r) in enumerate(live):
            mine = {f: bad[(i, f)] for f in fs if (i, f) in bad}
            if mine:
                stale = False
            want = {f: mine.get(f, r[f]) for f in fs}
            for f in self.c['facets']:
                if f in mine and self.judged(f, m, r, want) and not self.elsewhere(s, m):
                    again = observe([{'s': s, 'm': m, 'f': fs}])[0]
                    if again and again.get(f) != r[f]:
                        self.notes.append('not reproducible: %r' % s)
                    self.violation({'source': s.decode('latin1'), 'mode': m, 'facet': f, 'want': want[f], 'got': r[f]})
                    break
        if stale and len(live) == len(cs):
            raise Broken('the suite is stale: the specification agrees with what it rejects, e.g. %r' % (cs[0],))

    def elsewhere(self, s, m):
        """Whether what is wrong is a string in the source, which is for other properties."""
        if self.c.get('where') is not plain or len(self.violations) > 3:
            return False
        subs = [(x, '') for x in dict.fromkeys(strings(s))]
        if not subs:
            return False
        res = observe([{'s': x, 'm': y, 'f': 'S'} for x, y in subs])
        if any(r is None or '!' in r for r in res):
            return True
        bad, _ = conform([(x, y, r) for (x, y), r in zip(subs, res)])
        return bool(bad)

    def dead(self, s, m, why):
        """The harness does not survive this source: a violation if a facet of this property is what it dies of."""
        gates = ''.join(set(self.all_facets()) - set(self.c['facets'])) or ('A' if self.pid == 'C01' else '')
        if gates and self.pid != 'C01':
            r = observe([{'s': s, 'm': m, 'f': gates}])[0]
            if r is None or '!' in r:
                return
        r = observe([{'s': s, 'm': m, 'f': self.c['facets']}])[0]
        if r is None or '!' in r:
            self.violation({'source': s.decode('latin1'), 'mode': m, 'facet': self.c['facets'], 'want': 'an answer', 'got': why})

    def violation(self, v):
        for k in known_findings():
            if k['property'] == self.pid and all(v.get(a) == b for a, b in k['match'].items()):
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append(v)

    # ---- exploring

    def replay(self):
        """The committed suites against the real code."""
        fs, n, cand, died, kept = self.all_facets(), 0, set(), [], 0
        for d in self.c['domains']:
            if d in ENUM and len(set(self.c['facets']) & set('PTNFJ')) and self.tier == 'quick' and d == 'enum4':
                continue
            su = suite.Suite(d)
            if su.spec != suite.spec_hash():
                self.notes.append('suite %s is of an earlier specification' % d)
            pick = [i for i, (s, m) in enumerate(su.srcs) if 'where' not in self.c or self.c['where'](s, m)]
            if self.c.get('modeless'):
                seen, p = set(), []
                for i in pick:
                    if su.srcs[i][0] not in seen:
                        seen.add(su.srcs[i][0])
                        p.append(i)
                pick = p
            res = observe_many([{'s': su.srcs[i][0], 'm': su.srcs[i][1], 'f': fs, 'd': True} for i in pick])
            for i, r in zip(pick, res):
                if r is None:
                    continue
                if '!' in r:
                    died.append((su.srcs[i], r['!']))
                    continue
                n += 1
                if 'constant' in self.c:
                    if r['U'] != suite.digest('TRUE').hex():
                        cand.add(su.srcs[i])
                    continue
                diff = {f for f in fs if r[f] != su.want(i, f).hex()}
                if diff & set(self.c['facets']):
                    gated = [f for f in diff & set(self.c['facets']) if not (set(GATES.get(f, '')) & diff) and ('by_mode' not in self.c or self.c['by_mode'](f, su.srcs[i][1]))]
                    if gated or 'judge_all' in self.c:
                        cand.add(su.srcs[i])
            if len(cand) > 3000 or len(died) > 4:
                break
        self.cov['suite_sources_replayed'] = n
        for (s, m), why in died[:4]:
            self.dead(s, m, why)
        if cand and not self.violations:
            self.confirm(cand)

    def fresh(self, n, seed):
        """Fresh sources, observed and validated by the specification."""
        if self.violations:
            return
        domains = self.c.get('live') or [d for d in self.c['domains'] if d in gen.DOMAINS]
        srcs = []
        if 'bytes' in self.c['domains']:
            srcs += list(suite.bytesources('%s %s bytes' % (seed, self.pid), n // 12))
        srcs += gen.sources('%s %s' % (seed, self.pid), n, domains)
        if 'modes' in self.c:
            import random
            r = random.Random('%s modes' % seed)
            srcs = [(s, m or r.choice(self.c['modes'])) for s, m in srcs]
        srcs = [x for x in srcs if 'where' not in self.c or self.c['where'](*x)]
        # and some of the suites, so that they are what the specification says today
        import random
        r = random.Random('%s sample' % seed)
        for d in r.sample(self.c['domains'], min(3, len(self.c['domains']))):
            if not self.c.get('nosuite'):
                su = suite.Suite(d)
                srcs += [x for x in r.sample(su.srcs, min(len(su.srcs), n // 10 if d not in ('large', 'huge') else 6)) if len(x[0]) < 6100 and ('where' not in self.c or self.c['where'](*x))]
        if 'long' in self.c['domains']:
            srcs += [x for x in longs.sources('%s %s' % (seed, self.pid), 120) if 'where' not in self.c or self.c['where'](*x)]
        srcs += longs.texts('%s %s' % (seed, self.pid), self.c.get('texts', 0))
        if 'large' in self.c['domains']:
            srcs += large.fresh('%s %s' % (seed, self.pid), self.c.get('large', 8))
        fs = self.all_facets()
        for k in range(0, len(srcs), 30000):
            self.validate(srcs[k:k + 30000], fs)
            if self.violations:
                return

    def validate(self, srcs, fs):
        res = observe_many([{'s': s, 'm': m, 'f': fs} for s, m in srcs])
        for (s, m), r in zip(srcs, res):
            if r and '!' in r:
                self.dead(s, m, r['!'])
        evs = [(s, m, r) for (s, m), r in zip(srcs, res) if r and '!' not in r]
        if 'constant' in self.c:
            bad = {(i, 'U'): 'TRUE' for i, e in enumerate(evs) if e[2]['U'] != 'TRUE'}
            self.cov['observed'] = self.cov.get('observed', 0) + len(evs)
            evs2 = []
        else:
            bad, st = conform(evs)
            self.cov['states'] += st['states']
            self.cov['transitions'] += st['transitions']
            self.cov['traces_validated_against_impl'] += len(evs) - len({i for i, f in bad})
        for s, m, r in evs[:400:100]:
            self.cov['samples'].append({'source': s.decode('latin1'), 'mode': m, 'observed': {f: r[f][:300] for f in fs if f in r}})
        cand = {evs[i][:2] for i, f in bad}
        if cand:
            self.confirm(cand)

    def run(self):
        if 'facets' in self.c:
            if not self.c.get('nosuite'):
                self.replay()
            if self.tier == 'quick':
                self.fresh(self.c.get('n', 12000), self.seed)
            else:
                for k in range(6):
                    self.fresh(25000, '%s.%s' % (self.seed, k))
        for f in EXTRA.get(self.pid, []):
            if not self.violations:
                f(self)

    def report(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for k, v in enumerate(self.violations[:3]):
            path = os.path.join(VERIF, 'evidence', 'replay-%s-%d.json' % (self.pid, k))
            with open(path, 'w') as f:
                json.dump(dict(v, property=self.pid), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  ' + json.dumps({a: (b if not isinstance(b, str) else b[:400]) for a, b in v.items()}))
        self.cov['samples'] = self.cov['samples'][:6] or [{'none': True}]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations),
              'assumptions': ['random sources are at most 400 bytes long, apart from large ones (up to 6000 bytes) and those of the test suite'] + self.notes}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %s %s (%.1f s)' % (self.pid, self.tier, 'VIOLATED' if self.violations else 'held', {k: v for k, v in self.cov.items() if k != 'samples'}, time.time() - self.t0))
        return 1 if self.violations else 0


def known_findings():
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


EXTRA = extra.EXTRA


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, tier, seed)
    tmp = tempfile.mkdtemp(prefix='verif')
    try:
        vlib.BUILD = tmp
        VH[0] = build()
        c.run()
        code = c.report()
    except Broken as e:
        print('NO ANSWER: %s' % e)
        code = 3
    except Exception:
        traceback.print_exc()
        code = 4
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


if __name__ == '__main__':
    main()
