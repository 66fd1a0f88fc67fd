"""Runs of the parse command, recorded and validated by the specification."""
import concurrent.futures
import random
from vlib import *
import gen, suite, longs, large, huge


def shown(s):
    return ''.join(c if 32 <= ord(c) <= 126 else '?' for c in s)


def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def text(b):
    """A text as the specification renders it."""
    s = b.decode('utf-8', 'replace')
    if all(32 <= ord(c) <= 126 for c in s):
        return quote(s)
    return '<<' + ', '.join(str(ord(c)) for c in s) + '>>'


def tup(*xs):
    return '<<' + ', '.join(xs) + '>>'


def run_one(cli, r):
    """Runs the command in a scratch directory. Returns the result as the specification renders it."""
    d = tempfile.mkdtemp(prefix='cli')
    try:
        if r['readable']:
            os.makedirs(os.path.dirname(os.path.join(d, r['name'])), exist_ok=True)
            with open(os.path.join(d, r['name']), 'wb') as f:
                f.write(r['src'])
        # the options in any order, each said in one of the ways to say it
        say = random.Random(repr((r['opts'], r['strict'], r['src'])))
        args = [[say.choice(['-%s', '-%s', '-%s', '--%s', '-%s=true', '--%s=1', '-%s=T']) % o] for o in r['opts']]
        args += [['-%s=%s' % (o, say.choice(['false', '0', 'F']))] for o in 'vjtw' if o not in r['opts'] and say.random() < .05]
        if r['strict'] is not None:
            args.append(say.choice([['-s', r['strict']], ['-s', r['strict']], ['--s', r['strict']], ['-s=' + r['strict']], ['--s=' + r['strict']]]))
        say.shuffle(args)
        args = sum(args, []) + ['--'] * (say.random() < .1)
        args += [r['name']] * min(r['files'], 1) + ['other.pp'] * (r['files'] - 1)
        try:
            p = subprocess.run([cli] + args, cwd=d, capture_output=True, timeout=60, stdin=subprocess.DEVNULL, env={'PATH': '/usr/bin:/bin'})
        except subprocess.TimeoutExpired:
            return '"TIMEOUT"'
        left = sorted(os.path.relpath(os.path.join(a, x), d) for a, _, b in os.walk(d) for x in b)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    err, out = p.stderr.decode('utf-8', 'replace'), p.stdout
    if left != ([os.path.normpath(r['name'])] if r['readable'] else []):
        return '"FILES"'
    if 'goroutine ' in err and 'panic' in err:
        return tup(quote('CRASH'), quote(shown(err[:200])))
    if r['files'] != 1:
        e = 'usage' if err.startswith('Usage: ') else shown(err)
    elif not r['readable']:
        e = 'unreadable' if r['name'] in err else shown(err)
    elif (r['strict'] or '').lower() not in ('', 'off', 'warning', 'error'):
        e = 'strict' if r['strict'] in err else shown(err)
    else:
        e = shown(err)
    body = out.rstrip(b'\n') if out.strip() else b''
    if 'j' in r['opts'] and body:
        try:
            o = obj(body.decode('utf-8'))
        except (ValueError, KeyError, IndexError, TypeError):
            o = tup(quote('NOT JSON'), text(body))
    else:
        o = text(body)
    return tup(str(p.returncode), o, quote(e))


def obj(s):
    """ast, issues and error of the JSON output; each may be absent."""
    v = json.loads(s)
    absent = quote('absent')
    ast = issues = error = absent
    if set(v) - {'ast', 'issues', 'error'}:
        raise ValueError
    if 'ast' in v:
        i = s.index('"ast":') + 6
        _, j = json.JSONDecoder().raw_decode(s, i)
        ast = text(s[i:j].encode())
    if 'issues' in v:
        es = []
        for x in v['issues']:
            if list(x) != ['#']:
                raise ValueError
            a = x['#']
            if len(a) != 6 or a[0::2] != ['code', 'severity', 'message']:
                raise ValueError
            es.append(tup(quote(a[1]), quote(a[3]), quote(shown(a[5]))))
        issues = tup(*es)
    if 'error' in v:
        error = quote(shown(v['error']))
    return tup(ast, issues, error)


def run(cli, reqs):
    with concurrent.futures.ThreadPoolExecutor(12) as ex:
        return list(ex.map(lambda r: run_one(cli, r), reqs))


def validate(reqs, results, timeout=900):
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for r, x in zip(reqs, results):
            f.write(json.dumps({'opts': list(r['opts']), 'strict': r['strict'] or '', 'name': r['name'], 'files': r['files'], 'readable': r['readable'], 'src': codes(r['src']), 'r': x}) + '\n')
    try:
        rc, out = tlc('CliTrace', env={'TRACE': path}, timeout=timeout, heap='12g')
    finally:
        os.unlink(path)
    bad = {}
    for line in out.split('\n'):
        m = MISMATCH.match(line)
        if m:
            mm = re.match(r'^<<"MISMATCH", (\d+), "(\w+)", "(.*)">>$', unescape(m.group(1)), re.S)
            bad[int(mm.group(1)) - 1] = unescape(mm.group(3))
    stt = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not stt or int(stt.group(2)) != len(reqs) + 16:
        raise Broken('TLC failed:\n' + out[-4000:])
    return bad, {'states': int(stt.group(2)), 'transitions': int(stt.group(1)) - 16}


NAMES = ['x', 'a.epp.pp', 'aepp', '.epp', 'T.EPP', 't.Epp', 't.ePP', 't.epp.bak', 't.epp~', 't.epp ', 'a b.epp', 'd/t.epp', 'd.epp/t.pp', 'd.epp/t', './t.epp', 't.pp.epp', 't..epp', 't.eppx', 'epp.pp', 't.pep', 't.pp.EPP', 'epp', '.epp.pp', "it's.epp"]


def requests(seed, n):
    r = random.Random('cli %s' % seed)
    srcs = gen.sources('cli %s' % seed, n, ['valid', 'valid', 'stmt', 'def', 'res', 'epp', 'wf', 'lit', 'str', 'expr', 'pos', 'query', 'heredoc', 'tasks'], mutated=.1, modes=0)
    srcs += list(suite.bytesources('cli %s' % seed, n // 25))
    srcs += [(s, m.replace('s', '')) for s, m in longs.sources('cli %s' % seed, n // 25)]
    srcs += large.fresh('cli %s' % seed, max(8, n // 200))
    srcs += huge.files(r, max(4, n // 1000))
    snip = suite.Suite('snip').srcs
    srcs += r.sample(snip, n // 10)
    notes = [b"notice 'a line: b'", b'class a { 1; 2 }', b"'line: '\n'x'", b'{ a => 1, a => 2 }', b'', b'$a = (file: 1', b'"see line: 3', b'1; 2', b'application', b'attr', b'plan a() { }', b'workflow a { } { }', b'class "a file: b" { }', b'<% x', b'<%= 1 %>']
    srcs += [(s, '') for s in notes for _ in range(4)]
    out = []
    for s, m in srcs:
        opts = ''.join(o for o in 'vjtw' if r.random() < .3 or (o in m and r.random() < .8))
        q = {'opts': opts, 'strict': r.choice([None, None, 'off', 'warning', 'error', 'error', 'WARNING', 'Error', 'OFF', 'eRROR', '', 'bad', 'of', 'errors', 'warn', ' error', 'true', '1', 'offf'][:19 if r.random() < .3 else 7]), 'name': r.choice(NAMES if r.random() < .3 else ['t.pp', 't.epp']),
             'files': 1, 'readable': True, 'src': s}
        if 'e' in m and r.random() < .9:
            q['name'] = 't.epp'
        if r.random() < .02:
            q.update(files=r.choice([0, 2, 3]), readable=False)
        elif r.random() < .02:
            q.update(readable=False, strict=None)
        out.append(q)
    r.shuffle(out)
    return out
