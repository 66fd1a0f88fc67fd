"""Shared machinery: building and driving the harness, running TLC, turning sources into events."""
import base64, json, os, re, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
TLA = '/opt/veriftools/tla'
JARS = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
FACETS = 'SEPTD'


class Broken(Exception):
    """The machinery cannot give an answer (never a verdict about the code)."""


def goenv():
    e = dict(os.environ)
    e.update(PATH='/usr/local/bin:/usr/bin:/bin', HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
             GOWORK='off', GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod', GOPATH='/root/go')
    return e


VH = [os.path.join(BUILD, 'vh')]
MAX_DEATHS = 2


def build(race=False):
    """Builds the harness and the parse command from the working tree of the repository."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'vh-race' if race else 'vh')
    src = tempfile.mkdtemp(prefix='vh')
    try:
        shutil.copytree(os.path.join(VERIF, 'harness'), os.path.join(src, 'h'))
        mod = os.path.join(src, 'h', 'go.mod')
        text = open(mod).read()
        with open(mod, 'w') as f:
            f.write(text.replace('=> /repo', '=> ' + REPO))
        cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', out, './vh']
        r = subprocess.run(cmd, cwd=os.path.join(src, 'h'), env=goenv(), capture_output=True, text=True)
        if r.returncode:
            raise Broken('harness does not build:\n' + r.stdout + r.stderr)
    finally:
        shutil.rmtree(src, ignore_errors=True)
    return out


def build_cli():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'parse')
    e = goenv()
    e['GOFLAGS'] = '-mod=readonly'
    r = subprocess.run(['go', 'build', '-o', out, './parse'], cwd=REPO, env=e, capture_output=True, text=True)
    if r.returncode:
        raise Broken('parse command does not build:\n' + r.stdout + r.stderr)
    return out


def codes(src):
    """The source as the specification sees it: code points, cut at the first NUL (-1) or invalid byte (-2)."""
    out = []
    i, n = 0, len(src)
    while i < n:
        b = src[i]
        if b == 0:
            out.append(-1)
            break
        if b < 0x80:
            out.append(b)
            i += 1
            continue
        k = 2 if 0xC2 <= b <= 0xDF else 3 if 0xE0 <= b <= 0xEF else 4 if 0xF0 <= b <= 0xF4 else 0
        try:
            if k == 0:
                raise UnicodeDecodeError('utf-8', src, i, i + 1, '')
            out.append(ord(src[i:i + k].decode('utf-8')))
            i += k
        except (UnicodeDecodeError, TypeError):
            out.append(-2)
            break
    return out


def observe(requests, vh=None, timeout=600):
    """Runs the harness over requests {s: bytes, m, f} or {steps|lanes}. Returns the results in order; a request that
    kills the harness gets {'!': reason}; after MAX_DEATHS of those the rest goes unobserved (None)."""
    vh = vh or VH[0]
    results = [None] * len(requests)
    todo = list(range(len(requests)))
    deaths, flush = 0, []
    while todo and deaths < MAX_DEATHS:
        lines = []
        for i in todo:
            r = dict(requests[i])
            r['i'] = i
            if 's' in r:
                r['s'] = base64.b64encode(r['s']).decode()
            lines.append(json.dumps(r))
        p = subprocess.run([vh] + flush, input=('\n'.join(lines) + '\n').encode(), capture_output=True, timeout=timeout)
        for line in p.stdout.split(b'\n'):
            if not line:
                continue
            try:
                v = json.loads(line)
            except ValueError:
                break
            results[int(v.pop('i'))] = v
        todo = [i for i in todo if results[i] is None]
        if not todo:
            break
        err = p.stderr.decode('utf-8', 'replace')
        if p.returncode in (0, 2) and 'TIMEOUT' not in err and 'goroutine' not in err:
            raise Broken('harness gave no answer: ' + err[-2000:])
        if flush:
            # every answer is out, so the first request without one is the one that ended the harness
            results[todo[0]] = {'!': 'TIMEOUT' if 'TIMEOUT' in err else (err.strip().split('\n') or ['died'])[0][:200]}
            todo = todo[1:]
            deaths += 1
        flush = ['-f']
    return results


def observe_many(requests, vh=None, timeout=600, procs=8):
    """observe, by several harnesses at once."""
    n = len(requests)
    if n < 400:
        return observe(requests, vh, timeout)
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        # strided, so that the work is even
        parts = list(ex.map(lambda k: observe(requests[k::procs], vh, timeout), range(procs)))
    out = [None] * n
    for k, p in enumerate(parts):
        out[k::procs] = p
    return out


def unescape(s):
    """The inside of a string as TLC prints it."""
    return s.replace('\\"', '"').replace('\\\\', '\\')


def tlc(module, cfg=None, env=None, workers=8, heap='6g', stack='1g', timeout=900, extra=()):
    """Runs TLC in a scratch copy of the specification. Returns (exit code, output)."""
    work = tempfile.mkdtemp(prefix='tlc')
    try:
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', f'-Xmx{heap}', f'-Xss{stack}', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + work, '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE', '-config', cfg or module + '.cfg', *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken(f'TLC did not finish {module} within {timeout} s')
        return p.returncode, p.stdout.decode('utf-8', 'replace') + p.stderr.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(work, ignore_errors=True)


MISMATCH = re.compile(r'^"(<<\\"MISMATCH\\", (\d+), \\"(\w+)\\", .*>>)"$')


def conform(events, timeout=900, workers=8, module='Conform'):
    """Validates events [(src bytes, mode, {facet: text})] with TLC. Returns ({(index, facet): expected}, stats)."""
    if not events:
        return {}, {'states': 0, 'transitions': 0}
    # large sources take much memory each: few of them at once
    sizes = [sum(len(ev[0]) > limit for limit in (9000, 30000)) for ev in events]
    if min(sizes) < max(sizes):
        bad, stats = {}, {'states': 0, 'transitions': 0}
        for k in sorted(set(sizes)):
            idx = [i for i, n in enumerate(sizes) if n == k]
            b, st = conform([events[i] for i in idx], timeout, workers, module)
            bad.update({(idx[i], f): t for (i, f), t in b.items()})
            stats = {n: stats[n] + st[n] for n in stats}
        return bad, stats
    # a run of TLC keeps what it has seen: a new one for every few of them
    most = (len(events), 6, 1)[sizes[0]]
    if len(events) > most:
        bad, stats = {}, {'states': 0, 'transitions': 0}
        for at in range(0, len(events), most):
            b, st = conform(events[at:at + most], timeout, workers, module)
            bad.update({(i + at, f): t for (i, f), t in b.items()})
            stats = {n: stats[n] + st[n] for n in stats}
        return bad, stats
    heap = ('6g', '14g', '20g')[sizes[0]]
    workers = min(workers, (8, 3, 1)[sizes[0]])
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for ev in events:
            f.write(json.dumps(event(ev)) + '\n')
    try:
        rc, out = tlc(module, env={'TRACE': path}, timeout=timeout, workers=workers, heap=heap)
    finally:
        os.unlink(path)
    bad = {}
    for line in out.split('\n'):
        m = MISMATCH.match(line)
        if m:
            text = unescape(m.group(1))
            mm = re.match(r'^<<"MISMATCH", (\d+), "(\w+)", "(.*)">>$', text, re.S)
            bad[(int(mm.group(1)) - 1, mm.group(2))] = unescape(mm.group(3))
    st = re.search(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
    if rc != 0 or not st or int(st.group(2)) != len(events) + 16:
        raise Broken('TLC failed:\n' + out[-6000:])
    return bad, {'states': int(st.group(2)), 'transitions': int(st.group(1)) - 16}


def event(ev):
    src, mode, fs = ev
    return {'src': codes(src), 'm': mode, 'f': [[k, v] for k, v in sorted(fs.items())]}
