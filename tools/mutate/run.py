"""Small changes to the code, one at a time, against the suites: run.py OUT.jsonl FILE... [-s FRACTION]

Each change that builds and passes the tests must make some observation differ from what the specification says (as the
suites have it), or it is listed as having survived."""
import concurrent.futures, json, os, random, shutil, subprocess, sys, tempfile, queue
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, ROOT + '/bin')
sys.dont_write_bytecode = True
import vlib, suite
from vlib import *
W = os.environ.get('MUT', '/tmp/mut')
ENV = dict(goenv(), GOFLAGS='-mod=readonly')
N = int(os.environ.get('WORKERS', '8'))


def prepare():
    """Requests and the answers to them, by part: a mixed one first."""
    vlib.BUILD = W
    vh = build()
    parts = []
    r = random.Random(7)
    first, rest = [], []
    for d in suite.DOMAINS:
        su = suite.Suite(d)
        xs = list(su.srcs)
        r.shuffle(xs)
        k = min(len(xs), 1500 if d not in suite.words.ALL else 600)
        first += xs[:k]
        rest.append((d, xs[k:]))
    # what is not observed source by source
    import trees, notation, cursors, sessions, longs, gen
    reqs = [{'s': s.encode(), 'f': trees.FACETS[1:], 'tree': h} for s, h, o in trees.trees('mutate', 3000)]
    reqs += [{'pn': h} for h, s in notation.programs('mutate', 12000)]
    reqs += [{'s': s, 'cursor': h} for s, h, o in cursors.histories('mutate', 12000)]
    reqs += [{'s': s, 'm': m, 'f': 'G'} for s, m in longs.texts('mutate', 400)]
    programs = [s for s, m in gen.sources('mutate', 400, ['valid', 'stmt', 'res'], modes=0)]
    reqs += [{'steps': [sessions.encode(x) for x in ss]} for ss in sessions.demotion_sessions('mutate', 1500, programs, 14)]
    if not os.path.exists(f'{W}/other.want'):
        with open(f'{W}/other.req', 'w') as f:
            for i, r in enumerate(reqs):
                f.write(json.dumps(dict(r, i=i, **({'s': base64.b64encode(r['s']).decode()} if 's' in r else {}))) + '\n')
        with open(f'{W}/other.req') as i, open(f'{W}/other.want', 'w') as o:
            subprocess.run([vh], stdin=i, stdout=o, check=True)
    parts.append((f'{W}/other.req', f'{W}/other.want'))
    for name, xs in [('first', first)] + rest:
        for m in range(0, len(xs), 60000):
            req, want = f'{W}/{name}.{m}.req', f'{W}/{name}.{m}.want'
            if not os.path.exists(want):
                with open(req, 'w') as f:
                    for i, (s, mm) in enumerate(xs[m:m + 60000]):
                        f.write(json.dumps({'i': i, 's': base64.b64encode(s).decode(), 'm': mm, 'f': suite.ALL, 'd': True}) + '\n')
                with open(req) as i, open(want, 'w') as o:
                    subprocess.run([vh], stdin=i, stdout=o, check=True)
            parts.append((req, want))
    return parts


def sh(cmd, cwd, t):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, timeout=t).returncode
    except subprocess.TimeoutExpired:
        return -1


dirs = queue.Queue()


def one(m, parts, build_only=False):
    d = dirs.get()
    try:
        path = f'{d}/repo/{m["file"]}'
        text = open('/repo/' + m['file'], 'rb').read()
        with open(path, 'wb') as f:
            f.write(text[:m['start']] + m['new'].encode() + text[m['end']:])
        try:
            if sh(['go', 'build', './...'], d + '/repo', 120):
                return 'nobuild'
            if sh(['go', 'test', '-vet=off', '-timeout', '30s', './...'], d + '/repo', 120):
                return 'tested'
            if sh(['go', 'build', '-o', d + '/vh', './vh'], d + '/h', 120):
                return 'nobuild'
            for req, want in parts:
                # cmp ends at the first difference
                p = subprocess.run(['bash', '-c', f'timeout 300 {d}/vh < {req} 2>/dev/null | cmp -s - {want}'])
                if p.returncode:
                    return 'killed ' + os.path.basename(req)
            return 'SURVIVED'
        finally:
            shutil.copy('/repo/' + m['file'], path)
    finally:
        dirs.put(d)


if __name__ == '__main__':
    args = sys.argv[1:]
    out = args.pop(0)
    frac = 1.0
    if '-s' in args:
        i = args.index('-s')
        frac = float(args[i + 1])
        del args[i:i + 2]
    parts = prepare()
    for k in range(N):
        d = f'{W}/w{k}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        shutil.copytree(ROOT + '/harness', d + '/h')
        t = open(d + '/h/go.mod').read()
        open(d + '/h/go.mod', 'w').write(t.replace('=> /repo', f'=> {d}/repo'))
        dirs.put(d)
    exe = W + '/mutate'
    subprocess.run(['go', 'build', '-o', exe, '.'], cwd=ROOT + '/tools/mutate', env=dict(ENV, GOFLAGS=''), check=True)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l)
            done.add((x['file'], x['start'], x['end'], x['new']))
    ms = []
    for f in args:
        for l in subprocess.run([exe, f], cwd='/repo', capture_output=True, text=True).stdout.split('\n'):
            if l:
                m = json.loads(l)
                if (m['file'], m['start'], m['end'], m['new']) not in done and random.Random(l).random() < frac:
                    ms.append(m)
    print(len(ms), 'changes', flush=True)
    none = one({'file': args[0], 'start': 0, 'end': 0, 'new': ''}, parts)
    if none != 'SURVIVED':
        raise SystemExit('no change at all is ' + none)
    n = {}
    with concurrent.futures.ThreadPoolExecutor(N) as ex, open(out, 'a') as o:
        fs = {ex.submit(one, m, parts): m for m in ms}
        for f in concurrent.futures.as_completed(fs):
            m = dict(fs[f], result=f.result())
            k = m['result'].split()[0]
            n[k] = n.get(k, 0) + 1
            o.write(json.dumps(m) + '\n')
            o.flush()
    print(n)
