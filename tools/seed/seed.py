"""Plants the bugs of a list: seed.py LIST.py [ID ...]. Writes /verif/seeded/<id>/ for each one that counts.

A list defines BUGS = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], cases=[...])]."""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
BASE = '6c22a16'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=readonly')


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, shell=isinstance(cmd, str))


def original(file):
    """The lines of the file that are of the original repository."""
    out = sh(['git', 'blame', '-s', '--root', file], '/repo').stdout.split('\n')
    return {i + 1 for i, l in enumerate(out) if l.startswith('^' + BASE[:7]) or l.startswith(BASE)}


def passed(tree):
    """The stable tests that pass in the tree."""
    p = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', './...'], cwd=tree, env=ENV, capture_output=True, text=True)
    ok = set()
    for l in p.stdout.split('\n'):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('Action') == 'pass' and d.get('Test'):
            ok.add((d['Package'].split('/')[-1], d['Test']))
    return p.returncode, ok


def plant(b):
    dst = os.path.join(OUT, b['id'])
    tree = tempfile.mkdtemp(prefix='seed')
    try:
        shutil.rmtree(tree)
        shutil.copytree('/repo', tree, symlinks=True)
        for file, old, new in b['edits']:
            p = os.path.join(tree, file)
            t = open(p).read()
            if t.count(old) != 1:
                return f'{t.count(old)} places in {file}: {old!r}'
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], tree).stdout
        removed = []
        cur = n = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'):
                cur = l[6:]
            elif l.startswith('@@'):
                n = int(re.match(r'@@ -(\d+)', l).group(1))
            elif l.startswith('-') and not l.startswith('---'):
                removed.append((cur, n))
                n += 1
            elif l.startswith(' '):
                n += 1
        if not any(n in original(f) for f, n in removed):
            return 'changes no line of the original'
        if sh('go build ./...', tree).returncode:
            return 'does not build: ' + sh('go build ./...', tree).stderr
        rc, ok = passed(tree)
        if rc:
            return 'tests fail'
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        shutil.copy(os.path.join(HERE, 'main.go'), dst)
        shutil.copy(os.path.join(HERE, 'demo.sh'), dst)
        json.dump(b['cases'], open(os.path.join(dst, 'cases.json'), 'w'))
        r = subprocess.run(['bash', os.path.join(dst, 'demo.sh')], cwd='/repo', env=dict(os.environ, RECORD='record'), capture_output=True, text=True)
        if r.returncode:
            return 'no record: ' + r.stdout + r.stderr
        open(os.path.join(dst, 'cases.json'), 'w').write(r.stdout)
        open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
        json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        a = sh(['bash', os.path.join(dst, 'demo.sh')], '/repo')
        z = sh(['bash', os.path.join(dst, 'demo.sh')], tree)
        if a.returncode or z.returncode not in (1, 2):
            shutil.rmtree(dst)
            return f'demo gives {a.returncode} and {z.returncode}: {a.stdout}{a.stderr}{z.stdout[:400]}{z.stderr[:400]}'
        print(z.stdout[:400])
        return None
    finally:
        shutil.rmtree(tree, ignore_errors=True)


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        r = plant(b)
        print(b['id'], 'PLANTED' if r is None else 'no: ' + r, flush=True)
