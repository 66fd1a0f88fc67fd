"""Runs checks against planted bugs, in scratch copies of the repository, several at a time.

run.py [-a] [-t] [ID ...]   -a: all checks, not only that of the bug's property; -t: thorough"""
import concurrent.futures, io, json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEEDED = os.path.join(ROOT, 'seeded')
args = sys.argv[1:]
every, tier = '-a' in args, 'thorough' if '-t' in args else 'quick'
ids = [a for a in args if a[0] != '-'] or sorted(os.listdir(SEEDED))
man = [c['property'] for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']]
RUN = '''
import sys
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import vlib
vlib.REPO = %r
import os
sys.argv = ['check.py', %r, %r]
import check
check.VERIF = %r
check.main()
'''


def one(i):
    prop = json.load(open(f'{SEEDED}/{i}/meta.json'))['property']
    tree = tempfile.mkdtemp(prefix='plant')
    try:
        shutil.rmtree(tree)
        shutil.copytree('/repo', tree, symlinks=True)
        subprocess.run(['git', 'apply', f'{SEEDED}/{i}/patch.diff'], check=True, cwd=tree)
        hit, own = [], None
        for p in (man if every else [prop]):
            t = time.time()
            scratch = tempfile.mkdtemp(prefix='ev')
            r = subprocess.run([sys.executable, '-c', RUN % (ROOT + '/bin', tree, p, tier, scratch)], cwd=ROOT, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER=tier), capture_output=True, text=True)
            shutil.rmtree(scratch, ignore_errors=True)
            hit.append((p, r.returncode, round(time.time() - t)))
            if p == prop:
                own = r
        ok = own.returncode == 1 and f'VIOLATION property={prop}' in own.stdout
        d = [l for l in own.stdout.split('\n') if l.startswith('  ')][:1]
        return ' '.join(map(str, [i, prop, 'CAUGHT' if ok else 'MISSED', [h for h in hit if h[1]], (d[0][:300] if d else '') if ok else own.stdout[-300:] + own.stderr[-600:]]))
    finally:
        shutil.rmtree(tree, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for f in concurrent.futures.as_completed([ex.submit(one, i) for i in ids]):
        print(f.result(), flush=True)
