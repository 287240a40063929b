"""Development aid: runs the checks against a corpus of small source edits, in scratch copies.
usage: corpus.py FILE.py [substring of the edit's name] ; FILE defines EDITS = [(name, kind, props, [(path, old, new)..])], kind 'bug' or 'same'"""
import importlib.util, os, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor
import threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('edits', sys.argv[1])
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
sel = sys.argv[2] if len(sys.argv) > 2 else ''
only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
ALL = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
N = int(os.environ.get("N", 7))
ROOT = '/tmp/corpus'
q = queue.Queue()
for e in mod.EDITS:
    if sel in e[0]:
        q.put(e)
res = {}


def worker(i):
    d = '%s/w%d' % (ROOT, i)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + '/cache'):
        subprocess.run(['cp', '-a', HERE + '/.cache', d + '/cache'], check=True)
    while True:
        try:
            e = q.get_nowait()
        except queue.Empty:
            return
        name, kind, props, edits = e
        shutil.rmtree(d + '/repo', ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        shutil.copy('/repo/Cargo.lock', d + '/repo/Cargo.lock') if os.path.exists('/repo/Cargo.lock') else None
        bad = None
        for p, old, new in edits:
            f = d + '/repo/' + p
            s = open(f).read()
            if s.count(old) < 1:
                bad = 'no match in ' + p + ': ' + old[:60]
                break
            open(f, 'w').write(s.replace(old, new, 1))
        if bad:
            res[name] = bad
            print(name, bad, flush=True)
            continue
        env = dict(os.environ, WSA_REPO=d + '/repo', WSA_CACHE=d + '/cache', WSA_EV=d + '/ev')
        out = []
        for c in (props if kind == 'bug' else only or props or ALL):
            r = subprocess.run([sys.executable, '-m', 'wsa.check', c], cwd=HERE, env=env, capture_output=True, text=True)
            und = [l for l in r.stdout.splitlines() if 'undecided' in l]
            t = '%s:%d' % (c, r.returncode)
            if r.returncode not in (0, 1):
                t += ' ' + (r.stderr or r.stdout).strip()[-300:]
            elif kind == 'bug' and r.returncode == 0:
                t += ' MISSED ' + ' | '.join(und[:3])[:400]
            elif kind == 'same' and r.returncode == 1:
                t += ' FALSE ALARM ' + r.stdout.strip()[:500]
            elif kind == 'same' and und and ' 0 undecided' not in und[0]:
                t += ' [' + ' | '.join(und[:2])[:300] + ']'
            out.append(t)
        subprocess.run('rm -rf %s/cache/facts-*' % d, shell=True)
        res[name] = out
        print(name, kind, *out, flush=True)


ts = [threading.Thread(target=worker, args=(i,)) for i in range(N)]
[t.start() for t in ts]
[t.join() for t in ts]
