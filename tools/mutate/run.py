#!/usr/bin/env python3
"""Mutation testing of /repo, for development only.

run.py survivors OUT [PATTERN]  mutants which build and pass the tests of the
                                repository (OUT: JSON lines)
run.py checks IN OUT            runs the checks on them, with fewer cases, and
                                writes which check reports each
Nothing is written to /repo: mutants go in through go build -overlay.
"""
import json, os, subprocess, sys, tempfile, shutil, threading, queue, re
here = os.path.dirname(os.path.abspath(__file__))
env0 = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOTOOLCHAIN='local')
FILES = ([f'/repo/ip/{n}.go' for n in 'address mask prefix range'.split()] +
         [f'/repo/{d}/{n}.go' for d in ('ipv4', 'ipv6') for n in 'address mask node prefix range set setnode table tablex unsafe_atomic uint128'.split()])
FILES = [f for f in FILES if os.path.exists(f)]
ORDER = {'node': '01 02 05 07 08 09 12 11 13 18 15 06 31', 'tablex': '01 02 05 09 27 10 04 03 25 26', 'table': '01 02 05 09 10 27 04 03', 'set': '13 15 16 17 18 14 12 27 11 26 29',
         'setnode': '11 12 18 13 06 16 31 29', 'range': '19 15 11 17 16 23', 'prefix': '20 16 22 23 17 28', 'mask': '21 22 23', 'address': '22 23 20', 'uint128': '20 21 19',
         'unsafe_atomic': '26 25'}
ALL = ['%02d' % i for i in range(1, 32)]

def overlay(tmp, m):
    src = open(m['file'], 'rb').read()
    new = src[:m['start']] + m['new'].encode() + src[m['end']:]
    p = f'{tmp}/{os.path.basename(m["file"])}'
    open(p, 'wb').write(new)
    o = f'{tmp}/overlay.json'
    json.dump({'Replace': {m['file']: p}}, open(o, 'w'))
    return o

def run(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'

def pool(n, items, work):
    q = queue.Queue()
    for i in items: q.put(i)
    def loop(w):
        tmp = tempfile.mkdtemp(prefix='mut-')
        cache = f'{tmp}/cache'
        base = subprocess.run(['go', 'env', 'GOCACHE'], capture_output=True, text=True, env=env0).stdout.strip()
        k = 0
        env = dict(env0, GOCACHE=cache, TMPDIR=tmp)
        try:
            while True:
                try: m = q.get_nowait()
                except queue.Empty: return
                if k % 150 == 0:
                    shutil.rmtree(cache, ignore_errors=True)
                    if os.path.isdir(base): shutil.copytree(base, cache)
                k += 1
                work(tmp, env, m)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    ts = [threading.Thread(target=loop, args=(w,)) for w in range(n)]
    for t in ts: t.start()
    for t in ts: t.join()

def survivors(out, pattern=''):
    r = subprocess.run(['go', 'run', '.'] + [f for f in FILES if re.search(pattern, f)], cwd=here, capture_output=True, text=True, env=env0)
    ms = [json.loads(l) for l in sorted(set(r.stdout.splitlines()))]
    seen = set()
    if os.path.exists(out + '.done'): seen = set(open(out + '.done').read().splitlines())
    f = open(out, 'a'); done = open(out + '.done', 'a'); lock = threading.Lock()
    stat = {'build': 0, 'killed': 0, 'alive': 0}
    def work(tmp, env, m):
        key = json.dumps(m, sort_keys=True)
        if key in seen: return
        o = overlay(tmp, m)
        pkg = './' + m['file'].split('/')[2]
        rc, t = run(['go', 'build', '-overlay', o, pkg], '/repo', env, 60)
        what = 'build'
        if rc == 0:
            what = 'killed'
            rc, t = run(['go', 'test', '-vet=off', '-count=1', '-failfast', '-timeout', '40s', '-overlay', o, pkg], '/repo', dict(env, GOMEMLIMIT='2GiB'), 90)
            if rc == 0:
                rc, t = run(['go', 'test', '-vet=off', '-count=1', '-timeout', '40s', '-overlay', o, './ip', './ipv4', './ipv6'], '/repo', env, 90)
                if rc == 0: what = 'alive'
        with lock:
            stat[what] += 1
            if what == 'alive': f.write(json.dumps(m) + '\n'); f.flush()
            done.write(key + '\n'); done.flush()
            n = sum(stat.values())
            if n % 200 == 0: print(n, len(ms), stat, flush=True)
    pool(7, ms, work)
    print('all', stat)

def checks(inp, out):
    ms = [json.loads(l) for l in open(inp)]
    done = set()
    if os.path.exists(out):
        for l in open(out): d = json.loads(l); d.pop('by'); done.add(json.dumps(d, sort_keys=True))
    f = open(out, 'a'); lock = threading.Lock()
    ids = subprocess.run(['sed', '-n', 's/.*ID: "C\\([0-9]*\\)".*/\\1/p', f'{here}/../../harness/registry.go'], capture_output=True, text=True).stdout.split()
    def work(tmp, env, m):
        if json.dumps(m, sort_keys=True) in done: return
        o = overlay(tmp, m)
        h = f'{here}/../../harness'
        rc, t = run(['go', 'build', '-overlay', o, '-o', f'{tmp}/h', '.'], h, env, 200)
        by = None
        if rc:
            by = 'BUILD ' + t[:300]
        else:
            stem = os.path.basename(m['file'])[:-3]
            if '/ip/' in m['file']: order = ['24']
            else: order = ORDER.get(stem, '').split()
            if os.environ.get('MUT_ALL'): order += [i for i in ids if i not in order]
            e = dict(env, VERIF_DIR=f'{tmp}/vd', VERIF_SCALE=os.environ.get('MUT_SCALE', '0.15'), VERIF_SEED='1')
            for i in order:
                shutil.rmtree(f'{tmp}/vd', ignore_errors=True); os.makedirs(f'{tmp}/vd/evidence')
                shutil.copy(f'{here}/../../known_findings.txt', f'{tmp}/vd/')
                b = f'{tmp}/h'
                if i in ('25', '26'):
                    b = f'{tmp}/hr'
                    if not os.path.exists(b) or os.path.getmtime(b) < os.path.getmtime(f'{tmp}/h'):
                        run(['go', 'build', '-race', '-overlay', o, '-o', b, '.'], h, dict(env, CGO_ENABLED='1'), 300)
                rc, t = run([b, 'check', 'C' + i], tmp, e, 300)
                if rc:
                    by = f'C{i}' if rc == 1 and 'VIOLATION' in t else f'C{i} rc={rc} {t[-300:]}'
                    break
        with lock:
            f.write(json.dumps(dict(m, by=by)) + '\n'); f.flush()
            print(by, m['file'][6:], m['line'], m['what'], repr(m['old'][:60]), '->', repr(m['new'][:60]), flush=True)
    pool(int(os.environ.get('MUT_PAR', '2')), ms, work)

{'survivors': survivors, 'checks': checks}[sys.argv[1]](*sys.argv[2:])
