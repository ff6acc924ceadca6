#!/usr/bin/env python3
"""check.py <property>            search for violations of one property in /repo's working tree
   check.py --setup               build everything once (warms the cache, proves the tool chain works)
   check.py --replay <file>       run a replay file against the current tree
Environment: VERIF_SEED, VERIF_TIER (quick|thorough), REPO (default /repo), VERIF_SECS (search seconds)."""
import sys, os, re, json, time, hashlib, subprocess, signal, shutil, glob, collections, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('REPO', '/repo')
NP = max(1, min(8, len(os.sched_getaffinity(0))))
B = os.path.join(V, 'build'); OUT = os.path.join(V, 'out'); EV = os.path.join(V, 'evidence')
T0 = time.time()

# property -> [(bits, world, share of the search time)]
PLAN = {
 'C01': [('32', 'wide1', 10), ('34', 'wide1', 10), ('32', 'wide3', 5), ('34', 'wide3', 5), ('32', 'full', 28), ('32', 'mini', 18), ('32', 'syn', 8), ('34', 'full', 10), ('34', 'mini', 6)],
 'C02': [('32', 'full', 20), ('32', 'mini', 20), ('32', 'syn', 30), ('32', 'big', 18), ('c2', 'big', 6), ('34', 'syn', 10), ('34', 'big', 5)],
 'C03': [('32', 'full', 40), ('32', 'mini', 32), ('32', 'syn', 22), ('32', 'wide1', 6)],
 'C04': [('32', 'sort', 60), ('34', 'sort', 40)],
 'C05': [('32', 'table', 70), ('34', 'table', 30)],
 'C06': [('32', 'pool', 100)],
 'C07': [('32', 'full', 32), ('32', 'mini', 30), ('32', 'pool', 14), ('32', 'sort', 12), ('32', 'wide3', 12)],
 'C08': [('32', 'full', 25), ('32', 'mini', 40), ('ctl', 'ctl', 12), ('32', 'sort', 12), ('32', 'table', 11)],
 'C09': [('32', 'full', 25), ('32', 'mini', 35), ('32', 'pool', 20), ('32', 'sort', 10), ('32', 'table', 10)],
 'C10': [('32', 'full', 30), ('32', 'mini', 30), ('ctl', 'ctl', 40)],
 'C11': [('ctl', 'ctl', 100)],
 'C12': [('ctl', 'ctl', 100)],
 'C13': [('ctl', 'ctl', 100)],
 'C14': [('32', 'full', 35), ('32', 'mini', 25), ('ctl', 'ctl', 40)],
 'C15': [('32', 'full', 100)],
 'C16': [('32', 'full', 45), ('32', 'mini', 25), ('ctl', 'ctl', 30)],
 'C17': [('32', 'p2', 70), ('34', 'p2', 30)],
 'C18': [('32', 'full', 40), ('ctl', 'ctl', 60)],
 'C19': [('32', 'pool', 60), ('32', 'sort', 40)],
 'C20': [('ctl', 'ctl', 70), ('32', 'full', 30)],
 'C21': [('32', 'codec', 100)],
 'C22': [('ctl', 'ctl', 100)],
 'C23': [('32', 'full', 80), ('ctl', 'ctl', 20)],
}
SECS = {'quick': float(os.environ.get('VERIF_SECS', 0)) or 45, 'thorough': float(os.environ.get('VERIF_SECS', 2400))}
EXTRA = {'C01': 1.7, 'C02': 1.3, 'C03': 1.3, 'C08': 1.3, 'C09': 1.2, 'C10': 1.2, 'C23': 1.4}
CAL = {'C08', 'C09', 'C10', 'C23'}          # worlds full and mini place faults by counted operations of a calibration run

REPO_FLAGS = '-std=c++17 -O1 -U_FORTIFY_SOURCE -g0 -w -I{V}/stubs -I{R}/include -I{R}/lib -I{R}/include/chia -fsanitize=thread --param tsan-instrument-func-entry-exit=0'
SIM_FLAGS = '-std=c++17 -O2 -U_FORTIFY_SOURCE -g0 -w -I{V}/stubs'
C_FLAGS = '-O2 -U_FORTIFY_SOURCE -w -I{R}/include -I{R}/lib'

def sh(cmd, timeout=600):
    try: return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, '', 'timeout')

def tree_hash():
    h = hashlib.sha256(); files = []
    for d in ('include', 'src', 'lib'):
        for p, ds, fs in os.walk(os.path.join(R, d)):
            ds[:] = [x for x in ds if x not in ('.git', 'build')]
            files += [os.path.join(p, f) for f in fs if f.endswith(('.h', '.hpp', '.c', '.cpp', '.cc', '.ipp', '.inl', '.inc'))]
    for d in ('sim', 'stubs', 'ref', 'shim', 'tu', 'worlds'):
        for p, ds, fs in os.walk(os.path.join(V, d)): files += [os.path.join(p, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update((REPO_FLAGS + SIM_FLAGS + C_FLAGS).encode())
    return h.hexdigest()[:20]

# object -> command; '34' objects are those that see the table layouts
def obj_cmd(o):
    base, bits = o.split('.') if '.' in o else (o, '32')
    F = REPO_FLAGS + (' -DCHIA_K34' if bits == '34' else '')
    if bits == 'c2': F = '-I{D}/c2inc -I{D}/c2inc/chia -DSIM_C2=3 ' + F
    S = SIM_FLAGS
    shim = '-I{V}/shim '
    t = {
     'm': ['g++ ' + shim + F + ' -Dmain=chia_plot_main \'-DGIT_COMMIT_HASH="x"\' -c {R}/src/chia_plot.cpp -o {o}'],
     'mono': ['g++ ' + F + ' -Dmain=chia_plot_main \'-DGIT_COMMIT_HASH="x"\' -c {R}/src/chia_plot.cpp -o {o}'],
     'phases': ['g++ ' + shim + F + ' -c {V}/worlds/phases.cpp -o {o}'],
     'ctlp': ['g++ ' + shim + F + ' -c {V}/tu/ctl_phases.cpp -o {o}'],
     'core': ['g++ ' + S + ' -c {V}/sim/core.cpp -o {o}'], 'fs': ['g++ ' + S + ' -c {V}/sim/fs.cpp -o {o}'], 'driver': ['g++ ' + S + ' -c {V}/sim/driver.cpp -o {o}'],
     'wmain': ['g++ ' + S + ' -c {V}/worlds/main.cpp -o {o}'], 'ref': ['g++ ' + S + ' -c {V}/ref/ref.cpp -o {o}'],
     'full': ['g++ ' + S + ' -c {V}/worlds/full.cpp -o {o}'], 'ctl': ['g++ ' + S + ' -c {V}/worlds/ctl.cpp -o {o}'],
     'blake3': ['gcc ' + C_FLAGS + ' -I{V}/stubs -c {V}/stubs/blake3.c -o {o}'], 'chacha8': ['gcc ' + C_FLAGS + ' -c {R}/lib/chacha8.c -o {o}'],
    }
    if base in ('p1', 'p2', 'p3', 'p4'): c = ['g++ ' + F + ' -c {V}/tu/' + base + '.cpp -o {o}', 'g++ ' + F + ' -DNO_CHAIN -c {V}/tu/' + base + '.cpp -o {o}']
    elif base in ('sort', 'table', 'pool', 'wide1', 'wide3', 'codec'): c = ['g++ ' + F + ' -c {V}/worlds/' + base + '.cpp -o {o}']
    elif base in ('fse_compress', 'fse_decompress', 'entropy_common', 'hist'): c = ['gcc ' + C_FLAGS + ' -c {R}/lib/FSE/lib/' + base + '.c -o {o}']
    elif base in ('tfse_compress', 'tfse_decompress', 'tentropy_common', 'thist'): c = ['gcc -O1 -U_FORTIFY_SOURCE -w -I{R}/include -I{R}/lib -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -c {R}/lib/FSE/lib/' + base[1:] + '.c -o {o}']
    elif base.startswith('src_'): c = ['g++ ' + F + ' -c {R}/src/' + base[4:] + '.cpp -o {o}']
    else: c = t[base]
    return c

def extra_src(): return sorted('src_' + os.path.basename(f)[:-4] for f in glob.glob(R + '/src/*.cpp') if os.path.basename(f) != 'chia_plot.cpp')
LOW = ['wmain', 'core', 'fs', 'driver', 'ref', 'blake3', 'chacha8', 'fse_compress', 'fse_decompress', 'entropy_common', 'hist']
WOBJ = {'full': ['full', 'm', 'p1', 'p2', 'p3', 'p4'], 'mini': ['phases', 'p1', 'p2', 'p3', 'p4'], 'syn': ['phases', 'p1', 'p2', 'p3', 'p4'], 'p2': ['phases', 'p1', 'p2', 'p3', 'p4'], 'big': ['phases', 'p1', 'p2', 'p3', 'p4'],
        'sort': ['sort'], 'table': ['table'], 'pool': ['pool'], 'wide1': ['wide1'], 'wide3': ['wide3'], 'codec': ['codec', 'tfse_compress', 'tfse_decompress', 'tentropy_common', 'thist'], 'ctl': ['ctl', 'm', 'ctlp']}
JOINT = ('full', 'mini', 'syn', 'p2', 'big')
BITS_OBJ = {'codec', 'm', 'mono', 'p1', 'p2', 'p3', 'p4', 'phases', 'sort', 'table', 'pool', 'wide1', 'wide3', 'ctlp'}
def oname(o, bits): return o + '.c2' if bits == 'c2' and o == 'p4' else o + '.34' if bits == '34' and (o in BITS_OBJ or o.startswith('src_')) else o

class Build:
    def __init__(self, need):
        """need: list of (bits, world)"""
        self.notes = []; self.key = tree_hash(); self.dir = os.path.join(B, self.key); os.makedirs(self.dir, exist_ok=True)
        for d in os.listdir(B):
            if d != self.key: shutil.rmtree(os.path.join(B, d), ignore_errors=True)
        if any(b == 'c2' for b, w in need) and not os.path.isdir(self.dir + '/c2inc'):
            t = tempfile.mkdtemp(dir=self.dir); shutil.copytree(R + '/include', t + '/x')
            for p, ds, fs in os.walk(t + '/x'):
                for f in fs:
                    s = open(os.path.join(p, f), encoding='latin-1').read(); n = re.sub(r'(\bkCheckpoint2Interval\s*=\s*)[\d\']+', r'\g<1>3', s)
                    if n != s: open(os.path.join(p, f), 'w', encoding='latin-1').write(n)
            os.rename(t + '/x', self.dir + '/c2inc')
        objs = set(LOW)
        for bits, w in need:
            for o in WOBJ[w]: objs.add(oname(o, bits))
            for o in extra_src(): objs.add(oname(o, bits))
        self.ok = {}
        cost = {'p1': 22, 'wide1': 24, 'wide3': 14, 'sort': 20, 'mono': 40, 'p3': 13, 'm': 9, 'phases': 12, 'pool': 8, 'table': 8}
        with ThreadPoolExecutor(NP) as ex:
            for o, r in zip(*(lambda l: (l, ex.map(self.compile, l)))(sorted(objs, key=lambda o: -cost.get(o.split('.')[0], 3)))): self.ok[o] = r
            if any(not self.ok.get(oname('m', b), True) for b, w in need):     # fall back to one translation unit for main and phases
                l = sorted({oname('mono', b) for b, w in need if not self.ok.get(oname('m', b), True)})
                for o, r in zip(l, ex.map(self.compile, l)): self.ok[o] = r
        self.bins = {}
        for bits in sorted({b for b, w in need}):
            ws = [w for b, w in need if b == bits]; self.link(bits, ws)
    def path(self, o): return os.path.join(self.dir, o + '.o')
    def compile(self, o):
        dst = self.path(o)
        if os.path.exists(dst): return True
        for c in obj_cmd(o):
            tmp = dst + '.%d' % os.getpid(); r = sh(c.format(V=V, R=R, D=self.dir, o=tmp))
            if r.returncode == 0: os.rename(tmp, dst); return True
            self.notes.append('compiling %s failed: %s' % (o, r.stderr[:600]))
        return False
    def link(self, bits, ws):
        def objs(worlds):
            s = []
            for w in worlds:
                for o in WOBJ[w] + extra_src():
                    n = oname(o, bits)
                    if o == 'm' and not self.ok.get(n) and w != 'ctl': n = oname('mono', bits)
                    if n not in s: s.append(n)
            return s
        good = [w for w in ws if all(self.ok.get(o) for o in objs([w]))]
        for w in ws:
            if w not in good: self.notes.append('world %s (%s) could not be built' % (w, bits))
        # worlds that use the separately compiled phases share a binary; those that include the headers themselves are linked
        # alone, because the headers keep static tables per translation unit
        joint = [w for w in good if w in JOINT]; tries = [joint] + [[w] for w in good]
        for t in tries:
            if not t or all((bits, w) in self.bins for w in t): continue
            name = os.path.join(self.dir, 'sim%s-%s' % (bits, hashlib.md5(','.join(t).encode()).hexdigest()[:8]))
            if not os.path.exists(name):
                r = sh('g++ -no-pie -rdynamic -Wl,-z,muldefs -o %s.tmp %s -ldl -lpthread && mv %s.tmp %s' % (name, ' '.join(self.path(o) for o in objs(t) + LOW), name, name))
                if r.returncode: self.notes.append('linking %s failed: %s' % (t, r.stderr[:600])); continue
            for w in t: self.bins.setdefault((bits, w), name)

SPROP = None; UNIT = ('C04', 'C05', 'C06', 'C17', 'C21')
def search(bn, world, prop, seed, secs, cache, maxviol=1, runs=10**9, detevery=25, workers=NP):
    ps = []; prop = SPROP or prop
    for c in range(workers):
        ps.append(subprocess.Popen([bn, 'search', '--world', world, '--prop', prop, '--seed', str(seed), '--from', str(c), '--stride', str(workers), '--secs', str(secs), '--max', str(runs), '--maxviol', str(maxviol), '--detevery', str(detevery), '--core', str(c), '--cache', cache], stdout=open(os.path.join(cache, 'o.%d' % c), 'w'), stderr=subprocess.DEVNULL, start_new_session=True))
    res = [None] * workers; deadline = time.time() + secs + 330; told = False
    while True:
        live = [i for i, p in enumerate(ps) if p.poll() is None]
        for i in range(workers):
            if i not in live and res[i] is None:
                try: res[i] = json.load(open(os.path.join(cache, 'o.%d' % i)))
                except Exception: res[i] = {'error': 'no answer from a worker (exit %s): %s' % (ps[i].returncode, open(os.path.join(cache, 'o.%d' % i)).read()[:200])}
                if res[i].get('violations') and not told:
                    told = True
                    for p in ps:
                        if p.poll() is None: p.terminate()
        if not live: break
        if time.time() > deadline:
            for i in live:
                try: os.killpg(ps[i].pid, signal.SIGKILL)
                except Exception: pass
            sh("pkill -KILL -f '%s search'" % bn); deadline += 1e9
        time.sleep(0.05)
    return res

def known():
    k = []
    try:
        for l in open(os.path.join(V, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) world=(\S+) class=(\S+) match=/(.*)/ (.*)', l)
            if m: k.append(m.groups())
    except OSError: pass
    return k

def confirm(bn, world, prop, seed, cache, budget):
    os.makedirs(OUT, exist_ok=True); rf = os.path.join(OUT, '%s-%s-%d.plan' % (prop, world, seed))
    r = sh('%s confirm --world %s --prop %s --seed %d --budget %d --out %s --cache %s' % (bn, world, SPROP or prop, seed, budget, rf, cache), timeout=budget + 400)
    try: d = json.loads(r.stdout)
    except Exception: return None, 'confirm failed: ' + r.stdout[:300] + r.stderr[:300]
    if r.returncode: return None, 'not reproducible: ' + r.stdout[:500]
    # fresh process
    r2 = sh('%s replay --file %s --cache %s' % (bn, rf, cache), timeout=400)
    try: d2 = json.loads(r2.stdout)
    except Exception: return None, 'replay failed: ' + r2.stdout[:300]
    if not d2.get('violated') or d2.get('class') != d['final_class']: return None, 'replay in a fresh process differs: ' + r2.stdout[:300]
    d['fresh_detail'] = d2['detail']; d['fresh_hash_equal'] = d2['hash'] == d['final_hash']; d['replay'] = rf
    return d, ''

REAL = {'full': 'main(), the four phases, DiskSort, DiskTable, Thread/ThreadPool, copy.h, encoding, FSE, chacha8', 'mini': 'phases 1-4 chained at small k, DiskSort, DiskTable, Thread/ThreadPool, encoding, FSE, chacha8', 'syn': 'phases 2-4 on synthetic tables, DiskSort, DiskTable, Thread/ThreadPool, encoding, FSE', 'p2': 'phase 2, DiskSort, DiskTable, bitfield, Thread/ThreadPool', 'big': 'phase 4 writer and phase 3 stage 2 at file offsets beyond 4 GiB', 'sort': 'DiskSort, Thread/ThreadPool', 'table': 'DiskTable (reader and writer), Thread/ThreadPool', 'pool': 'Thread, ThreadPool', 'ctl': 'main(), copy.h, Thread', 'wide1': 'phase 1 table step (sort, slice, match, evaluate, sort), F1 and the matcher at k up to the largest', 'codec': 'Encoding (line points, shared memo of coding tables), FSE, both also while preempted at any memory access', 'wide3': 'phase 3 stage 1 (merge into line points) at k up to the largest, DiskSort, DiskTable, bitfield'}
STUB = {'common': 'kernel file system and descriptors (in-memory model), thread scheduler, clock, signals, random source, BLS keys, blake3 (portable reimplementation), bech32', 'ctl': 'the four phases (timed writers of plots with known content)'}
RULE = 'A case is one simulated history: a seed draws the scenario (configuration, data, directories), the scheduling policy and every fault; the plan and all scheduling decisions then follow from the seed. Non-trivial: at least two context switches between simulated threads were taken where another thread could have run. Distinct: different hash of the sequence of (step, thread chosen) decisions.'

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in a: tier = 'thorough'; a.remove('--thorough')
    if '--quick' in a: tier = 'quick'; a.remove('--quick')
    if tier not in SECS: tier = 'quick'
    os.makedirs(B, exist_ok=True)
    if a and a[0] == '--setup':
        b = Build(sorted({(x, w) for l in PLAN.values() for x, w, s in l})); print('built', len(b.bins), 'world binaries', '; '.join(b.notes)); return 0 if b.bins else 2
    if a and a[0] == '--replay':
        t = open(a[1]).read(); w = re.search(r'^world (\S+)', t, re.M).group(1); p = re.search(r'^prop (\S+)', t, re.M).group(1)
        bits = re.search(r'^# bits (\S+)', t, re.M); bits = bits.group(1) if bits else ('ctl' if w == 'ctl' else '32')
        b = Build([(bits, w)]); cache = tempfile.mkdtemp(dir=b.dir)
        try: r = sh('%s replay --file %s --cache %s' % (b.bins[(bits, w)], a[1], cache)); print(r.stdout, end='')
        finally: shutil.rmtree(cache, ignore_errors=True)
        if r.returncode == 1: print('VIOLATION property=%s replay=%s' % (p, a[1]))
        return r.returncode
    prop = a[0]; todo = [x for x in PLAN[prop]]
    b = Build([(x, w) for x, w, s in todo]); tb = time.time() - T0
    todo = [x for x in todo if (x[0], x[1]) in b.bins]
    if not todo:      # the interface a world drives has changed: decide by whole plots instead
        alt = [('32', 'mini', 50), ('32', 'full', 50)] if prop not in ('C19',) else []
        if alt: b2 = Build([(x, w) for x, w, s in alt]); b.bins.update(b2.bins); b.notes += b2.notes
        todo = [x for x in alt if (x[0], x[1]) in b.bins]
        if prop in UNIT: global SPROP; SPROP = 'C01'
    if not todo: print('error: nothing could be built from', R); print('\n'.join(b.notes)[:3000]); return 2
    cache = tempfile.mkdtemp(prefix='run', dir=b.dir)
    try: return run(prop, tier, seed, todo, b, cache, tb)
    finally: shutil.rmtree(cache, ignore_errors=True)

def run(prop, tier, seed, todo, b, cache, tb):
    total = sum(s for _, _, s in todo); secs = SECS[tier] * (EXTRA.get(prop, 1) if tier == 'quick' and 'VERIF_SECS' not in os.environ else 1); kn = known(); known_hit = collections.OrderedDict()
    agg = dict(runs=0, incarnations=0, points=0, switches=0, vtime=0.0, broken=0, det_checked=0, det_bad=0); fired = collections.Counter(); probes = collections.Counter(); hashes = set(); samples = []; per = {}; errors = []; confirmed = None; ts = time.time(); rejected = []
    warm = [(16, i) for i in range(4)] if any(w == 'full' for _, w, _ in todo) else []
    if any(w == 'mini' for _, w, _ in todo): warm += [(k, i) for k in (15, 14, 13) for i in range(4)]
    if tier == 'thorough': os.environ['SIM_DEEP'] = '1'
    if warm:
        bn0 = b.bins[(todo[0][0], todo[0][1])]
        with ThreadPoolExecutor(NP) as ex: list(ex.map(lambda x: sh('%s warm %s %d %d' % (bn0, cache, x[0], x[1])), warm))
    twarm = time.time() - ts
    for bits, world, share in todo:
        bn = b.bins[(bits, world)]
        if prop in CAL and world in ('full', 'mini') and not os.path.exists(os.path.join(cache, 'calib-%s.txt' % world)): search(bn, world, 'CAL', seed, 1, cache, runs=1, detevery=0, workers=1)
        rs = search(bn, world, prop, seed, secs * share / total, cache)
        nr = 0; viol = []
        for r in rs:
            if r.get('error'): errors.append(r['error']); continue
            for k in agg: agg[k] += r[k]
            nr += r['runs']; fired.update(r['fired']); probes.update(r['probes']); hashes.update((bits, world, h) for h in r['shashes'])
            viol += r['violations']
        for r in rs:
            if not r.get('error') and r['samples'] and len(samples) < 6: samples.append(dict(r['samples'][0], world=world, bits=bits)); break
        per['%s/%s' % (world, bits)] = dict(runs=nr, seconds=round(secs * share / total, 1), runs_per_hour=round(3600 * nr / max(0.1, secs * share / total)))
        if viol:
            viol.sort(key=lambda v: v['seed'])
            for v in viol[:4]:
                k = [x for x in kn if x[0] == prop and x[1] == world and x[2] == v['class'] and re.search(x[3], v['detail'])]
                if k: known_hit[k[0]] = v; continue
                d, why = confirm(bn, world, prop, v['seed'], cache, 25 if tier == 'quick' else 300)
                if d:
                    t = open(d['replay']).read(); open(d['replay'], 'w').write('# bits %s\n# replay: python3 check.py --replay <this file>\n# %s: %s\n' % (bits, d['final_class'], d['final_detail'][:400].replace('\n', ' ')) + t)
                    confirmed = dict(d, world=world, bits=bits, seed=v['seed']); break
                rejected.append(dict(seed=v['seed'], world=world, bits=bits, why=why))
            if confirmed: break
    wall = time.time() - ts
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - T0, 2), violations=1 if confirmed else 0,
        coverage=dict(evaluations=agg['runs'], distinct_nontrivial=len(hashes), rule=RULE, samples=samples or ['none'],
            simulated_processes=agg['incarnations'], scheduling_points=agg['points'], context_switches=agg['switches'], simulated_seconds=round(agg['vtime'], 3),
            runs_per_hour=round(3600 * agg['runs'] / max(wall, 0.1)), distinct_schedules=len(hashes), faults_injected=dict(sorted(fired.items())), conditions_reached=dict(sorted(probes.items())),
            determinism=dict(runs_repeated=agg['det_checked'], different=agg['det_bad']), per_world=per, real_components={w: REAL[w] for _, w, _ in todo}, stubbed_components=dict(STUB if any(w == 'ctl' for _, w, _ in todo) else {'common': STUB['common']}),
            search_seconds=round(wall, 1), reference_seconds=round(twarm, 1), build_seconds=round(tb, 1), workers=NP, not_built=b.notes, worker_errors=errors[:5], unconfirmed=rejected, violation=confirmed or 'none'),
        assumptions=['thread interleaving at lock, condition, file, clock and instrumented memory-access points; sequentially consistent memory', 'process kill, not power loss: what was written to the simulated file system survives', 'k16-k18 (whole program), k13-k15 (phases), synthetic tables, sparse tables at full field width and sparse files stand for k32'])
    os.makedirs(EV, exist_ok=True); tmp = os.path.join(EV, prop + '.json.tmp'); json.dump(ev, open(tmp, 'w'), indent=1); os.rename(tmp, os.path.join(EV, prop + '.json'))
    for k, v in known_hit.items(): print('KNOWN-FINDING: property=%s %s' % (prop, k[4]))
    print('%s %s: %d runs, %d distinct schedules, %.0f simulated s, %d faults injected, %d/%d repeated runs identical, build %.0f s, search %.0f s' % (prop, tier, agg['runs'], len(hashes), agg['vtime'], sum(v for k, v in fired.items() if not k.startswith('sched.')), agg['det_checked'] - agg['det_bad'], agg['det_checked'], tb, wall))
    for n in b.notes: print('note:', n[:300])
    if confirmed:
        print('%s (world %s/%s, seed %d): %s' % (confirmed['final_class'], confirmed['world'], confirmed['bits'], confirmed['seed'], confirmed['final_detail'][:1000]))
        print('schedule reduced from %d to %d deviations' % (confirmed['devs_from'], confirmed['devs_to']))
        print('VIOLATION property=%s replay=%s' % (prop, confirmed['replay'])); return 1
    if agg['runs'] == 0: print('error: no run completed', errors[:3]); return 2
    if rejected: print('error: a violation was seen that could not be reproduced', rejected[:2]); return 2
    return 0

if __name__ == '__main__': sys.exit(main())
