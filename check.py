#!/usr/bin/env python3
"""Decides one property by seeded search in the simulator.

  check.py PROP [--tier quick|thorough] [--seconds N]
  check.py --replay FILE [--log]

Builds the simulator from /repo's working tree, replays the recorded scenarios
of the property, searches new seeds until the time is used up, minimises what
was found, confirms it in fresh processes and writes evidence/PROP.json.
Exit 0: held on everything explored; 1: violation; 2: the check failed."""
import array, glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import simbuild

WORKERS = 8
QUICK_S, THOROUGH_S = 36, 600
REAL = ['lib/*.c and lib/heatshrink (all of libbpak)', 'src/*.c (the bpak command)', 'ext/uuid', 'mbedcrypto 2.28 (hashes, ECDSA, RSA, PEM/DER parsing)', 'liblzma', 'glibc stdio buffering (over simulated files)']
STUB = ['files and system calls (in-memory disk with fault injection)', 'clock, random() and entropy', 'process boundary (each command runs as a simulated process: exit, crash and restart keep only the disk)', 'the allocator failure and size policy']
ASSUME = ['the small reference reader/writer in sim/ref.cc describes the format correctly (cross-checked against the packages the tests use)',
          'a write that does not extend the file and is smaller than a page is not torn by the simulated disk; other writes may be cut at any byte',
          'the device reports a full disk only for writes that extend a file']


def recs(path):
    d = open(path, 'rb').read()
    i = 0
    while i + 4 <= len(d):
        n, = struct.unpack_from('<I', d, i)
        yield d[i + 4:i + 4 + n].decode('utf8', 'replace')
        i += 4 + n


def kind_of(cls, det):
    return cls + ' ' + re.sub(r'0x[0-9a-f]+|[0-9a-f]{8,}|-?\d+', '#', det)[:90]


def bin_of(text):
    m = re.search(r'^binary (\S+)', text, re.M)
    return m.group(1).split('+') if m else ['py' if re.search(r'^prop C19', text, re.M) else 'a']


def replay_once(sims, path, log=False):
    """(violated classes, comparable output, printed output)"""
    text = open(path, errors='replace').read()
    bins = bin_of(text)
    out, bad, files = '', [], []
    for b in bins:
        p = subprocess.run([sims[b], 'replay', path] + (['--log'] if log else []), capture_output=True, text=True, errors='replace', timeout=600)
        out += p.stdout
        bad += re.findall(r'^VIOLATED class (\S+)', p.stdout, re.M)
        m = re.search(r'^trace .* files (\S+)', p.stdout, re.M)
        files.append(m.group(1) if m else '?')
    if len(bins) > 1 and len(set(files)) > 1:
        bad.append('repro')
        out += 'VIOLATED class repro two builds of the same code write different bytes for the same edits\n'
    return bad, [l for l in out.split('\n') if l.startswith(('VIOLATED', 'trace'))], out


def load_known():
    """known: property=C01 class=<class> detail=<regular expression>"""
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) class=(\S+) detail=/(.*?)/ (.*)', l)
            if m:
                r.append(m.groups())
    return r


def needed(prop):
    return ('py',) if prop == 'C19' else ('a', 'b')


def build_for(vs):
    return simbuild.build(variants=tuple(v for v in vs if v != 'py'), py='py' in vs)


def main():
    t0 = time.time()
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        text = open(a[1], errors='replace').read()
        sims = build_for(bin_of(text))
        bad, _, out = replay_once(sims, a[1], '--log' in a)
        print(out)
        m = re.search(r'^prop (C\d+)', text, re.M)
        if bad:
            print('VIOLATION property=%s replay=%s' % (m.group(1) if m else '?', a[1]))
        sys.exit(1 if bad else 0)
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    secs = THOROUGH_S if tier == 'thorough' else QUICK_S
    if '--seconds' in a:
        secs = float(a[a.index('--seconds') + 1])
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    vs = needed(prop)
    sims = build_for(vs)
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='run-', dir=simbuild.BUILD)
    rep_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    for f in glob.glob(os.path.join(rep_dir, prop + '-*')):
        os.unlink(f)
    try:
        rc = search(prop, tier, secs, seed, vs, sims, tmp, rep_dir, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def search(prop, tier, secs, seed, vs, sims, tmp, rep_dir, t0, t_build):
    ex = ThreadPoolExecutor(WORKERS)
    found = {}          # kind -> (class, detail, scenario text with its binary)
    # 1. recorded scenarios
    rec = sorted(glob.glob(os.path.join(HERE, 'scenarios', prop + '-*.scn')))

    def run_rec(f):
        r = []
        text = open(f).read()
        bins = [vs[0]] if vs == ('py',) else ['a', 'b']
        if re.search(r'^binary ', text, re.M):
            bins = ['+'.join(bin_of(text))]
        for b in bins:
            p = os.path.join(tmp, os.path.basename(f) + '.' + b)
            body = re.sub(r'^binary .*\n', '', text, flags=re.M)
            body = re.sub(r'^(class|detail) .*\n', '', body, flags=re.M)
            open(p, 'w').write('binary %s\n' % b + body)
            bad, lines, out = replay_once(sims, p)
            for m in re.finditer(r'^VIOLATED class (\S+) (?:op -?\d+: )?(.*)', out, re.M):
                r.append((m.group(1), m.group(2), 'binary %s\n' % b + body))
        return r
    nrec = 0
    for r in ex.map(run_rec, rec):
        nrec += 1
        for cls, det, sc in r:
            found.setdefault(kind_of(cls, det), (cls, det, sc))
    # 2. new seeds
    t_search = time.time()
    base = (seed & 0xffffffff) * 1000003 + 17
    jobs = []
    if vs == ('py',):
        jobs = [('py', base + i, WORKERS) for i in range(WORKERS)]
    elif prop == 'C17':
        jobs = [(v, base + i, WORKERS // 2) for v in vs for i in range(WORKERS // 2)]
    else:
        jobs = [('b' if (i % 3 == 2) != (prop == 'C10') else 'a', base + i, WORKERS) for i in range(WORKERS)]
    ps = []
    for i, (v, s0, stride) in enumerate(jobs):
        ps.append(subprocess.Popen([sims[v], 'batch', prop, str(s0), '1000000000', str(stride), os.path.join(tmp, 'w%d' % i), str(secs),
                                    '1' if tier == 'thorough' else '0', '6'], stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, 'w%d.err' % i), 'w')))
    broken = []
    for i, p in enumerate(ps):
        try:
            rc = p.wait(timeout=secs + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = -1
        if rc:
            broken.append('worker %d ended with %d: %s' % (i, rc, open(os.path.join(tmp, 'w%d.err' % i), errors='replace').read()[-500:]))
    search_s = time.time() - t_search
    tot = {'seeds': 0, 'runs': 0, 'events': 0, 'simms': 0, 'aborted': 0}
    maps = {k: {} for k in ('fired', 'planned', 'ops', 'failed', 'vclasses', 'others')}
    traces, states, samples = set(), set(), []
    for i, (v, _, _) in enumerate(jobs):
        w = os.path.join(tmp, 'w%d' % i)
        if not os.path.exists(w + '.json'):
            continue
        j = json.load(open(w + '.json'))
        for k in tot:
            tot[k] += j[k]
        for k, m in maps.items():
            for n, c in j.get(k, {}).items():
                m[n] = m.get(n, 0) + (c[0] if isinstance(c, list) else c)
        for s, f in ((traces, '.traces'), (states, '.states')):
            arr = array.array('Q')
            arr.frombytes(open(w + f, 'rb').read())
            s.update(arr)
        if len(samples) < 3:
            samples += j['samples'][:1]
        for x in recs(w + '.viol'):
            cls, det, sc = x.split('\n', 2)
            k = kind_of(cls, det)
            if k not in found or len(sc) < len(found[k][2]):
                found[k] = (cls, det, 'binary %s\n' % v + sc)
    compared = 0
    if prop == 'C17':
        dig = {'a': {}, 'b': {}}
        for i, (v, _, _) in enumerate(jobs):
            f = os.path.join(tmp, 'w%d.dig' % i)
            if os.path.exists(f):
                for l in open(f):
                    s, d = l.split()
                    dig[v][int(s)] = d
        for s in sorted(set(dig['a']) & set(dig['b'])):
            compared += 1
            if dig['a'][s] != dig['b'][s]:
                sc = subprocess.run([sims['a'], 'gen', prop, str(s)] + (['1'] if tier == 'thorough' else []), capture_output=True, text=True).stdout
                found.setdefault('repro builds', ('repro', 'two builds of the same code write different bytes for the same edits', 'binary a+b\n' + sc))
    # 3. confirm and minimise
    todo = sorted(found.items(), key=lambda t: len(t[1][2]))[:8]
    mini_s = 40 if tier == 'thorough' else 20

    def confirm(it):
        n, (k, (cls, det, sc)) = it
        orig, mn = os.path.join(tmp, 'c%d.scn' % n), os.path.join(tmp, 'c%d.min' % n)
        open(orig, 'w').write(sc)
        bins = bin_of(sc)
        cand = []
        if len(bins) == 1:
            try:
                subprocess.run([sims[bins[0]], 'min', orig, cls, mn, str(mini_s)], capture_output=True, timeout=mini_s + 150)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(mn):
                text = 'binary %s\n' % bins[0] + open(mn, errors='replace').read()
                open(mn, 'w').write(text)
                cand.append(mn)
        cand.append(orig)
        for c in cand:
            try:
                b1, l1, _ = replay_once(sims, c)
                b2, l2, _ = replay_once(sims, c)
            except subprocess.TimeoutExpired:
                continue
            if cls in b1 and cls in b2 and (l1 == l2 or cls in ('sanitizer', 'crash', 'hang', 'abort')):
                text = open(c, errors='replace').read()
                m = re.search(r'^detail (.*)', text, re.M)
                d = m.group(1) if m else det
                if not m:
                    head, body = text.split('\n', 1)
                    text = '%s\nclass %s\ndetail %s\n%s' % (head, cls, det, body)
                return cls, d, text
        return cls, det, None
    known = load_known()
    nviol, unrep, kseen = 0, [], {}
    lines = []
    for cls, det, text in ex.map(confirm, enumerate(todo)):
        if text is None:
            unrep.append('%s: %s' % (cls, det))
            continue
        kf = [x for x in known if x[0] == prop and x[1] == cls and re.search(x[2], det)]
        if kf:
            kseen[kf[0][3]] = True
            continue
        nviol += 1
        path = 'evidence/replay/%s-%d.scn' % (prop, nviol)
        open(os.path.join(HERE, path), 'w').write(text)
        lines.append((cls, det, path))
    for k in known:
        if k[0] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    for cls, det, path in lines:
        print('  [%s] %s' % (cls, det))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for u in unrep:
        print('note: not reproduced on replay, not reported: ' + u)
    harness = maps['others'].get('harness', 0)
    hours = max(search_s, 1e-9) / 3600.0
    level = 'exploration'
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    for c in man['checks']:
        if c['property'] == prop:
            level = c['level']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'wall_s': round(time.time() - t0, 2), 'violations': nviol,
        'coverage': {
            'evaluations': tot['runs'] + nrec,
            'distinct_nontrivial': len(traces),
            'rule': 'A seed generates an operation history, its input files and an environment (buffering, clock, fill, legal short transfers); it is run without faults and then repeatedly with seeded fault sequences placed on the events that run had. '
                    'A run is the simulated execution of one such scenario. Two runs count as distinct when their traces (hash over every intercepted system call, callback, injected fault, result and output) differ; every counted run performs at least one operation on a package.',
            'samples': samples,
            'seeds': tot['seeds'], 'runs': tot['runs'], 'recorded_scenarios_replayed': nrec,
            'seeds_per_hour': int(tot['seeds'] / hours), 'runs_per_hour': int(tot['runs'] / hours),
            'simulated_events': tot['events'], 'simulated_time_s': round(tot['simms'] / 1000.0, 1),
            'faults_injected': dict(sorted(maps['fired'].items())), 'faults_planned': dict(sorted(maps['planned'].items())),
            'operations': dict(sorted(maps['ops'].items())), 'operations_that_failed': dict(sorted(maps['failed'].items())),
            'distinct_disk_states': len(states),
            'distinct_disk_states_measure': 'hash of the contents of all simulated files after each operation',
            'other_observations': maps['others'],
            'builds': {v: ' '.join(simbuild.VARIANTS.get(v, simbuild.VARIANTS['a'])) for v in sorted(set(j[0] for j in jobs))},
            'components_real': REAL + (['python/*.c in an embedded interpreter'] if prop == 'C19' else []), 'components_stubbed': STUB,
            'search_s': round(search_s, 1), 'build_s': round(t_build, 1), 'workers': len(jobs),
        },
        'assumptions': ASSUME,
    }
    if prop == 'C17':
        ev['coverage']['seeds_compared_across_builds'] = compared
    if unrep:
        ev['coverage']['unreproduced'] = unrep
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d seeds, %d runs, %d distinct executions, %d faults injected, %.0f s; %d violation(s)' % (prop, tot['seeds'], tot['runs'], len(traces), sum(maps['fired'].values()), time.time() - t0, nviol))
    if nviol:
        return 1
    if harness:
        print('note: %d runs could not be judged (harness)' % harness)
    if broken or not tot['runs'] or harness > tot['runs'] // 20:
        for b in broken:
            print('error: ' + b)
        return 2
    return 0


if __name__ == '__main__':
    try:
        main()
    except simbuild.BuildError as e:
        print('error: the simulator could not be built\n' + str(e))
        sys.exit(2)
