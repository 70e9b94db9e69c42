#!/usr/bin/env python3
"""developer aid: run the search for some properties, minimise one example of
every kind of violation and print it.  triage.py SECONDS PROP[,PROP] [variant] [base seed] [thorough]"""
import json, os, re, struct, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
sec, props = float(sys.argv[1]), sys.argv[2].split(',')
var = sys.argv[3] if len(sys.argv) > 3 else 'a'
base = int(sys.argv[4]) if len(sys.argv) > 4 else 1
thorough = sys.argv[5] if len(sys.argv) > 5 else '0'
only_own = os.environ.get('OWN', '1') == '1'
sim = simbuild.build(variants=(var,) if var != 'py' else (), py=var == 'py')[var]
W = '/tmp/triage'
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)

def recs(path):
    d = open(path, 'rb').read(); i = 0
    while i + 4 <= len(d):
        n, = struct.unpack_from('<I', d, i); yield d[i + 4:i + 4 + n].decode('utf8', 'replace'); i += 4 + n

for p in props:
    ps = [subprocess.Popen(["nice", "-n", "19", sim, "batch", p, str(base + i), '1000000', '8', f'{W}/{p}-{i}', str(sec), thorough, '40'], stdout=subprocess.DEVNULL, stderr=open(f'{W}/{p}-{i}.err', 'w')) for i in range(8)]
    rc = [q.wait() for q in ps]
    R = [json.load(open(f)) for f in glob.glob(f'{W}/{p}-*.json')]
    vc, oc = {}, {}
    for r in R:
        for k, v in r['vclasses'].items(): vc[k] = vc.get(k, 0) + v
        for k, v in r['others'].items(): oc[k] = oc.get(k, 0) + v[0]
    print(f"=== {p} seeds {sum(r['seeds'] for r in R)} runs {sum(r['runs'] for r in R)} viol {vc} others {oc} rc {rc if any(rc) else ''}", flush=True)
    kinds = {}
    ex = [x for i in range(8) if os.path.exists(f'{W}/{p}-{i}.viol') for x in recs(f'{W}/{p}-{i}.viol')]
    if not only_own:
        ex += [v[1] for r in R for v in r['others'].values()]
    for x in ex:
        cls, det, scen = x.split('\n', 2)
        k = cls + ' ' + re.sub(r'0x[0-9a-f]+|[0-9a-f]{8}|-?\d+', '#', det)[:90]
        if k not in kinds or len(scen) < len(kinds[k][2]): kinds[k] = (cls, det, scen)

    def mini(it):
        n, (k, (cls, det, scen)) = it
        f = f'{W}/{p}-m{n}'
        open(f + '.scn', 'w').write(scen)
        try:
            r = subprocess.run([sim, 'min', f + '.scn', cls, f + '.min', '8'], capture_output=True, text=True, timeout=60, errors='replace')
        except subprocess.TimeoutExpired:
            return f'--- {cls}: {det}\n(minimiser timed out) {f}.scn\n'
        s = open(f + '.min').read() if os.path.exists(f + '.min') else scen
        s = '\n'.join(l if len(l) < 240 else l[:240] + '...' for l in s.split('\n'))
        return f'--- {cls}: {det[:300]}\n[{r.stdout.strip()[:200]}] {f}.min\n{s}'
    with ThreadPoolExecutor(8) as e:
        for o in e.map(mini, list(enumerate(sorted(kinds.items(), key=lambda t: t[0])))[:14]):
            print(o, flush=True)
