#!/usr/bin/env python3
"""plant.py NAME PROPERTY FILE: reads a spec from stdin:
   ---old / ---new / ---needs / ---breaks / ---demo  sections; writes /verif/seeded/NAME (patch, demo, meta)."""
import sys, subprocess, json, os, re
name, prop, path = sys.argv[1:4]
sec, cur = {}, None
for line in sys.stdin.read().split('\n'):
    m = re.match(r'^---(old|new|needs|breaks|demo)(\d*)\s*(\S*)$', line)
    if m:
        cur = m.group(1)+m.group(2); sec[cur] = []
        if m.group(3): sec[cur+':path'] = m.group(3)
    else: sec[cur].append(line)
get = lambda k: '\n'.join(sec[k]).rstrip('\n')
repo=os.environ.get('PLANT_REPO','/repo')
assert not subprocess.check_output(['git','-C',repo,'status','--porcelain']).strip(), 'dirty repo'
for k in [k for k in sec if k.startswith('old') and ':' not in k]:
    n = k[3:]
    f = os.path.join(repo, sec.get(k+':path', path))
    s = open(f).read(); o, w = get(k), get('new'+n)
    if s.count(o) != 1: subprocess.call(['git','-C',repo,'checkout','-q','--','.']); sys.exit(f'old{n}: {s.count(o)} matches')
    open(f,'w').write(s.replace(o,w))
d = subprocess.check_output(['git','-C',repo,'diff']).decode()
subprocess.check_call(['git','-C',repo,'checkout','-q','--','.'])
out = f'/verif/seeded/{name}'; os.makedirs(out, exist_ok=True)
open(out+'/patch.diff','w').write(d)
json.dump({"property":prop,"needs":get('needs').strip(),"what_it_breaks":get('breaks').strip()}, open(out+'/meta.json','w'), indent=1)
open(out+'/demo.cpp','w').write(get('demo')+'\n')
open(out+'/demo.sh','w').write('''#!/bin/bash
# Builds demo.cpp against /repo's library (run in /repo after the build) and runs it; exit 0 = behaves as specified.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp "$D/demo.cpp" "$T/demo.cpp"
g++ -std=gnu++17 -O1 -fopenmp -DKOKKOS_ENABLE_CXX17 -DKOKKOS_DEPENDENCE -DMPART_HAS_CEREAL -DMPART_HAS_NLOPT -DNLOPT_DLL -I/repo -isystem /usr/include/eigen3 "$T/demo.cpp" -o "$T/demo" -L/repo/_build -lmpart -lkokkoscontainers -lkokkoscore -lnlopt -Wl,-rpath,/repo/_build || exit 2
cd "$T" && OMP_NUM_THREADS=2 OMP_PROC_BIND=false timeout 200 ./demo
''')
os.chmod(out+'/demo.sh',0o755)
print('planted', name, len(d))
