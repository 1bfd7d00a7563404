#!/bin/bash
# fidelity.sh [CASES]: runs fault-free simulated jobs again with the native tools on the real system
# and compares exit status, standard output and error, and every file. Not a check of a property:
# it shows that the simulator runs the tools as the real system does.
verif=$(cd "$(dirname "$0")/.." && pwd)
repo=${REPO:-/repo}
n=${1:-200}
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
s=$(mktemp -d "${TMPDIR:-/tmp}/goosli-fid.XXXXXXXX") || exit 3
trap 'rm -rf -- "${s:?}"' EXIT
mkdir -p "$s/src" "$s/bin" "$s/jobs"
(cd "$repo" && tar cf - --exclude=./.git .) | tar xf - -C "$s/src" || exit 3
(cd "$s/src" && go build -o "$s/bin/" ./cmd/...) || exit 3
(cd "$verif/simgen" && go build -o "$s/simgen" .) && "$s/simgen" -src "$s/src" -out "$s/out" -verif "$verif" || exit 3
(cd "$s/out" && go build -o "$s/simcli" ./harness/simcli) || exit 3
mkfifo "$s/open" && exec 9<>"$s/open" # the workers stop when their input ends
for p in C01 C08 C09 C10 C11 C12 C13 C15 C16; do
  SIMEXPORT=$s/jobs "$s/simcli" -mode worker -prop $p -seed "${VERIF_SEED:-1}" -from 0 -step 1 -count "$n" <&9 >/dev/null 2>&1 &
done
wait
python3 - "$s" <<'P'
import json, os, re, subprocess, sys, shutil, collections
s = sys.argv[1]
def files(d):
    r = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            b = open(p, 'rb').read()
            b = re.sub(rb'\d\d [A-Z][a-z]{2} \d\d \d\d:\d\d [A-Z]{3}', b'DATE', b)
            r[os.path.relpath(p, d)] = b
    return r
def err(t):
    t = re.sub(r'(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d ', '', t)
    t = re.sub(r'\[\d+/\d+\]0x[0-9a-f]+|\(0x0\)', 'ADDR', t)
    return t.split('goroutine ')[0].split('\n[signal')[0].strip()
n, bad, by = 0, 0, collections.Counter()
for j in sorted(os.listdir(s + '/jobs')):
    d = s + '/jobs/' + j
    if not os.path.exists(d + '/job.json'):
        continue
    job = json.load(open(d + '/job.json'))
    w = d + '/run'
    shutil.copytree(d + '/before', w) if os.path.isdir(d + '/before') else os.makedirs(w)
    r = subprocess.run([s + '/bin/' + job['tool']] + job['args'], cwd=w, capture_output=True, text=True, errors='replace', timeout=120, env={'COLUMNS': '80', 'HOME': '/root', 'PATH': '/bin'})
    n += 1
    by[job['tool'], job['code']] += 1
    a, b = files(w), files(d + '/after')
    what = ''
    if job['tool'] == 'goosli_simplifier': # its choice depends on the order of maps: compare everything but the content
        a, b = ({k: len(v) > 0 for k, v in m.items()} for m in (a, b))
    if r.returncode != job['code']: what = 'exit %d, simulated %d %s' % (r.returncode, job['code'], r.stderr[-200:])
    elif r.stdout != job['stdout']: what = 'stdout'
    elif err(r.stderr) != err(job['stderr']): what = 'stderr %r simulated %r' % (err(r.stderr)[:300], err(job['stderr'])[:300])
    elif a != b: what = 'files ' + str([k for k in set(a) | set(b) if a.get(k) != b.get(k)])
    if what:
        bad += 1
        if bad < 10: print('DIFFERENT', job['tool'], job['args'], what)
    shutil.rmtree(d)
print(n, 'jobs compared with the native tools,', bad, 'different;', ', '.join('%s exit %d: %d' % (t, c, k) for (t, c), k in sorted(by.items())))
sys.exit(bad > 0)
P
