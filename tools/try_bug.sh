# one.sh BUG PROP...: build+tests with the patch in /repo, then run checks
id=$1; shift
cd /repo; git status --short | head -1
git apply /verif/seeded/$id/patch.diff || exit 1
[ -n "$NOTEST" ] || { bash /opt/vp/build.sh >/tmp/bugs/build.log 2>&1 && bash /opt/vp/test.sh /tmp/bugs/t.json >/dev/null 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/bugs/t.json'))
def ids(x): 
    for k in ('stable','tests','passed','pass'):
        if k in x: return set(x[k])
print(len(ids(b)-ids(t)),'stable tests fail', sorted(ids(b)-ids(t))[:3])
P
}
cd /verif
for p in $*; do python3 run.py $p quick 2>&1 | tail -2; done
git -C /repo checkout -q -- .
