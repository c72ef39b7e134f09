#!/bin/bash
# tools/bug.sh ID [notest]: confirm a planted bug and run its property's check on it.
# Works in a scratch copy of /repo, never in /repo itself.
ID=$1; D=/verif/seeded/$ID
PROP=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
W=/tmp/bug-$ID; rm -rf "/tmp/bug-$ID"; cp -a /repo $W; cd $W || exit 9
run_demo() { rm -rf /tmp/demo-$ID; cp -r $D /tmp/demo-$ID; rm -f /tmp/demo-$ID/*.diff /tmp/demo-$ID/meta.json; (cd $W; timeout 300 bash /tmp/demo-$ID/demo.sh) > /tmp/demo-$ID.out 2>&1; echo $?; rm -rf /tmp/demo-$ID; }
echo "demo clean: $(run_demo)"
git apply $D/patch.diff || { echo "DOES NOT APPLY"; exit 9; }
echo "demo patched: $(run_demo)"
if [ "$2" != notest ]; then
 sed "s#/repo#$W#g" /opt/vp/run_suite.py > /tmp/suite-$ID.py
 (cd $W/capture; rm -rf .noworkflow; PYTHONPATH=$W/capture HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg timeout 300 /opt/venv/bin/python -W ignore /tmp/suite-$ID.py /tmp/suite-$ID.log </dev/null >/dev/null 2>&1)
 python3 - /tmp/suite-$ID.log <<'P'
import json,sys
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set(l.split(None,1)[1].strip() for l in open(sys.argv[1]) if l.startswith('PASS'))
print("tests: %d stable pass, missing %s"%(len(ok&stable),sorted(stable-ok)[:5]))
P
fi
shift; [ "$1" == notest ] && shift
for p in $PROP $*; do
 NWSIM_REPO=$W NWSIM_EVIDENCE=/tmp/ev-$ID NWSIM_REPLAYS=/tmp/rp-$ID /verif/check $p quick > /tmp/check-$ID-$p.out 2>&1; echo "check $p: rc=$? $(grep -a -B2 ^VIOLATION /tmp/check-$ID-$p.out | head -c 600)"
done
rm -rf $W /tmp/ev-$ID
