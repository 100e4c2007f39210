#!/bin/bash
# vetbug.sh ID [--no-tests]: confirm a seeded bug (demo both ways, build, stable tests) and run its check
cd "$(dirname "$0")/.." || exit 1
D=seeded/$1; PROP=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
T=$(mktemp -d /tmp/vet.XXXXXX); trap 'rm -rf "$T"' EXIT
tools/inrepo.sh - bash "$PWD/$D/demo.sh" >$T/d0 2>&1; a=$?
tools/inrepo.sh $D/patch.diff bash "$PWD/$D/demo.sh" >$T/d1 2>&1; b=$?
tools/inrepo.sh $D/patch.diff bash /opt/vp/build.sh >$T/b 2>&1; c=$?
tools/inrepo.sh $D/patch.diff bash -c "cd $PWD && mkdir -p $T/v && cp -r pyvc specs tools known_findings.jsonl $T/v/ && cd $T/v && python3-vt -W ignore -m pyvc.check $PROP" >$T/c 2>&1; e=$?
t=skip
if [ "$2" != --no-tests ]; then
  tools/inrepo.sh $D/patch.diff bash /opt/vp/test.sh $T/out.json >$T/t 2>&1
  t=$(python3 - $T/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
def ids(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set(x)
bad=ids(b)-ids(o)
print('ok' if not bad else 'FAIL '+' '.join(sorted(bad))[:200])
P
)
fi
echo "$1 [$PROP] demo clean=$a patched=$b build=$c check=$e tests=$t :: $(grep VIOLATION $T/c | tail -1)"
[ $a = 0 ] || tail -5 $T/d0
[ $b != 0 ] || tail -5 $T/d1
[ $e = 1 ] || tail -5 $T/c
