#!/bin/bash
# try.sh ID [check...] : in a private mount namespace with a patched copy over /repo: demo, tests, checks
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/seedtry.XXXXXX); chmod 755 $w
trap 'rm -rf "$w"' EXIT
cp -a /repo $w/repo; rm -rf $w/repo/.git; mkdir -p $w/ev
ns() { unshare -m bash -c 'mount --bind "$0/repo" /repo; mount --bind "$0/ev" /verif/evidence; '"$1" $w; }
ns "cd /repo; bash $d/demo.sh >/tmp/demo0.$1.log 2>&1"; a=$?
(cd $w/repo && git apply --unsafe-paths --directory= $d/patch.diff 2>/dev/null || patch -s -p1 < $d/patch.diff) || { echo "patch fails"; exit 9; }
ns "cd /repo; bash $d/demo.sh >/tmp/demo1.$1.log 2>&1"; b=$?
t="-"
[ -n "$NOTEST" ] || { ns "bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1"; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$w/t.json'))
p=set(t['passed']); base=b['stable']
print(len(set(base)-p), sorted(set(base)-p)[:3])"); }
echo "$1: demo clean=$a patched=$b failing-tests=$t"; tail -1 /tmp/demo1.$1.log
for c in ${@:2} ${2:-$prop}; do ns "cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick bin/check $c 2>&1 | grep -v KNOWN | tail -4 | cut -c1-220"; done
