#!/bin/bash
# testseeds.sh ID... : the repository's stable tests on each planted change, in a mount namespace of its own
one() {
  id=$1
  d=$(mktemp -d /tmp/ts-XXXXXX)
  cp -a /repo $d/repo; cp -a /opt/vp/state $d/state
  git -C $d/repo apply /verif/seeded/$id/patch.diff || echo "PATCH FAILS $id"
  unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/state /opt/vp/state && bash /opt/vp/build.sh > $d/b.log 2>&1; timeout 600 bash /opt/vp/test.sh $d/out.json > $d/t.log 2>&1"
  python3 - "$id" $d/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[2]))['passed'])
m=sorted(b-o)
print(sys.argv[1], 'OK' if not m else 'CAUGHT BY TESTS %d %s' % (len(m), m[:3]))
P
  python3 -c "import shutil,sys; d=sys.argv[1]; assert d.startswith('/tmp/ts-'); shutil.rmtree(d)" "$d"
}
export -f one
printf '%s\n' "$@" | xargs -P ${JOBS:-5} -I{} bash -c 'one {}'
