#!/bin/bash
# tryseed.sh ID... : in a copy of /repo, demo without and with the patch, the check with it
# (the repository's tests on it: vcheck --bug ID)
for id in "$@"; do
  d=$(mktemp -d /tmp/try-XXXXXX)
  cp -a ${BASE:-/repo} $d/repo
  s=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  cp -r $s $d/demo; find $d/demo -name '*.diff' -delete
  (cd $d/repo && bash $d/demo/demo.sh > $d/o1 2>&1); r1=$?
  git -C $d/repo apply $s/patch.diff || echo "PATCH FAILS $id"
  (cd $d/repo && bash $d/demo/demo.sh > $d/o2 2>&1); r2=$?
  (cd /verif && VERIF_REPO=$d/repo timeout 900 /opt/venv/bin/python check.py $p > $d/o3 2>&1); r3=$?
  echo "$id ($p): demo clean=$r1 patched=$r2 check=$r3 $(grep -m1 -A0 'VIOLATION' $d/o3) $(grep -m1 '^  [a-z]' $d/o3 | cut -c1-150)"
  [ $r1 = 0 ] || tail -5 $d/o1
  [ $r2 != 0 ] || echo "   demo does not fail"
  [ $r3 = 1 ] || tail -3 $d/o3
  python3 -c "import shutil,sys; d=sys.argv[1]; assert d.startswith('/tmp/try-'); shutil.rmtree(d)" "$d"
done
