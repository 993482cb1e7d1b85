#!/bin/bash
# tryseed.sh ID...: run the property's quick check against a scratch copy of /repo with the planted change
for id in "$@"; do
  S=/tmp/try.$id; mkdir -p $S; rsync -a --delete --exclude .git --exclude _build /repo/ $S/repo/; ln -sfn /repo/_build $S/repo/_build
  (cd $S/repo && patch -s -p1 < /verif/seeded/$id/patch.diff)
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  t0=$(date +%s)
  VF_REPO=$S/repo timeout 900 python3 /verif/vf.py check $P quick > $S/out 2>&1; rc=$?
  echo "$id $P rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION $S/out)"
  rm -rf $S/repo
done
