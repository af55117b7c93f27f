#!/bin/bash
# trybugs.sh [id...]: runs the check of each planted bug's property against it, in copies; says which are caught
V=${VERIF:-/verif}
cd $V/seeded; ids=${@:-$(ls)}
for id in $ids; do
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  R=$(mktemp -d /tmp/bugXXXX); cp -a /repo/. $R/; (cd $R && git apply $V/seeded/$id/patch.diff) || echo "$id: does not apply"
  mkdir -p $R.v; ln -s $V/falsify $R.v/falsify
  t0=$(date +%s); VC_REPO=$R VC_HOME=$R.v VC_SPEC=$V/spec $V/bin/vc check $P > $R.v/out 2>&1; rc=$?
  echo "$id $P rc=$rc $(( $(date +%s)-t0 ))s $(grep VIOLATION $R.v/out | sed 's/replay=[^ ]*//') | $(grep -a 'failing input' $R.v/out | cut -c1-200) | $(grep -a '^failed' $R.v/out | head -2 | cut -c1-150 | tr '\n' ';')"
  rm -rf $R $R.v
done
