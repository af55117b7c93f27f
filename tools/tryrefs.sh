#!/bin/bash
# tryrefs.sh "C01 C03..." id...: runs the checks on each refactoring of refactors/ (no behaviour changed), in copies; all must be quiet
V=${VERIF:-/verif}
props=$1; shift
for id in $@; do
  R=$(mktemp -d /tmp/refXXXX); cp -a /repo/. $R/; (cd $R && git apply $V/refactors/$id.diff) || echo "$id: does not apply"
  for P in $props; do
    mkdir -p $R.v; ln -sfn $V/falsify $R.v/falsify
    t0=$(date +%s); VC_REPO=$R VC_HOME=$R.v VC_SPEC=$V/spec $V/bin/vc check $P > $R.v/out 2>&1; rc=$?
    echo "$id $P rc=$rc $(( $(date +%s)-t0 ))s $(grep VIOLATION $R.v/out | sed 's/replay=[^ ]*//') $(grep -a 'failing input' $R.v/out | cut -c1-200) $(grep -a '^failed' $R.v/out | head -3 | cut -c1-180 | tr '\n' ';') $(grep -a '^note' $R.v/out | cut -c1-200)"
  done
  rm -rf $R $R.v
done
