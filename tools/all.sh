#!/bin/bash
# verify everything, 4 at a time
cd /verif; (grep -h '^lemma' spec/*.spec | sed 's/lemma \([a-zA-Z_0-9]*\).*/lemma.\1/'; awk '/^package/{p=$2} /^contract/ && p!="ext"{l=$0; sub(/^contract /,"",l); if (match(l,/^(\(\*?[A-Za-z]+\)\.)?[^(]*/)) print p "." substr(l,1,RLENGTH)}' spec/*.spec) | xargs -P ${P:-3} -I{} timeout 900 bin/vc verify {} 
