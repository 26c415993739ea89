#!/bin/bash
# trybug.sh ID [CHECK...]: in a scratch copy, demo without and with the
# patch, then the given checks (by default the property's) with it
id=$1; shift
dir=/verif/seeded/$id; w=/tmp/w/bug_$id
rm -rf "/tmp/w/bug_$id"; mkdir -p /tmp/w; cp -a /repo "$w" || exit 3
(cd "$w" && bash $dir/demo.sh >/tmp/w/$id.demo0 2>&1); a=$?
git -C "$w" apply $dir/patch.diff || { echo "$id: does not apply"; exit 3; }
(cd "$w" && bash $dir/demo.sh >/tmp/w/$id.demo1 2>&1); b=$?
p=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
out=""
for c in ${@:-$p}; do
  s=$(date +%s)
  (cd /verif && PV_REPO=$w PV_OUT=/tmp/w/out_$id ./check $c >/tmp/w/$id.$c.log 2>&1); r=$?
  echo "$id $c=$r" >> ${RESULTS:-/verif/tools/bugs/results.txt}
  out="$out $c=$r($(( $(date +%s)-s ))s)"
done
echo "$id: demo $a/$b checks:$out"
rm -rf "/tmp/w/bug_$id"
