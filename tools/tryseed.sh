#!/bin/bash
# tools/tryseed.sh ID... : demo on both trees, stable tests, and the property's check.
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  d=$PWD/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -d /tmp/rs ] || cp -a /repo /tmp/rs
  git -C /tmp/rs checkout -q -- .
  lay=$(mktemp -d); cp "$d"/*.py "$d"/*.sh "$lay"/
  (cd /tmp/rs && bash "$lay/demo.sh" >/tmp/rs.out0 2>&1); a=$?
  git -C /tmp/rs apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  (cd /tmp/rs && bash "$lay/demo.sh" >/tmp/rs.out1 2>&1); b=$?
  c=-; v=-
  if [ -z "$NOCHECK" ]; then VERIF_REPO=/tmp/rs ./run.sh $prop quick >/tmp/rs.check 2>&1; c=$?; v=$(grep -c "^VIOLATION property=$prop" /tmp/rs.check); fi
  t=-
  if [ -n "$TESTS" ]; then
    sed -e 's#cd /repo#rm -rf /tmp/rsplug; mkdir /tmp/rsplug; sed s=/repo/t5x=/tmp/rs/t5x= /opt/vp/plugins/t5x_without_init.py >/tmp/rsplug/t5x_without_init.py; export PYTHONPATH=/tmp/rsplug:/tmp/rs; cd /tmp/rs#' /opt/vp/test.sh > /tmp/rs.test.sh; bash /tmp/rs.test.sh /tmp/rs.json >/dev/null 2>&1
    t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));p=set(json.load(open('/tmp/rs.json'))['passed']);print(len(set(b['stable'])-p))")
  fi
  git -C /tmp/rs checkout -q -- .
  rm -r "$lay"
  echo "$id [$prop] demo clean=$a patched=$b check=$c violations=$v stable-tests-lost=$t"
done
