#!/bin/bash
# trybug.sh ID [PROPERTY...]: runs the quick checks of the properties (default: the one in meta.json) against the planted bug,
# in a scratch copy of /repo (VERIF_REPO)
d=/verif/seeded/$1; shift
props=${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
t=$(mktemp -d /tmp/try-XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo" && git -C "$t/repo" apply "$d/patch.diff" || exit 3
for p in $props; do
  out=$(VERIF_REPO=$t/repo /verif/run.sh $p quick 2>&1); rc=$?
  echo "$(basename $d) $p rc=$rc $(echo "$out" | grep -m1 '^case' | cut -c1-220)"
done
