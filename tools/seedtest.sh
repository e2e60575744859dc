#!/bin/bash
# tools/seedtest.sh ID...: confirms planted changes in a scratch copy of /repo (bind-mounted over /repo in a
# private mount namespace): demo passes without the patch, patched tree builds, 744 tests pass, demo fails.
set -u
S=/tmp/seedrepo
if [ "${1:-}" != "--in" ]; then
  mkdir -p /tmp/seedlog
  [ -d $S ] || cp -a /repo $S
  rsync -a --delete --exclude _build /repo/ $S/ 2>/dev/null || { cp -a /repo/include /repo/src $S/; }
  exec unshare -m --propagation private bash "$0" --in "$@"
fi
shift
mount --bind $S /repo || exit 2
cd /repo
git checkout -q -- .
for id in "$@"; do
  D=/verif/seeded/$id; L=/tmp/seedlog/$id; : > $L
  r=""
  T=$(mktemp -d /tmp/seeddemo.XXXX); cp $D/* $T/; rm -f $T/*.diff $T/meta.json
  (bash $T/demo.sh) >>$L 2>&1 && r="$r clean-ok" || r="$r CLEAN-FAILS"
  if git apply $D/patch.diff >>$L 2>&1; then
    if [ -n "${FAST:-}" ] || bash /opt/vp/build.sh >>$L 2>&1; then
      (bash $T/demo.sh) >>$L 2>&1 && r="$r DEMO-PASSES-WITH-BUG" || r="$r demo-fails-ok"
      [ -n "${FAST:-}" ] || { bash /opt/vp/test.sh /tmp/seedlog/$id.json >>$L 2>&1; r="$r $(tail -1 $L)"; }
    else r="$r BUILD-FAILS"; fi
  else r="$r PATCH-FAILS"; fi
  git checkout -q -- .
  rm -rf "$T"
  echo "$id:$r"
done
