#!/bin/bash
# usage: tools/seedtests.sh ID...: do the stable tests of the repository pass with the seeded change?
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
for i in "$@"; do
  git apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/st.log 2>&1; then bash /opt/vp/test.sh /tmp/st.json 2>&1 | tail -1 | sed "s/^/$i /"; else echo "$i does not build"; fi
  git checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/st.log 2>&1
