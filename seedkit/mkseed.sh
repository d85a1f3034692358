#!/bin/bash
# mkseed.sh ID PROPERTY : takes /tmp/seed (a scratch worktree with the change) and seedkit/demos/ID.py, fills seeded/ID and confirms it
set -e
id=$1
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/seed diff > $d/patch.diff
cp /verif/seedkit/kit.py /verif/native/runner.rs $d/
cp /verif/standin/decimal/src/lib.rs $d/decimal.rs
cp /verif/seedkit/demos/$id.py $d/demo.py
printf '#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n' > $d/demo.sh
chmod +x $d/demo.sh
(cd /repo && timeout 300 bash $d/demo.sh) || { echo "DEMO FAILS ON CLEAN $id"; exit 1; }
if (cd /tmp/seed && timeout 300 bash $d/demo.sh); then echo "DEMO PASSES WITH PATCH $id"; exit 1; fi
echo "ok $id"
