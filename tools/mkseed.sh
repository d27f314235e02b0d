#!/bin/bash
# mkseed.sh ID PROP PKG "needs" "what_it_breaks"   (edits are in /repo's working tree; demo_test.go in /verif/seeded/ID)
# Stores the working-tree change of /repo as a planted bug, restores /repo, and verifies the bug.
set -e
id=$1 prop=$2 pkg=$3
d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
git -C /repo checkout -- .
python3 - "$prop" "$4" "$5" > $d/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
cat > $d/demo.sh <<P
#!/bin/bash
# Runs demo_test.go inside ./$pkg through a build overlay: 0 if the behaviour is right.
here=\$(cd "\$(dirname "\$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=\$(mktemp -d) || exit 3
trap 'rm -r "\$t"' EXIT
echo "{\"Replace\":{\"\$PWD/$pkg/zz_demo_test.go\":\"\$here/demo_test.go\"}}" > "\$t/o.json"
go test -c -vet=off -overlay "\$t/o.json" -o "\$t/demo" ./$pkg/ || exit 3
cd "\$t" && ./demo -test.run TestDemo -test.timeout 120s
P
chmod +x $d/demo.sh
/verif/tools/seedtest.sh $id
