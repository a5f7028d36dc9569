#!/bin/bash
# mkseed.sh ID PROPERTY "libs": make seeded/ID from /repo's working-tree diff, demo.cpp on stdin; undo the diff
cd "$(dirname "$0")/.."
id=$1; prop=$2; libs=${3:--lruntime}
mkdir -p seeded/$id
git -C /repo diff > seeded/$id/patch.diff
git -C /repo checkout -q -- .
cat > seeded/$id/demo.cpp
cat > seeded/$id/demo.sh <<S
#!/bin/bash
# exit 0: behaves as promised; nonzero: broken.
D=\$(cd "\$(dirname "\$0")" && pwd)
W=/repo/_build/ws; B=\$W/data/build/all; S=\$W/repos/plywood/src
T=\$(mktemp -d /tmp/plydemo.XXXXXX) || exit 0
trap 'rm -r "\$T"' EXIT
I=""; for d in platform runtime math/math math/serial reflect image/image image/reflect audio/primitives pylon/pylon pylon/reflect cpp crowbar build build/common build/folder build/provider build/repo build/target web/common web/markdown web/sass web/documentation web/serve-docs test/test apps/plytool apps/plytool/plytool-client; do I="\$I -I\$S/\$d"; done
/usr/bin/clang++ -include utility -g -std=c++14 -pthread -fno-exceptions -fno-stack-protector -Wno-everything -DPLY_WITH_ASSERTS=${ASSERTS:-1} -I\$B/codegen/ply-platform \$I "\$D/demo.cpp" -L\$B/build/Debug -Wl,--start-group $libs -Wl,--end-group -ldl -o "\$T/demo" || exit 3
cd "\$T" && mkdir w && cd w && timeout 120 ../demo
S
sed -i 's/^exit_placeholder//' seeded/$id/demo.sh
python3 - "$id" "$prop" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
