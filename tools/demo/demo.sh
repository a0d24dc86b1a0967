#!/bin/bash
# exit 0: the property holds in the demonstrated situation; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
SITE=/opt/vp/venv/lib/python3.12/site-packages
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap '/bin/rm -rf "$D"' EXIT
I=""
for i in metkitlib/include eckitlib/include eccodeslib/include; do I="$I -isystem $SITE/$i"; done
GEN=$(find /repo/_build -name fdb5_config.h | head -1)
GEN=$(dirname "$(dirname "$GEN")")
L=""
LP=""
for d in /repo/_build/lib $SITE/eckitlib/lib64 $SITE/metkitlib/lib64 $SITE/eccodeslib/lib64 $SITE/eckitlib.libs; do LP="$LP:$d"; L="$L -L$d -Wl,-rpath,$d -Wl,-rpath-link,$d"; done
g++ -std=gnu++17 -O0 -w -pthread -rdynamic -I"$here" -I/repo/src -I"$GEN" $I "$here/demo.cc" -o "$D/demo" $L -lfdb5 -lmetkit -leckit -ldl -Wl,--disable-new-dtags || exit 98
export DEMO_DIR="$D/s"
mkdir "$DEMO_DIR"
cd "$DEMO_DIR" || exit 97
export LD_LIBRARY_PATH="${LP#:}"
unset FDB_HOME FDB5_CONFIG FDB5_CONFIG_FILE
FDB_HOME="$DEMO_DIR" timeout 200 "$D/demo"
