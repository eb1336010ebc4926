#!/bin/bash
# Builds the simulator from /repo's working tree into /verif/build.
# build.sh [plain|race|all]
. /opt/vp/env.sh
set -e
what=${1:-all}
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p $here/build
(cd $here/tools/overlay && go build -o $here/build/overlaytool .)
rm -rf $here/build/ov
$here/build/overlaytool -goroot $(go env GOROOT) -out $here/build/ov -here $here/tools/overlay
if [ $what != race ]; then
	(cd $here/sim && go build -overlay $here/build/ov/overlay.json -o $here/build/simworker .)
fi
if [ $what != plain ]; then
	(cd $here/sim && go build -race -gcflags="verifsim=-race=false -l" -overlay $here/build/ov/overlay.json -o $here/build/simworker-race .)
fi
