#!/bin/bash
# Development aid (no check uses it): builds /repo (or $1) and its own gtests against the Matrix stand-in and runs them.
set -euo pipefail
R=${1:-/repo}; shift || true
W=$(mktemp -d /tmp/ecl_gtests.XXXXXX); trap 'find "$W" -delete' EXIT
H=$(cd "$(dirname "$0")/.." && pwd)
F="-std=c++14 -O1 -g -DECL_STANDALONE -I$H/shim -I$R -I$R/EKF -I$R/test -I$R/test/sensor_simulator -I$R/test/test_helper -w ${DEVFLAGS:-}"
ls "$R"/EKF/*.cpp "$R"/geo/*.cpp "$R"/geo_lookup/*.cpp "$R"/airdata/*.cpp "$R"/test/*.cpp "$R"/test/sensor_simulator/*.cpp "$R"/test/test_helper/*.cpp 2>/dev/null |
	xargs -P8 -I{} sh -c "g++ $F -c {} -o $W/\$(echo {} | md5sum | cut -c1-12).o || echo FAILED {}"
g++ $F "$W"/*.o -lgtest -lpthread -o "$W/t"
cd "$R/test"; "$W/t" "$@"
