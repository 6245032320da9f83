#!/bin/bash
# check.sh <property>: rebuild from /repo's working tree and decide the property.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/sim/build.sh" || exit 2
SIM_DIR="$here" exec "$here/sim/target/release/sim" check "$1"
