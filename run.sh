#!/bin/bash
# run.sh ID quick|thorough : decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
V=$PWD
bin=$V/bin/gosym
./build.sh || { echo "engine does not build"; exit 2; }
exec "$bin" -prop "$1" -tier "${2:-quick}" -verif "$V" -repo /repo
