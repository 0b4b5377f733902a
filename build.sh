#!/bin/bash
# Builds the engine from the committed sources into bin/ (not committed).
cd "$(dirname "$0")/engine" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p ../bin
exec go build -o ../bin/gosym ./cmd/gosym
