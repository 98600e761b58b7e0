#!/bin/bash
# builds the analyzer from /verif/analyzer, offline
set -e
d=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
cd "$d/analyzer"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gotextcheck .
