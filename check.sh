#!/bin/bash
# check.sh <property> [quick|thorough]   |   check.sh replay <file>
. /opt/vp/env.sh
export TZ=UTC GOFLAGS=-mod=mod
cd "$(dirname "$0")/sim" || exit 2
mkdir -p ../.build
go build -o "../.build/check.$$" ./cmd/check || { echo "ERROR: building the driver"; exit 2; }
cd ..
mv -f ".build/check.$$" .build/check
exec .build/check "$@"
