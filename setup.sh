#!/bin/bash
# Compiles the simulator once so that the first check does not pay for it. Checks rebuild what they need.
. /opt/vp/env.sh
export TZ=UTC GOFLAGS=-mod=mod
cd "$(dirname "$0")" && ./check.sh build
