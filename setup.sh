#!/bin/bash
# Build the simulator and everything it needs from the committed files, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec ./build.sh
