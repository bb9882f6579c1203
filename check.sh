#!/bin/bash
# check.sh PROPERTY: rebuild from /repo and search; exit 0 held, 1 violation, 2 no answer.
cd "$(dirname "$0")" || exit 2
. ./env.sh
case "$1" in
    C17) ./build.sh sim peer || exit 2 ;;
    *) ./build.sh sim || exit 2 ;;
esac
exec ./target/release/sim check "$1"
