#!/bin/bash
# check.sh <ID> <tier>: runs one check (builds the analyzer if setup has not).
cd "$(dirname "$0")" || exit 1
. ./env.sh
[ -x bin/vsa ] || ./build.sh || exit 3
exec bin/vsa check "$1" "${2:-quick}"
