#!/bin/bash
# Builds the analyzer (offline, from analyzer/ and the module cache).
cd "$(dirname "$0")" || exit 1
. ./env.sh
cd analyzer && mkdir -p ../bin && go build -o ../bin/vsa .
