#!/bin/bash
# Builds the harness once, so that the Go build cache is warm and problems show early.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
export GOSUMDB=off
mkdir -p build
cd harness
go build -o ../build/h .
../build/h params -out ../build/params.ndjson
