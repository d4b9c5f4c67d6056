#!/bin/bash
# Builds the analyser from the committed sources, offline.
set -e
cd "$(dirname "$0")/analyzer"
[ -f /opt/vp/env.sh ] && { here=$PWD; . /opt/vp/env.sh; cd "$here"; }
export GOWORK=off GOFLAGS=-mod=vendor
mkdir -p ../bin
go build -o ../bin/gosms-analyzer .
