#!/bin/bash
# run.sh <property>: builds the analyser from the committed sources and decides the property on /repo's current tree
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
( cd tool && go build -o ../bin/midicheck . ) || { echo "cannot build the analyser"; exit 2; }
unset GOFLAGS
[ "$1" = --build ] && exit 0
exec ./bin/midicheck "$1"
