#!/bin/bash
# builds the symbolic executor from the committed sources, offline
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin
cd engine && GOFLAGS=-mod=mod go build -o ../bin/gosym . 
