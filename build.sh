#!/bin/bash
# builds the verifier into /verif/.build (offline)
. /opt/vp/env.sh
cd "$(dirname "$0")/govc" || exit 2
mkdir -p ../.build
GOFLAGS=-mod=mod go build -o ../.build/govc . || exit 2
