#!/bin/bash
# developer helper: build and run some properties with unit timings
cd /verif/harness && GOFLAGS=-mod=readonly go build -gcflags='fast-ksw/...=-d=checkptr' -o /tmp/v . || exit 2
T=${T:-quick}
for p in "$@"; do VERIF_TIMING=1 VERIF_DIR=/tmp/vd /tmp/v check -p $p -tier $T; done
