#!/bin/sh
# builds the obligation generator and the driver once, to fill the Go build cache
set -e
cd "$(dirname "$0")/.."
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
unset GOROOT
t=$(mktemp -d)
(cd govc && go build -o "$t/govc" .)
python3 tools/mkoverlay.py /repo "$t/ov.json"
(cd /repo && go build -overlay "$t/ov.json" -o "$t/drv" ./verifdrv)
rm -rf "$t"
