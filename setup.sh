#!/bin/bash
# setup.sh: builds the engine into bin/ (ignored by git), offline.
cd "$(dirname "$0")" || exit 2
mkdir -p bin evidence
new=$(cat gose/*.go gose/go.mod | sha256sum)
[ -x bin/gose ] && [ "$(cat bin/gose.sum 2>/dev/null)" = "$new" ] && exit 0
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOENV=off GOTOOLCHAIN=local
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
(cd gose && go build -o ../bin/gose.tmp .) || exit 2
mv bin/gose.tmp bin/gose && echo "$new" > bin/gose.sum
