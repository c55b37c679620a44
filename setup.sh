#!/bin/bash
# Builds the checker from the committed sources, offline.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
cd "$here/checker" || exit 1
if [ -x "$here/bin/boocheck" ] && [ -z "$(find . -path ./vendor -prune -o -newer "$here/bin/boocheck" -type f -print | head -1)" ]; then
	exit 0
fi
mkdir -p "$here/bin"
go build -o "$here/bin/boocheck" .
