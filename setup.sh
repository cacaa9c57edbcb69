#!/bin/bash
# Builds the symbolic executor from the committed sources.
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
mkdir -p "$root/.build" || exit 2
cd "$root/engine" || exit 2
go build -o "$root/.build/gosym.$$" . && mv "$root/.build/gosym.$$" "$root/.build/gosym"
