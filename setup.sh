#!/bin/bash
# Builds the engine once (warms the build cache; every check also builds what it needs).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
cd "$here/engine" && go build -o "$here/.build/gosym" ./cmd/gosym
