#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [engine flags]
# Decides one property on /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
case $1 in quick|thorough) export VERIF_TIER=$1; shift;; esac
. "$here/env.sh"
(cd "$here/engine" && go build -o "$here/.build/gosym.$$" ./cmd/gosym) || exit 2
mv "$here/.build/gosym.$$" "$here/.build/gosym-$id"
exec "$here/.build/gosym-$id" -root "$here" -prop "$id" "$@"
