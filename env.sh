# Everything is built offline, with a build cache of its own.
here=${here:-/verif}
mkdir -p "$here/.build"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOCACHE="$here/.build/gocache" GONOSUMCHECK=1 GONOSUMDB='*'
