# Go toolchain and offline settings (as /opt/vp/env.sh), without touching
# any go.mod.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOROOT=/opt/veriftools/go1.27.3
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=readonly
unset GOARCH GOOS GOAMD64 CGO_ENABLED
