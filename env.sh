# Go environment for everything under /verif (offline, same toolchain as /opt/vp/build.sh).
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOWORK=off GOPROXY=off
unset GOOS GOARCH GODEBUG GOGC GOMEMLIMIT
