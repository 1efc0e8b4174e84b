# build environment of the bench (same toolchain and tags as the repository's own build)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=1
export VTAGS='ledger test_ledger_mock'
