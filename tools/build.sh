#!/bin/bash
# tools/build.sh OUTDIR: builds the checker against /repo's working tree into
# OUTDIR/zcheck, with the verif hooks on. Writes nothing outside OUTDIR and the
# Go build cache.
set -e
out=$1
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:${PATH:-/usr/bin:/bin}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS=
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$out/ov"
sed "s,=> /repo$,=> ${ZREPO:-/repo}," "$here/harness/go.mod" > "$out/h.mod"
cp "$here/harness/go.sum" "$out/h.sum"
root=$(go env GOROOT)
maps=$root/src/internal/runtime/maps/table.go
proc=$root/src/os/proc.go
# map iteration: start offsets come from the harness when it asks for it
sed 's/= rand()$/= verifIterRand()/' "$maps" > "$out/ov/maps_table.go.txt"
cat >> "$out/ov/maps_table.go.txt" <<'G'

var verifIterOn bool
var verifIterOffset uint64

func verifIterRand() uint64 {
	if verifIterOn {
		return verifIterOffset
	}
	return rand()
}
G
# os.Exit: a step that exits the process is recorded, not carried out
sed 's/^func Exit(code int) {$/var verifExit func(int)\n\nfunc Exit(code int) {\n\tif verifExit != nil {\n\t\tverifExit(code)\n\t}/' "$proc" > "$out/ov/os_proc.go.txt"
# the group library checks its two fixed 512-bit primes again for every suite:
# remember the answer for numbers of that size
prime=$root/src/math/big/prime.go
sed 's/^func (x \*Int) ProbablyPrime(n int) bool {$/var verifPrimes sync.Map\n\nfunc (x *Int) ProbablyPrime(n int) bool {\n\tif b := x.BitLen(); b == 511 || b == 512 {\n\t\tk := string(x.Bytes())\n\t\tif v, ok := verifPrimes.Load(k); ok {\n\t\t\treturn v.(bool)\n\t\t}\n\t\tv := x.verifProbablyPrime(n)\n\t\tverifPrimes.Store(k, v)\n\t\treturn v\n\t}\n\treturn x.verifProbablyPrime(n)\n}\n\nfunc (x *Int) verifProbablyPrime(n int) bool {/; s/^import "math\/rand"$/import (\n\t"math\/rand"\n\t"sync"\n)/' "$prime" > "$out/ov/big_prime.go.txt"
# the number of the running goroutine
cat > "$out/ov/runtime_verif.go.txt" <<'G'
package runtime

func verifGoid() uint64 { return getg().goid }
G
cd "$here/harness"
# YIELD: the nodes' code hands every statement to the harness's scheduler
yield=
if [ -n "$YIELD" ]; then
	(cd "$here/tools/instrument" && GO111MODULE=off go build -o "$out/instrument" main.go)
	for p in coordinator server client; do
		yield=$yield$("$out/instrument" "${ZREPO:-/repo}/cmd/$p" "$out/ov")
	done
	if [ "$YIELD" = net ]; then # and what they do on connections
		yield=$yield$("$out/instrument" "${ZREPO:-/repo}/util" "$out/ov" net)
		n=$root/src/net
		sed -e '/^func (c \*conn) Read(/,/^}/{s/^\tn, err := c.fd.Read(b)/\tn, err := verifRead(c.fd, b)/}' \
			-e '/^func (c \*conn) Write(/,/^}/{s/^\tn, err := c.fd.Write(b)/\tn, err := verifWrite(c.fd, b)/}' \
			-e '/^func (c \*conn) Close(/,/^}/{s/^\terr := c.fd.Close()/\terr := verifClose(c.fd, c.fd.Close)/}' \
			-e '/^func (c \*conn) SetDeadline(/,/^}/{s/c.fd.SetDeadline(t)/verifDeadline(c.fd, t)/}' \
			-e '/^func (c \*conn) SetReadDeadline(/,/^}/{s/c.fd.SetReadDeadline(t)/verifDeadline(c.fd, t)/}' "$n/net.go" > "$out/ov/net_net.go.txt"
		sed -e '/^func (c \*TCPConn) CloseWrite(/,/^}/{s/c.fd.closeWrite()/verifClose(c.fd, c.fd.closeWrite)/}' "$n/tcpsock.go" > "$out/ov/net_tcpsock.go.txt"
		sed -e '/^func (sd \*sysDialer) dialTCP(/,/^}/{s/return sd.doDialTCP(ctx, laddr, raddr)/return verifDial(raddr, func() (*TCPConn, error) { return sd.doDialTCP(ctx, laddr, raddr) })/}' \
			-e '/^func (ln \*TCPListener) accept(/,/^}/{s/fd, err := ln.fd.accept()/fd, err := verifAccept(ln)/}' "$n/tcpsock_posix.go" > "$out/ov/net_tcpsock_posix.go.txt"
		cat > "$out/ov/net_verif.go.txt" <<'G'
package net

import (
	"os"
	"time"
)

var verifNet func(op, local, remote string, n int) int

func verifOp(op string, fd *netFD, n int) int {
	if verifNet == nil || fd.laddr == nil {
		return -1
	}
	r := ""
	if fd.raddr != nil {
		r = fd.raddr.String()
	}
	return verifNet(op, fd.laddr.String(), r, n)
}

func verifRead(fd *netFD, b []byte) (n int, err error) {
	m := verifOp("read", fd, len(b))
	if m == -2 {
		return 0, os.ErrDeadlineExceeded
	}
	if m <= 0 {
		return fd.Read(b)
	}
	for n < m && err == nil {
		var k int
		k, err = fd.Read(b[n:m])
		n += k
	}
	return
}

func verifWrite(fd *netFD, b []byte) (n int, err error) {
	verifOp("write", fd, len(b))
	n, err = fd.Write(b)
	verifOp("wrote", fd, n)
	return
}

func verifClose(fd *netFD, f func() error) error {
	verifOp("close", fd, 0)
	err := f()
	verifOp("closed", fd, 0)
	return err
}

func verifDeadline(fd *netFD, t time.Time) error {
	n := 1
	if t.IsZero() {
		n = 0
	}
	if verifOp("deadline", fd, n) == -1 {
		return fd.SetReadDeadline(t)
	}
	return nil
}

func verifDial(raddr *TCPAddr, f func() (*TCPConn, error)) (*TCPConn, error) {
	if verifNet != nil {
		verifNet("dial", "", raddr.String(), 0)
	}
	c, err := f()
	if err == nil {
		verifOp("dialed", c.fd, 0)
	}
	return c, err
}

func verifAccept(l *TCPListener) (*netFD, error) {
	verifOp("accept", l.fd, 0)
	return l.fd.accept()
}
G
		yield="$yield, \"$n/net.go\": \"$out/ov/net_net.go.txt\", \"$n/tcpsock.go\": \"$out/ov/net_tcpsock.go.txt\", \"$n/tcpsock_posix.go\": \"$out/ov/net_tcpsock_posix.go.txt\", \"$n/zz_verif.go\": \"$out/ov/net_verif.go.txt\""
	fi
fi
cat > "$out/ov.json" <<J
{"Replace": {"$maps": "$out/ov/maps_table.go.txt", "$proc": "$out/ov/os_proc.go.txt", "$prime": "$out/ov/big_prime.go.txt", "$root/src/runtime/zz_verif.go": "$out/ov/runtime_verif.go.txt"$yield}}
J
go build -mod=mod -modfile="$out/h.mod" -tags verif -overlay "$out/ov.json" -ldflags="-checklinkname=0 -X main.instrumented=$YIELD" -o "$out/zcheck" .
