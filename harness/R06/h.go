package main

import (
	"errors"
	"fmt"
	"net/netip"
	"syscall"

	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vnet"
	"github.com/livekit/media-sdk/zzverif/vrand"
)

var errPerm = errors.New("permission denied")

// answers scripts the outcome of each attempt: the first free ones are in use
// and then one succeeds or fails.
func answers(used int, end error) {
	vnet.Answer = func(n int) error {
		if n < used {
			return &vnet.OpError{Op: "listen", Net: "udp", Err: fmt.Errorf("bind: %w", syscall.EADDRINUSE)}
		}
		return end
	}
}

func listen(min, max int) (*vnet.UDPConn, error) {
	return rtp.ListenUDPPortRange(min, max, netip.AddrFrom4([4]byte{127, 0, 0, 1}))
}

// A range of a few ports anywhere, possibly open-ended.
func HRange() {
	maxW := sym.Bound(4, 6)
	w := 2 + sym.Choose("width", maxW-1)
	var min, max, lo int
	switch sym.Choose("kind", 4) {
	case 0:
		lo = sym.Range("lo", 1, 0x10000-w)
		min, max = lo, lo+w-1
	case 1: // no lower bound
		min, max, lo = -sym.Range("neg", 0, 3), w, 1
	case 2: // no upper bound
		lo = 0x10000 - w
		min, max = lo, -sym.Range("neg", 0, 3)
	case 3: // upper bound out of range
		lo = 0x10000 - w
		min, max = lo, 0x10000+sym.Range("above", 0, 70000)
	}
	hi := lo + w - 1
	used := sym.Choose("used", w+1)
	var end error
	fail := sym.Choose("fail", 2) == 1
	if fail {
		end = errPerm
	}
	answers(used, end)
	c, err := listen(min, max)
	n := len(vnet.Attempts)
	want := used + 1
	if used == w {
		want = w
	}
	sym.Assert(n <= w, "more attempts than ports in the range")
	for i, a := range vnet.Attempts {
		sym.Assert(a.Port >= lo && a.Port <= hi, "a port outside the range is tried")
		sym.Assert(a.IP == netip.AddrFrom4([4]byte{127, 0, 0, 1}), "another address is used")
		for _, b := range vnet.Attempts[:i] {
			sym.Assert(a.Port != b.Port, "a port is tried twice")
		}
	}
	switch {
	case used == w:
		sym.Assert(err != nil, "an exhausted range is not an error")
		sym.Assert(errors.Is(err, rtp.ErrListenFailed), "an exhausted range gives another error")
		sym.Assert(n == w, "it fails before every port was tried")
	case fail:
		sym.Assert(errors.Is(err, errPerm), "another error than address-in-use is not returned")
		sym.Assert(n == want, "it goes on after another error than address-in-use")
	default:
		sym.Assert(err == nil && c != nil && c == vnet.Conns[0], "the socket is not returned")
		sym.Assert(n == want && len(vnet.Conns) == 1, "it goes on after success")
	}
	sym.Reach("end")
}

// Unset, single-port and empty ranges.
func HSpecial() {
	var end error
	if sym.Bool("fail") {
		end = errPerm
	}
	answers(sym.Choose("used", 2), end)
	switch sym.Choose("kind", 4) {
	case 0: // unset: the system chooses
		c, err := listen(-sym.Range("a", 0, 5), -sym.Range("b", 0, 5))
		sym.Assert(len(vnet.Attempts) == 1 && vnet.Attempts[0].Port == 0, "an unset range does not let the system choose once")
		sym.Assert((err == nil) == (c != nil), "neither socket nor error, or both")
		sym.Reach("unset")
	case 1:
		p := sym.Range("port", 1, 0xFFFF)
		c, err := listen(p, p)
		sym.Assert(len(vnet.Attempts) == 1 && vnet.Attempts[0].Port == p, "a single-port range does not try exactly that port")
		sym.Assert((err == nil) == (c != nil), "neither socket nor error, or both")
		sym.Reach("single")
	case 2: // empty
		hi := sym.Range("hi", 1, 0xFFFF)
		lo := sym.Range("lo", 2, 0x20000)
		sym.Assume(lo > hi)
		c, err := listen(lo, hi)
		sym.Assert(err != nil && c == nil && len(vnet.Attempts) == 0, "an empty range is tried")
		sym.Reach("empty")
	case 3: // beyond the last port
		lo := sym.Range("lo", 0x10000, 0x20000)
		c, err := listen(lo, lo+1)
		sym.Assert(err != nil && c == nil && len(vnet.Attempts) == 0, "a range beyond the last port is tried")
		sym.Reach("beyond")
	}
}

// The variant with a configuration tries the same ports on the same address.
func HConfig() {
	vrand.Small = 8
	ips := []netip.Addr{netip.AddrFrom4([4]byte{10, 0, 0, 200}), netip.IPv6Loopback(), netip.IPv6Unspecified(), netip.MustParseAddr("fe80::1:2")}
	ip := ips[sym.Choose("ip", len(ips))]
	lo := []int{1, 9998, 65533}[sym.Choose("lo", 3)]
	used := sym.Choose("used", 4)
	var end error
	if sym.Choose("fail", 2) == 1 {
		end = errPerm
	}
	answers(used, end)
	c, err := rtp.ListenUDPPortRangeWithConfig(lo, lo+2, ip, &vnet.ListenConfig{})
	for i, a := range vnet.Attempts {
		sym.Assert(a.IP == ip, "another address is used")
		sym.Assert(a.Port >= lo && a.Port <= lo+2, "a port outside the range is tried")
		for _, b := range vnet.Attempts[:i] {
			sym.Assert(a.Port != b.Port, "a port is tried twice")
		}
	}
	want := used + 1
	if used == 3 {
		want = 3
	}
	sym.Assert(len(vnet.Attempts) == want, "wrong number of attempts")
	switch {
	case used == 3:
		sym.Assert(errors.Is(err, rtp.ErrListenFailed) && c == nil, "an exhausted range is no error")
	case end != nil:
		sym.Assert(errors.Is(err, errPerm) && c == nil, "another error is not returned")
	default:
		sym.Assert(err == nil && c == vnet.Conns[0], "the socket is not returned")
	}
	sym.Reach("end")
}

// HWide: every port of a wide range is tried once before giving up.
func HWide() {
	n := []int{2000, sym.Bound(5000, 0xFFFF)}[sym.Choose("width", 2)]
	lo := 1
	if sym.Choose("high", 2) == 1 {
		lo = 0x10000 - n
	}
	vrand.At = func(m int64) int64 {
		return []int64{0, m / 2, m - 1}[sym.Choose("start", 3)]
	}
	used := n - sym.Choose("free", 2)
	answers(used, nil)
	c, err := listen(lo, lo+n-1)
	seen := make([]bool, 0x10000)
	for _, a := range vnet.Attempts {
		sym.Assert(a.Port >= lo && a.Port < lo+n, "a port outside the range is tried")
		sym.Assert(!seen[a.Port], "a port is tried twice")
		seen[a.Port] = true
	}
	sym.Assert(len(vnet.Attempts) == n, "it ends before every port was tried")
	if used == n {
		sym.Assert(errors.Is(err, rtp.ErrListenFailed), "an exhausted range gives another error")
	} else {
		sym.Assert(err == nil && c != nil && c == vnet.Conns[0] && len(vnet.Conns) == 1, "the socket is not returned")
	}
	sym.Reach("end")
}
