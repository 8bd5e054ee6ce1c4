// Package vnet is package net with listening on UDP sockets replaced: each
// attempt is recorded and answered by Answer.
package vnet

import (
	"context"
	"errors"
	"net"
	"net/netip"
	"strconv"
)

type Attempt struct {
	IP   netip.Addr // zero if unspecified
	Port int
}

var (
	Attempts []Attempt
	Answer   func(n int) error
	Conns    []*net.UDPConn
)

func listen(ip netip.Addr, port int) (*net.UDPConn, error) {
	Attempts = append(Attempts, Attempt{ip, port})
	if err := Answer(len(Attempts) - 1); err != nil {
		return nil, err
	}
	c := new(net.UDPConn)
	Conns = append(Conns, c)
	return c, nil
}

func ListenUDP(network string, a *net.UDPAddr) (*net.UDPConn, error) {
	if network != "udp" && network != "udp4" && network != "udp6" {
		return nil, errors.New("unknown network")
	}
	if a == nil {
		return listen(netip.Addr{}, 0)
	}
	ip, _ := netip.AddrFromSlice(a.IP)
	return listen(ip, a.Port)
}

type ListenConfig net.ListenConfig

func (*ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	if network != "udp" && network != "udp4" && network != "udp6" {
		return nil, errors.New("unknown network")
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	var ip netip.Addr
	if host != "" {
		if ip, err = netip.ParseAddr(host); err != nil {
			return nil, err
		}
	}
	n, err := strconv.Atoi(port)
	if err != nil {
		return nil, err
	}
	c, err := listen(ip, n)
	if err != nil {
		return nil, err
	}
	return c, nil
}
