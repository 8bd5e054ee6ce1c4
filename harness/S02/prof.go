package main

import "github.com/livekit/media-sdk/srtp"

func sdpProfile(s string) (int, error) {
	p, err := srtp.ProtectionProfile(s).Parse()
	return int(p), err
}
