package main

import (
	"errors"
	"net/netip"
	"strconv"
	"strings"

	psdp "github.com/pion/sdp/v3"

	_ "github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var ipA, ipB = netip.MustParseAddr("10.0.0.1"), netip.MustParseAddr("10.0.0.2")

func policy(name string) sdp.Encryption {
	return []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionAllow, sdp.EncryptionRequire}[sym.Choose(name, 3)]
}

// suites: the first four are supported.
var suites = []string{"AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32", "AEAD_AES_128_GCM", "F8_128_HMAC_SHA1_80"}

const key30 = "MTIzNDU2Nzg5MDEyMzQ1Njc4OTAxMjM0NTY3ODkw"
const key46 = key30 + "MTIzNDU2Nzg5MDEyMzQ1Ng=="

// peer is a description of another implementation with any crypto profiles.
func peer() (text string, known []string) {
	n := sym.Choose("profiles", sym.Bound(3, 4))
	text = "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\nm=audio 4000 RTP/" + []string{"AVP", "SAVP"}[sym.Choose("proto", 2)] + " 0\r\n"
	for i := 0; i < n; i++ {
		s := sym.Choose("suite", 6)
		k := key30
		if s == 2 || s == 3 {
			k = key46
		}
		text += "a=crypto:" + strconv.Itoa(i+1) + " " + suites[s] + " inline:" + k + "\r\n"
		if s < 4 {
			known = append(known, suites[s])
		}
	}
	if sym.Choose("odd", 2) == 1 {
		text += "a=crypto:9\r\na=crypto:9 " + suites[0] + " uri:x\r\n"
	}
	return text, known
}

func count(m *psdp.MediaDescription) (n int, suite string) {
	for _, a := range m.Attributes {
		if a.Key == "crypto" {
			n++
			suite = strings.Split(a.Value, " ")[1]
		}
	}
	return n, suite
}

// answered checks an answer against what was negotiated.
func answered(a *sdp.Answer, c *sdp.MediaConfig) {
	sym.Assert(len(a.SDP.MediaDescriptions) == 1, "the answer does not have one section")
	m := a.SDP.MediaDescriptions[0]
	n, suite := count(m)
	if c.Crypto == nil {
		sym.Assert(n == 0 && m.MediaName.Protos[1] == "AVP", "the answer describes encryption that was not negotiated")
	} else {
		sym.Assert(n == 1 && m.MediaName.Protos[1] == "SAVP", "the answer does not describe the encryption negotiated")
		sym.Assert(suite == name(c), "the answer describes another profile")
	}
}

func name(c *sdp.MediaConfig) string {
	for _, s := range suites[:4] {
		if p, err := sdpProfile(s); err == nil && p == int(c.Crypto.Profile) {
			return s
		}
	}
	return ""
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// outcome checks a negotiation with a peer that listed the known profiles.
func outcome(enc sdp.Encryption, known []string, c *sdp.MediaConfig, err error) {
	switch enc {
	case sdp.EncryptionNone:
		sym.Assert(err == nil && c.Crypto == nil, "keys were negotiated with encryption disabled")
		sym.Reach("none")
	case sdp.EncryptionAllow:
		sym.Assert(err == nil, "negotiation failed with encryption allowed")
		sym.Assert((c.Crypto != nil) == (len(known) > 0), "keys were not negotiated exactly for a common profile")
		sym.Reach("allow")
	default:
		if len(known) == 0 {
			sym.Assert(errors.Is(err, sdp.ErrNoCommonCrypto), "required encryption was not enforced")
		} else {
			sym.Assert(err == nil && c.Crypto != nil, "no keys were negotiated for a common profile")
		}
		sym.Reach("require")
	}
	if err != nil {
		sym.Assert(c == nil, "a failed negotiation gave a configuration")
	} else if c.Crypto != nil {
		sym.Assert(has(known, name(c)), "a profile was negotiated that the peer did not list")
		k := c.Crypto.Keys
		sym.Assert(len(k.LocalMasterKey) > 0 && len(k.RemoteMasterKey) > 0, "encryption was negotiated without keys")
	}
}

// HAnswer: answering any peer's offer.
func HAnswer() {
	text, known := peer()
	o, err := sdp.ParseOffer([]byte(text))
	sym.Assert(err == nil, "the offer is not understood")
	enc := policy("enc")
	a, c, err := o.Answer(ipA, 5004, enc)
	outcome(enc, known, c, err)
	if err == nil {
		answered(a, c)
	} else {
		sym.Assert(a == nil, "a failed negotiation gave an answer")
	}
}

func offer(enc sdp.Encryption) *sdp.Offer {
	o, err := sdp.NewOffer(ipA, 5004, enc)
	sym.Assert(err == nil, "offering failed")
	m := o.SDP.MediaDescriptions[0]
	n, _ := count(m)
	if enc == sdp.EncryptionNone {
		sym.Assert(n == 0 && m.MediaName.Protos[1] == "AVP" && len(o.CryptoProfiles) == 0, "encryption was offered although it is disabled")
	} else {
		sym.Assert(n > 0 && m.MediaName.Protos[1] == "SAVP" && len(o.CryptoProfiles) == n, "encryption was not offered")
	}
	return o
}

// HApply: applying any peer's answer.
func HApply() {
	eo, enc := policy("offer"), policy("enc")
	o := offer(eo)
	text, known := peer()
	if eo == sdp.EncryptionNone {
		known = nil
	}
	a, err := sdp.ParseAnswer([]byte(text))
	sym.Assert(err == nil, "the answer is not understood")
	c, err := a.Apply(o, enc)
	outcome(enc, known, c, err)
}

// HBoth: our own answers to our own offers.
func HBoth() {
	eo, ea, ep := policy("offer"), policy("answer"), policy("apply")
	direct := sym.Choose("direct", 2) == 1
	o := offer(eo)
	p := o
	if !direct {
		text, err := o.SDP.Marshal()
		sym.Assert(err == nil, "the offer has no text")
		p, err = sdp.ParseOffer(text)
		sym.Assert(err == nil, "the offer is not understood")
	}
	a, cb, err := p.Answer(ipB, 6000, ea)
	known := suites[:4]
	if eo == sdp.EncryptionNone {
		known = nil
	}
	outcome(ea, known, cb, err)
	if err != nil {
		return
	}
	answered(a, cb)
	b := a
	if !direct {
		text, err := a.SDP.Marshal()
		sym.Assert(err == nil, "the answer has no text")
		b, err = sdp.ParseAnswer(text)
		sym.Assert(err == nil, "the answer is not understood")
	}
	ca, err := b.Apply(o, ep)
	known = nil
	if cb.Crypto != nil {
		known = []string{name(cb)}
	}
	outcome(ep, known, ca, err)
	sym.Reach("both")
}

// HLong: a common profile at the end of a long list counts.
func HLong() {
	n := sym.Bound(20, 60)
	at := n - 1 - sym.Choose("before", 3)
	s := sym.Choose("suite", 4)
	text := "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\nm=audio 4000 RTP/SAVP 0\r\n"
	for i := 0; i < n; i++ {
		x, k := suites[4+i%2], key30
		if i == at {
			x = suites[s]
			if s == 2 || s == 3 {
				k = key46
			}
		}
		text += "a=crypto:" + strconv.Itoa(i+1) + " " + x + " inline:" + k + "\r\n"
	}
	enc := policy("enc")
	if sym.Choose("role", 2) == 0 {
		o, err := sdp.ParseOffer([]byte(text))
		sym.Assert(err == nil, "the offer is not understood")
		a, c, err := o.Answer(ipA, 5004, enc)
		outcome(enc, suites[s:s+1], c, err)
		answered(a, c)
		return
	}
	o := offer(sdp.EncryptionRequire)
	a, err := sdp.ParseAnswer([]byte(text))
	sym.Assert(err == nil, "the answer is not understood")
	c, err := a.Apply(o, enc)
	outcome(enc, suites[s:s+1], c, err)
}
