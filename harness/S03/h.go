package main

import (
	"encoding/base64"
	"net/netip"
	"strconv"
	"strings"

	psdp "github.com/pion/sdp/v3"

	_ "github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/media-sdk/zzverif/sym"
	"github.com/livekit/media-sdk/zzverif/vcrand"
	"github.com/livekit/media-sdk/zzverif/vsrtp"
)

var ipA, ipB = netip.MustParseAddr("10.0.0.1"), netip.MustParseAddr("10.0.0.2")

var suites = []string{"AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32"}

func keyLen(s string) int {
	if strings.HasPrefix(s, "AES_256") {
		return 32
	}
	return 16
}

// mki is the key identifier that options set.
func mki(o []srtp.ContextOption) string {
	var c vsrtp.Context
	for _, f := range o {
		sym.Assert(f(&c) == nil, "an option failed")
	}
	return string(c.MKI)
}

// mirrored checks the two ends of a session.
func mirrored(a, b *srtp.Config) {
	sym.Assert(a != nil && b != nil, "no keys were negotiated")
	sym.Assert(a.Profile == b.Profile, "the ends use different profiles")
	x, y := a.Keys, b.Keys
	sym.Assert(string(x.LocalMasterKey) == string(y.RemoteMasterKey) && string(x.RemoteMasterKey) == string(y.LocalMasterKey), "the keys of the ends are not mirrored")
	sym.Assert(string(x.LocalMasterSalt) == string(y.RemoteMasterSalt) && string(x.RemoteMasterSalt) == string(y.LocalMasterSalt), "the salts of the ends are not mirrored")
	sym.Assert(mki(a.LocalOptions) == mki(b.RemoteOptions) && mki(a.RemoteOptions) == mki(b.LocalOptions), "the key identifiers of the ends are not mirrored")
}

// line is a crypto attribute in its parts.
type line struct {
	tag, suite string
	key        string // key and salt
	rest       string
}

func lines(m *psdp.MediaDescription) (out []line) {
	for _, a := range m.Attributes {
		if a.Key != "crypto" {
			continue
		}
		f := strings.Split(a.Value, " ")
		sym.Assert(len(f) == 3 && strings.HasPrefix(f[2], "inline:"), "a crypto attribute is malformed")
		k, rest, _ := strings.Cut(f[2][len("inline:"):], "|")
		b, err := base64.RawStdEncoding.DecodeString(strings.TrimRight(k, "="))
		sym.Assert(err == nil, "a key is not base64")
		out = append(out, line{f[0], f[1], string(b), rest})
	}
	return out
}

func suiteOf(c *srtp.Config) string {
	for _, s := range suites {
		if p, err := srtp.ProtectionProfile(s).Parse(); err == nil && p == c.Profile {
			return s
		}
	}
	sym.Fail("an unknown profile was negotiated")
	return ""
}

// used checks that a session sends with the local line and receives with the remote one.
func used(c *srtp.Config, local, remote line) {
	s := suiteOf(c)
	n := keyLen(s)
	sym.Assert(local.suite == s && remote.suite == s, "the profile is not the one described")
	sym.Assert(len(local.key) == n+14 && len(remote.key) == n+14, "a key or salt does not have the length of its cipher")
	k := c.Keys
	sym.Assert(string(k.LocalMasterKey) == local.key[:n] && string(k.LocalMasterSalt) == local.key[n:], "the sending key is not the one described")
	sym.Assert(string(k.RemoteMasterKey) == remote.key[:n] && string(k.RemoteMasterSalt) == remote.key[n:], "the receiving key is not the one described")
}

func find(ls []line, tag string) line {
	for _, l := range ls {
		if l.tag == tag {
			return l
		}
	}
	sym.Fail("the answer does not echo a tag of the offer")
	return line{}
}

// HBoth: our own answers to our own offers.
func HBoth() {
	enc := []sdp.Encryption{sdp.EncryptionAllow, sdp.EncryptionRequire}[sym.Choose("enc", 2)]
	direct := sym.Choose("direct", 2) == 1
	o, err := sdp.NewOffer(ipA, 5004, enc)
	sym.Assert(err == nil, "offering failed")
	p := o
	if !direct {
		text, err := o.SDP.Marshal()
		sym.Assert(err == nil, "the offer has no text")
		p, err = sdp.ParseOffer(text)
		sym.Assert(err == nil, "the offer is not understood")
	}
	a, cb, err := p.Answer(ipB, 6000, enc)
	sym.Assert(err == nil, "answering failed")
	b := a
	if !direct {
		text, err := a.SDP.Marshal()
		sym.Assert(err == nil, "the answer has no text")
		b, err = sdp.ParseAnswer(text)
		sym.Assert(err == nil, "the answer is not understood")
	}
	ca, err := b.Apply(o, enc)
	sym.Assert(err == nil, "the answer is not accepted")
	mirrored(ca.Crypto, cb.Crypto)
	lo, la := lines(o.SDP.MediaDescriptions[0]), lines(a.SDP.MediaDescriptions[0])
	sym.Assert(len(la) == 1, "the answer does not have one crypto attribute")
	l := find(lo, la[0].tag)
	used(ca.Crypto, l, la[0])
	sym.Reach("end")
}

// HFresh: the key material of two offers consists of distinct random bytes.
func HFresh() {
	x, y := sym.U8("x"), sym.U8("y")
	var all [2][]byte
	for run := 0; run < 2; run++ {
		n := 0
		vcrand.Next = func() byte {
			i := n
			n++
			if run == 0 {
				return byte(i) ^ x
			}
			return byte(i>>8) ^ y
		}
		for k := 0; k < 2; k++ {
			ps, err := srtp.DefaultProfiles()
			sym.Assert(err == nil, "no profiles")
			seen := map[int]bool{}
			for _, p := range ps {
				sym.Assert(!seen[p.Index] && p.Index > 0, "a tag is used twice")
				seen[p.Index] = true
				sym.Assert(len(p.Key) == keyLen(string(p.Profile)) && len(p.Salt) == 14, "a key or salt does not have the length of its cipher")
				all[run] = append(append(all[run], p.Key...), p.Salt...)
			}
		}
	}
	sym.Assert(len(all[0]) == len(all[1]), "the key material depends on the random numbers")
	used := map[int]bool{}
	for i := range all[0] {
		c := int(all[0][i]^x) | int(all[1][i]^y)<<8
		sym.Assert(!used[c], "key material is not fresh and random")
		used[c] = true
	}
	sym.Reach("end")
}

// entries describes any crypto attributes of a peer.
func entries(n int) (ls []line, ids []string, text string) {
	for i := 0; i < n; i++ {
		s := suites[sym.Choose("suite", 4)]
		l := line{tag: strconv.Itoa([]int{4, 1, 77}[i]), suite: s, key: string(sym.Bytes("key", keyLen(s)+14))}
		id := ""
		switch sym.Choose("mki", 4) {
		case 1:
			id = string([]byte{0, byte(i + 3)})
			l.rest = "|2^20|" + strconv.Itoa(i+3) + ":2"
		case 2:
			id = "\xff\xff\xff\xff\xff\xff\xff" + string([]byte{byte(0xff - i)})
			l.rest = "||" + strconv.FormatUint(1<<64-1-uint64(i), 10) + ":8"
		case 3:
			l.rest = "|1000"
		}
		ls, ids = append(ls, l), append(ids, id)
		text += "a=crypto:" + l.tag + " " + s + " inline:" + base64.StdEncoding.EncodeToString([]byte(l.key)) + l.rest + "\r\n"
	}
	return
}

const head = "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\nm=audio 4000 RTP/SAVP 0\r\n"

// HPeerOffer: a peer's offer; the peer side is played by our own code.
func HPeerOffer() {
	ls, ids, text := entries(1 + sym.Choose("entries", sym.Bound(2, 3)))
	o, err := sdp.ParseOffer([]byte(head + text))
	sym.Assert(err == nil, "the offer is not understood")
	a, cb, err := o.Answer(ipB, 6000, sdp.EncryptionRequire)
	sym.Assert(err == nil, "answering failed")
	la := lines(a.SDP.MediaDescriptions[0])
	sym.Assert(len(la) == 1, "the answer does not have one crypto attribute")
	l := find(ls, la[0].tag)
	used(cb.Crypto, la[0], l)
	for i := range ls {
		if ls[i].tag == l.tag {
			sym.Assert(mki(cb.Crypto.RemoteOptions) == ids[i], "the peer's key identifier is not used for receiving")
		}
	}
	t, err := a.SDP.Marshal()
	sym.Assert(err == nil, "the answer has no text")
	b, err := sdp.ParseAnswer(t)
	sym.Assert(err == nil, "the answer is not understood")
	ca, err := b.Apply(o, sdp.EncryptionRequire)
	sym.Assert(err == nil, "the answer is not accepted")
	mirrored(ca.Crypto, cb.Crypto)
	sym.Reach("end")
}

// HPeerAnswer: a peer's answer to our offer.
func HPeerAnswer() {
	o, err := sdp.NewOffer(ipA, 5004, sdp.EncryptionAllow)
	sym.Assert(err == nil, "offering failed")
	lo := lines(o.SDP.MediaDescriptions[0])
	ls, ids, text := entries(1)
	a, err := sdp.ParseAnswer([]byte(head + text))
	sym.Assert(err == nil, "the answer is not understood")
	c, err := a.Apply(o, sdp.EncryptionAllow)
	sym.Assert(err == nil && c.Crypto != nil, "the answer is not accepted")
	var mine line
	for _, l := range lo {
		if l.suite == ls[0].suite {
			mine = l
		}
	}
	used(c.Crypto, mine, ls[0])
	sym.Assert(mki(c.Crypto.RemoteOptions) == ids[0], "the peer's key identifier is not used for receiving")
	sym.Assert(mki(c.Crypto.LocalOptions) == "", "a key identifier is sent that was not offered")
	sym.Reach("end")
}
