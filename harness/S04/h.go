package main

import (
	"encoding/base64"
	"strconv"

	psdp "github.com/pion/sdp/v3"

	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

type suite struct {
	name      string
	key, salt int
}

var suites = []suite{
	{"AES_CM_128_HMAC_SHA1_80", 16, 14},
	{"AES_CM_128_HMAC_SHA1_32", 16, 14},
	{"AES_256_CM_HMAC_SHA1_80", 32, 14},
	{"AES_256_CM_HMAC_SHA1_32", 32, 14},
	{"AEAD_AES_128_GCM", 0, 0},
}

const goodKey = "MTIzNDU2Nzg5MDEyMzQ1Njc4OTAxMjM0NTY3ODkw" // 30 bytes 1234567890...

func parse(val string) ([]srtp.Profile, error) {
	d := &psdp.MediaDescription{MediaName: psdp.MediaName{Media: "audio"}, Attributes: []psdp.Attribute{{Key: "crypto", Value: val}}}
	m, err := sdp.ParseMedia(d)
	if err != nil {
		sym.Assert(m == nil, "an error came with a result")
		return nil, err
	}
	sym.Assert(len(m.CryptoProfiles) <= 1, "one attribute gave several profiles")
	return m.CryptoProfiles, nil
}

// HKey: key material of any length and content.
func HKey() {
	s := suites[sym.Choose("suite", len(suites))]
	n := []int{0, 1, 15, 16, 17, 29, 30, 31, 32, 33, 44, 45, 46, 48}[sym.Choose("len", 14)]
	if sym.Bound(0, 1) == 1 {
		n = sym.Choose("len", 51)
	}
	raw := sym.Bytes("key", n)
	enc := base64.RawStdEncoding
	if sym.Choose("padded", 2) == 1 {
		enc = base64.StdEncoding
	}
	ps, err := parse("7 " + s.name + " inline:" + enc.EncodeToString(raw))
	if s.key == 0 {
		if err == nil && len(ps) == 1 {
			sym.Assert(string(ps[0].Key)+string(ps[0].Salt) == string(raw), "the key material of an unknown suite was changed")
		}
		sym.Reach("unknown")
		return
	}
	if n < s.key {
		sym.Assert(err != nil || len(ps) == 0, "a profile with a short key was accepted")
		sym.Reach("short")
		return
	}
	if n == s.key+s.salt {
		sym.Assert(err == nil && len(ps) == 1, "a well-formed key was rejected")
	}
	if err == nil && len(ps) == 1 {
		p := ps[0]
		sym.Assert(p.Index == 7 && string(p.Profile) == s.name, "the tag or suite was changed")
		sym.Assert(string(p.Key) == string(raw[:s.key]), "the key is not the first part of the key material")
		sym.Assert(string(p.Salt) == string(raw[s.key:]), "the salt is not the rest of the key material")
		sym.Assert(len(p.MKI) == 0 && p.Lifetime == 0, "a key identifier or lifetime appeared")
	}
	sym.Reach("full")
}

func text(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 128)
	}
	return string(b)
}

func space(c byte) bool { return c == ' ' || ('\t' <= c && c <= '\r') }

// number is the value of a decimal number without sign.
func number(s string) (v uint64, ok bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		if v > (1<<64-1-uint64(s[i]-'0'))/10 {
			return 0, false
		}
		v = v*10 + uint64(s[i]-'0')
	}
	return v, true
}

// plain has no character with a meaning around the field.
func plain(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(!space(s[i]) && s[i] != '|' && s[i] != ':' && s[i] != '+' && s[i] != ';')
	}
}

func lifetime(txt string, want uint64, ok bool) {
	ps, err := parse("1 AES_CM_128_HMAC_SHA1_80 inline:" + goodKey + "|" + txt)
	if ok {
		sym.Assert(err == nil && len(ps) == 1, "a valid lifetime was rejected")
		sym.Assert(ps[0].Lifetime == want, "the lifetime is not the one written")
		sym.Assert(len(ps[0].MKI) == 0, "a key identifier appeared")
		sym.Reach("valid")
	} else {
		sym.Assert(err != nil || len(ps) == 0, "an invalid lifetime was accepted")
		sym.Reach("invalid")
	}
}

// HLifetime: decimals.
func HLifetime() {
	var txt string
	switch k := sym.Choose("form", 4); k {
	case 0:
		txt = text("decimal", 1+sym.Choose("len", sym.Bound(3, 4)))
		plain(txt)
		sym.Assume(len(txt) < 2 || txt[0] != '2' || txt[1] != '^')
	default:
		txt = []string{"9223372036854775", "184467440737095516", "99999999999999999"}[k-1] + text("rest", 2)
		plain(txt)
	}
	v, ok := number(txt)
	lifetime(txt, v, ok && v > 0)
}

// HPower: powers of two.
func HPower() {
	txt := text("exponent", sym.Choose("len", 4))
	plain(txt)
	e, ok := number(txt)
	var v uint64
	if ok && e < 64 {
		v = 1
		for i := uint64(0); i < e; i++ {
			v *= 2
		}
	}
	lifetime("2^"+txt, v, ok && e < 64)
}

func mki(life, val, length string) {
	l, lok := number(length)
	v, ok := number(val)
	ok = ok && lok && l >= 1 && l <= 8
	if ok && l < 8 {
		limit := uint64(1)
		for i := uint64(0); i < l; i++ {
			limit *= 256
		}
		ok = v < limit
	}
	ps, err := parse("1 AES_CM_128_HMAC_SHA1_80 inline:" + goodKey + life + "|" + val + ":" + length)
	if !ok {
		sym.Assert(err != nil || len(ps) == 0, "an invalid key identifier was accepted")
		sym.Reach("invalid")
		return
	}
	sym.Assert(err == nil && len(ps) == 1, "a valid key identifier was rejected")
	m := ps[0].MKI
	sym.Assert(len(m) == int(l), "the key identifier does not have the length written")
	got := uint64(0)
	for _, b := range m {
		got = got<<8 | uint64(b)
	}
	sym.Assert(got == v, "the key identifier is not the value written, big-endian")
	want := uint64(0)
	if len(life) > 1 {
		want = 1 << 20
	}
	sym.Assert(ps[0].Lifetime == want, "the lifetime is not the one written")
	sym.Reach("valid")
}

var lifes = []string{"|2^20", "|", "", "|1048576"}

// HMKI: short key identifiers.
func HMKI() {
	val := text("value", 1+sym.Choose("vlen", 3))
	plain(val)
	length := text("length", 1+sym.Choose("llen", 2))
	plain(length)
	mki(lifes[sym.Choose("life", sym.Bound(1, 2))], val, length)
}

// HMKILimits: values around the limits of every length, with any last digits.
func HMKILimits() {
	// 256^n without the last two digits
	pre := []string{"2", "655", "167772", "42949672", "10995116277", "2814749767106", "720575940379279", "184467440737095516"}
	n := sym.Choose("n", 8)
	d := []byte{byte('0' + sym.Range("d1", 0, 9)), byte('0' + sym.Range("d2", 0, 9))}
	l := sym.Range("length", 1, 9)
	mki(lifes[sym.Choose("life", len(lifes))], pre[n]+string(d), string([]byte{byte('0' + l)}))
}

// HTag: the tag.
func HTag() {
	tag := text("tag", 1+sym.Choose("len", 3))
	plain(tag)
	sym.Assume(tag[0] != '-')
	v, ok := number(tag)
	ps, err := parse(tag + " AES_CM_128_HMAC_SHA1_80 inline:" + goodKey)
	if ok {
		sym.Assert(err == nil && len(ps) == 1, "a well-formed attribute was rejected")
		sym.Assert(ps[0].Index == int(v), "the tag is not the one written")
		sym.Assert(string(ps[0].Key)+string(ps[0].Salt) == "123456789012345678901234567890", "the key is not the one written")
		sym.Reach("valid")
	} else {
		sym.Assert(err != nil || len(ps) == 0, "an attribute without a tag was accepted")
	}
}

// HAny: arbitrary texts: nothing is accepted that is not an attribute, nothing crashes.
func HAny() {
	s := text("any", sym.Choose("len", sym.Bound(5, 6)))
	switch sym.Choose("where", 5) {
	case 0:
		ps, err := parse(s)
		sym.Assert(err != nil || len(ps) == 0, "a text was taken for a crypto attribute")
	case 1:
		parse("1 AES_CM_128_HMAC_SHA1_80 inline:" + s)
	case 2:
		parse("1 AES_CM_128_HMAC_SHA1_80 inline:" + goodKey + s)
	case 3:
		parse("1 AES_CM_128_HMAC_SHA1_80 " + s)
	case 4:
		ps, err := parse("1 " + s + " inline:" + goodKey)
		if err == nil && len(ps) == 1 {
			sym.Assert(string(ps[0].Key)+string(ps[0].Salt) == "123456789012345678901234567890", "the key is not the one written")
		}
	}
	sym.Reach("end")
}

// HShapes: missing fields and other key methods do not yield profiles; good ones after bad ones count.
func HShapes() {
	bad := []string{"", " ", "1", "1 ", "1 AES_CM_128_HMAC_SHA1_80", "1 AES_CM_128_HMAC_SHA1_80 ", "1 AES_CM_128_HMAC_SHA1_80 uri:" + goodKey, "1 AES_CM_128_HMAC_SHA1_80 INLINE"}[sym.Choose("bad", 8)]
	pad := []string{"", " ", "\t"}[sym.Choose("pad", 3)]
	d := &psdp.MediaDescription{MediaName: psdp.MediaName{Media: "audio"}, Attributes: []psdp.Attribute{
		{Key: "crypto", Value: pad + "3 AES_256_CM_HMAC_SHA1_80 inline:" + goodKey + "MTIzNDU2Nzg5MDEyMzQ1Ng==" + pad},
		{Key: "crypto", Value: bad},
		{Key: "crypto", Value: "9 AES_CM_128_HMAC_SHA1_32 inline:" + goodKey + "|2^31|513:3"},
	}}
	m, err := sdp.ParseMedia(d)
	if err == nil {
		sym.Assert(len(m.CryptoProfiles) == 2, "a malformed attribute gave a profile or a good one was lost")
		a, b := m.CryptoProfiles[0], m.CryptoProfiles[1]
		sym.Assert(a.Index == 3 && a.Profile == "AES_256_CM_HMAC_SHA1_80" && len(a.Key) == 32 && len(a.Salt) == 14, "the first profile is not the one written")
		sym.Assert(b.Index == 9 && b.Profile == "AES_CM_128_HMAC_SHA1_32" && len(b.Key) == 16 && len(b.Salt) == 14 && b.Lifetime == 1<<31 && string(b.MKI) == "\x00\x02\x01", "the last profile is not the one written")
		sym.Reach("end")
	}
}

// HMany: all attributes of a long list count, in order.
func HMany() {
	d := &psdp.MediaDescription{MediaName: psdp.MediaName{Media: "audio"}}
	n := sym.Bound(24, 60)
	var want []int
	k := sym.Bytes("key", 30)
	key := base64.StdEncoding.EncodeToString(k)
	for i := 1; i <= n; i++ {
		s := suites[i%2]
		v := strconv.Itoa(i*i) + " " + s.name + " inline:" + key
		switch i % 6 {
		case 1:
			v += "|2^" + strconv.Itoa(i)
		case 3:
			v = strconv.Itoa(i*i) + " " + s.name + " uri:x" // another key method
		case 4:
			v += "||" + strconv.Itoa(i) + ":2"
		}
		if i%6 != 3 {
			want = append(want, i)
		}
		d.Attributes = append(d.Attributes, psdp.Attribute{Key: "crypto", Value: v}, psdp.Attribute{Key: "fmtp", Value: "101 0-16"})
	}
	m, err := sdp.ParseMedia(d)
	sym.Assert(err == nil, "well-formed attributes were rejected")
	sym.Assert(len(m.CryptoProfiles) == len(want), "an attribute of a long list is missing")
	for j, i := range want {
		p := m.CryptoProfiles[j]
		sym.Assert(p.Index == i*i && string(p.Profile) == suites[i%2].name && string(p.Key) == string(k[:16]) && string(p.Salt) == string(k[16:]), "a profile is not the one written")
		life, mki := uint64(0), ""
		if i%6 == 1 {
			life = 1 << i
		}
		if i%6 == 4 {
			mki = string([]byte{0, byte(i)})
		}
		sym.Assert((i%6 != 1 || uint64(p.Lifetime) == life) && string(p.MKI) == mki, "the lifetime or key identifier is not the one written")
	}
	sym.Reach("end")
}
