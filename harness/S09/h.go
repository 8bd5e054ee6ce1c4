package main

import (
	"net/netip"
	"strconv"
	"strings"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	"github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/srtp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var addrs = []string{"10.1.2.3", "2001:db8::5", "255.255.255.255", "::1", "::ffff:1.2.3.4", "0.0.0.0"}
var names = []string{g711.ULawSDPName, g711.ALawSDPName, g722.SDPName}

func mode() sdp.Encryption {
	return []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionAllow, sdp.EncryptionRequire}[sym.Choose("enc", 3)]
}

// lines checks the text of a description, line by line, against want; an
// attribute line ending in "inline:" stands for any key.
func lines(data []byte, want []string) {
	got := strings.Split(string(data), "\r\n")
	sym.Assert(len(got) == len(want)+1 && got[len(want)] == "", "the text does not have exactly the expected lines")
	for i, w := range want {
		if strings.HasSuffix(w, "inline:") {
			sym.Assert(len(got[i]) > len(w) && got[i][:len(w)] == w, "a key attribute of the text is wrong: "+w)
			continue
		}
		sym.Assert(got[i] == w, "a line of the text is wrong: "+w)
	}
}

func head(a string, id, ver uint64) []string {
	fam := "IP4"
	if strings.Contains(a, ":") {
		fam = "IP6"
	}
	return []string{
		"v=0",
		"o=- " + strconv.FormatUint(id, 10) + " " + strconv.FormatUint(ver, 10) + " IN " + fam + " " + a,
		"s=LiveKit",
		"c=IN " + fam + " " + a,
		"t=0 0",
	}
}

func profiles(n int) (out []srtp.Profile) {
	all, err := srtp.DefaultProfiles()
	sym.Assert(err == nil, "no profiles")
	for i := 0; i < n; i++ {
		p := all[(i+2)%len(all)]
		p.Index = 3 + i
		out = append(out, p)
	}
	return
}

// HFields: the answer to any offer, field by field.
func HFields() {
	a := addrs[sym.Choose("addr", 2)]
	id, port := sym.U64("session"), 1+sym.Range("port", 0, 65534)
	switch sym.Choose("which", 3) {
	case 0:
		answer(false, sym.Choose("codec", len(names)), a, []byte{0, 9, 101}[sym.Choose("typ", 3)], []byte{0, 102}[sym.Choose("dt", 2)], port, id, sym.Choose("crypto", 3), mode())
	case 1:
		answer(false, 2, a, byte(sym.Range("type", 0, 127)), 96, port, id, 1, sdp.EncryptionAllow)
	case 2:
		answer(false, 0, a, 8, byte(sym.Range("dtmf", 0, 127)), port, id, 0, sdp.EncryptionNone)
	}
}

// HText: the text of answers.
func HText() {
	a := addrs[sym.Choose("addr", len(addrs))]
	typ := []byte{0, 9, 101, 127}[sym.Choose("typ", 4)]
	dt := []byte{0, 96, 101}[sym.Choose("dt", 3)]
	if sym.Choose("which", 2) == 1 {
		answer(true, sym.Choose("codec", len(names)), a, typ, dt, 5004, 7, sym.Choose("crypto", 2), sdp.EncryptionAllow)
		return
	}
	port := []int{1, 5004, 65535}[sym.Choose("prt", 3)]
	id := []uint64{7, 1<<64 - 101}[sym.Choose("id", 2)]
	answer(true, 0, a, 101, dt, port, id, 2, mode())
}

func answer(text bool, k int, a string, typ, dt byte, port int, id uint64, crypto int, enc sdp.Encryption) {
	codec, ok := sdp.CodecByName(names[k]).(rtp.AudioCodec)
	sym.Assert(ok, "the codec is not known")
	offer := &sdp.Offer{Addr: netip.MustParseAddrPort("9.8.7.6:4000"), MediaDesc: sdp.MediaDesc{Codecs: []sdp.CodecInfo{{Type: typ, Codec: codec}}, DTMFType: dt}}
	offer.SDP.Origin.SessionID = id
	offer.CryptoProfiles = profiles(crypto)
	keys := len(offer.CryptoProfiles) > 0 && enc != sdp.EncryptionNone
	addr := netip.MustParseAddr(a)
	ans, conf, err := offer.Answer(addr, port, enc)
	if !keys && enc == sdp.EncryptionRequire {
		sym.Assert(err != nil && ans == nil && conf == nil, "an answer without the required encryption")
		return
	}
	sym.Assert(err == nil, "answering fails")
	sym.Assert(ans.Addr == netip.AddrPortFrom(addr, uint16(port)) && conf.Local == ans.Addr, "the answer's address is not the requested one")
	s := &ans.SDP
	o := s.Origin
	sym.Assert(o.SessionID == id && (o.SessionVersion > id || id > 1<<64-100), "the answer does not continue the offer's session")
	fam := "IP4"
	if addr.Is6() {
		fam = "IP6"
	}
	sym.Assert(o.NetworkType == "IN" && o.AddressType == fam && o.UnicastAddress == a, "the origin is not the requested address of its family")
	c := s.ConnectionInformation
	sym.Assert(c != nil && c.NetworkType == "IN" && c.AddressType == fam && c.Address != nil && c.Address.Address == a && c.Address.TTL == nil && c.Address.Range == nil, "the connection line is not the requested address of its family")
	sym.Assert(len(s.TimeDescriptions) == 1 && s.TimeDescriptions[0].Timing.StartTime == 0 && s.TimeDescriptions[0].Timing.StopTime == 0 && len(s.MediaDescriptions) == 1, "not one permanent session of one section")
	m := s.MediaDescriptions[0]
	proto := "AVP"
	if keys {
		proto = "SAVP"
	}
	sym.Assert(m.MediaName.Media == "audio" && m.MediaName.Port.Value == port && m.MediaName.Port.Range == nil, "the section is not audio at the requested port")
	sym.Assert(len(m.MediaName.Protos) == 2 && m.MediaName.Protos[0] == "RTP" && m.MediaName.Protos[1] == proto, "the transport does not match the encryption")
	t, d := strconv.Itoa(int(typ)), strconv.Itoa(int(dt))
	formats := []string{t}
	attrs := []string{"rtpmap:" + t + " " + names[k]}
	if dt != 0 {
		formats = append(formats, d)
		attrs = append(attrs, "rtpmap:"+d+" "+dtmf.SDPName, "fmtp:"+d+" 0-16")
	}
	sym.Assert(len(m.MediaName.Formats) == len(formats), "the section does not list exactly the negotiated payload types")
	for i, f := range formats {
		sym.Assert(m.MediaName.Formats[i] == f, "the section does not list exactly the negotiated payload types")
	}
	if keys {
		p := ans.CryptoProfiles
		sym.Assert(len(p) == 1, "not one profile negotiated")
		attrs = append(attrs, "crypto:"+strconv.Itoa(p[0].Index)+" "+string(p[0].Profile)+" inline:")
	}
	attrs = append(attrs, "ptime:20", "sendrecv")
	sym.Assert(len(m.Attributes) == len(attrs), "not exactly the attributes of what was negotiated")
	for i, w := range attrs {
		got := m.Attributes[i].Key
		if v := m.Attributes[i].Value; v != "" {
			got += ":" + v
		}
		if strings.HasSuffix(w, "inline:") {
			sym.Assert(len(got) > len(w) && got[:len(w)] == w, "a key attribute is wrong")
		} else {
			sym.Assert(got == w, "an attribute is wrong")
		}
	}
	if !text {
		sym.Reach("fields")
		return
	}
	data, err := s.Marshal()
	sym.Assert(err == nil, "the answer has no text")
	want := append(head(a, id, o.SessionVersion), "m=audio "+strconv.Itoa(port)+" RTP/"+proto+" "+strings.Join(formats, " "))
	for _, x := range attrs {
		want = append(want, "a="+x)
	}
	lines(data, want)
	p, err := sdp.ParseAnswer(data)
	sym.Assert(err == nil && p.Addr == ans.Addr, "the answer's text is not accepted at its address")
	sym.Assert(p.DTMFType == ans.DTMFType && len(p.CryptoProfiles) == len(ans.CryptoProfiles), "the answer's text says something else")
	found := 0
	for _, c := range p.Codecs {
		if c.Codec != nil && c.Type == typ && c.Codec.Info().SDPName == names[k] {
			found++
		}
	}
	sym.Assert(found >= 1, "the answer's text does not have the codec")
	sym.Reach("text")
}

// HOffer: the text of offers.
func HOffer() {
	on := 0
	for i, c := range media.Codecs() {
		if i == 4 {
			break
		}
		e := sym.Choose("enabled "+c.Info().SDPName, 2) == 1
		media.CodecSetEnabled(c.Info().SDPName, e)
		if e {
			on++
		}
	}
	sym.Assume(on > 0)
	a := addrs[sym.Choose("addr", len(addrs))]
	port := []int{1, 5004, 65535}[sym.Choose("port", 3)]
	enc := mode()
	o, err := sdp.NewOffer(netip.MustParseAddr(a), port, enc)
	sym.Assert(err == nil, "offering fails")
	data, err := o.SDP.Marshal()
	sym.Assert(err == nil, "the offer has no text")
	proto, formats := "AVP", ""
	var attrs []string
	for _, c := range o.Codecs {
		t := strconv.Itoa(int(c.Type))
		formats += " " + t
		attrs = append(attrs, "rtpmap:"+t+" "+c.Codec.Info().SDPName)
	}
	sym.Assert(len(o.Codecs) == on, "not the enabled codecs are offered")
	if o.DTMFType != 0 {
		attrs = append(attrs, "fmtp:"+strconv.Itoa(int(o.DTMFType))+" 0-16")
	}
	if enc != sdp.EncryptionNone {
		proto = "SAVP"
		for _, p := range o.CryptoProfiles {
			attrs = append(attrs, "crypto:"+strconv.Itoa(p.Index)+" "+string(p.Profile)+" inline:")
		}
	}
	attrs = append(attrs, "ptime:20", "sendrecv")
	id := o.SDP.Origin.SessionID
	sym.Assert(o.SDP.Origin.SessionVersion == id, "a new session does not start at its first version")
	want := append(head(a, id, id), "m=audio "+strconv.Itoa(port)+" RTP/"+proto+formats)
	for _, x := range attrs {
		want = append(want, "a="+x)
	}
	lines(data, want)
	p, err := sdp.ParseOffer(data)
	sym.Assert(err == nil && p.Addr == o.Addr, "the offer's text is not accepted at its address")
	sym.Assert(p.SDP.Origin.SessionID == id && p.DTMFType == o.DTMFType && len(p.CryptoProfiles) == len(o.CryptoProfiles), "the offer's text says something else")
	sym.Reach("end")
}
