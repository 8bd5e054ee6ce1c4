package main

import (
	"net/netip"
	"strconv"

	psdp "github.com/pion/sdp/v3"

	"github.com/livekit/media-sdk"
	_ "github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

const event = "telephone-event/8000"

// choose enables any subset of the registered codecs and returns it.
func choose() []media.CodecInfo {
	var on []media.CodecInfo
	for _, c := range media.Codecs() {
		i := c.Info()
		e := sym.Bool("enabled " + i.SDPName)
		media.CodecSetEnabled(i.SDPName, e)
		if e {
			on = append(on, i)
		}
	}
	return on
}

func register(name string, static bool, typ byte, prio int) {
	media.RegisterCodec(rtp.NewAudioCodec(media.CodecInfo{SDPName: name, SampleRate: 16000, RTPIsStatic: static, RTPDefType: typ, Priority: prio}, g711.DecodeULaw, g711.EncodeULaw))
}

// codecs checks the codecs offered against the enabled ones.
func codecs(got []sdp.CodecInfo, on []media.CodecInfo) {
	sym.Assert(len(got) == len(on), "the codecs offered are not the enabled ones")
	for i, c := range got {
		info := c.Codec.Info()
		var found int
		for _, o := range on {
			if o.SDPName == info.SDPName {
				found++
			}
		}
		sym.Assert(found == 1, "a codec that is not enabled was offered")
		if info.RTPIsStatic {
			sym.Assert(c.Type == info.RTPDefType, "a static codec was offered with another payload type")
		} else {
			sym.Assert(c.Type >= 101, "dynamic payload types do not start at 101")
		}
		for j := 0; j < i; j++ {
			sym.Assert(got[j].Codec.Info().SDPName != info.SDPName, "a codec was offered twice")
			sym.Assert(got[j].Type != c.Type, "a payload type was offered twice")
		}
		if i > 0 {
			p := got[i-1].Codec.Info()
			sym.Assert(p.RTPIsStatic || !info.RTPIsStatic, "a dynamic codec precedes a static one")
			if p.RTPIsStatic == info.RTPIsStatic {
				sym.Assert(p.Priority >= info.Priority, "the codecs are not ordered by priority")
			}
		}
	}
}

func attrs(d *psdp.MediaDescription, key string) (out []string) {
	for _, a := range d.Attributes {
		if a.Key == key {
			out = append(out, a.Value)
		}
	}
	return out
}

// desc checks the media section against the codecs offered.
func desc(m *psdp.MediaDescription, d sdp.MediaDesc, enc sdp.Encryption, port int) {
	sym.Assert(m.MediaName.Media == "audio" && m.MediaName.Port.Value == port && m.MediaName.Port.Range == nil, "the section is not audio at the requested port")
	proto := "AVP"
	if enc != sdp.EncryptionNone {
		proto = "SAVP"
	}
	sym.Assert(len(m.MediaName.Protos) == 2 && m.MediaName.Protos[0] == "RTP" && m.MediaName.Protos[1] == proto, "the transport does not match the encryption")
	maps, fmtp := attrs(m, "rtpmap"), attrs(m, "fmtp")
	sym.Assert(len(m.MediaName.Formats) == len(d.Codecs) && len(maps) == len(d.Codecs), "the payload types listed are not the codecs offered")
	dtmf := byte(0)
	for i, c := range d.Codecs {
		t := strconv.Itoa(int(c.Type))
		sym.Assert(m.MediaName.Formats[i] == t, "the payload types listed are not the codecs offered")
		sym.Assert(maps[i] == t+" "+c.Codec.Info().SDPName, "a payload type has a wrong mapping")
		if c.Codec.Info().SDPName == event {
			dtmf = c.Type
		}
	}
	sym.Assert(d.DTMFType == dtmf, "the type of telephone events is not the one offered")
	if dtmf != 0 {
		sym.Assert(len(fmtp) == 1 && fmtp[0] == strconv.Itoa(int(dtmf))+" 0-16", "telephone events are not described")
	} else {
		sym.Assert(len(fmtp) == 0, "telephone events are described but not offered")
	}
	n := 0
	if enc != sdp.EncryptionNone {
		n = 4
	}
	sym.Assert(len(attrs(m, "crypto")) == n && len(d.CryptoProfiles) == n, "the crypto attributes do not match the encryption")
	sym.Assert(len(attrs(m, "sendrecv")) == 1 && len(attrs(m, "ptime")) == 1 && attrs(m, "ptime")[0] == "20", "direction or packet time are missing")
}

func mode() sdp.Encryption {
	return []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionAllow, sdp.EncryptionRequire}[sym.Choose("enc", 3)]
}

// HMedia: the media section of an offer.
func HMedia() {
	register("A/16000", false, sym.U8("type"), 5)
	register("B/48000/2", false, sym.U8("type"), -200)
	on := choose()
	codecs(sdp.OfferCodecs(), on)
	enc := mode()
	port := int(sym.U16("port"))
	d, m, err := sdp.OfferMedia(port, enc)
	sym.Assert(err == nil, "offering failed")
	codecs(d.Codecs, on)
	desc(m, d, enc, port)
	sym.Reach("end")
}

// HOffer: whole offers, also as text.
func HOffer() {
	register("A/16000", false, 0, 5)
	on := choose()
	enc := mode()
	a := []string{"10.1.2.3", "2001:db8::5", "255.255.255.255"}[sym.Choose("addr", 3)]
	addr := netip.MustParseAddr(a)
	text := sym.Choose("text", 2) == 1
	port := int(sym.U16("port"))
	if text {
		port = []int{5004, 1, 65535}[sym.Choose("port", 3)]
	}
	o, err := sdp.NewOffer(addr, port, enc)
	sym.Assert(err == nil, "offering failed")
	sym.Assert(o.Addr.Addr() == addr && int(o.Addr.Port()) == port, "the address of the offer is not the requested one")
	codecs(o.Codecs, on)
	s := &o.SDP
	sym.Assert(len(s.MediaDescriptions) == 1, "the offer does not have one section")
	desc(s.MediaDescriptions[0], o.MediaDesc, enc, port)
	sym.Assert(s.Origin.NetworkType == "IN" && s.Origin.UnicastAddress == a, "the origin is not the requested address")
	c := s.ConnectionInformation
	sym.Assert(c != nil && c.NetworkType == "IN" && c.Address.Address == a, "the connection line is not the requested address")
	if text {
		data, err := s.Marshal()
		sym.Assert(err == nil, "the offer has no text")
		p, err := sdp.ParseOffer(data)
		sym.Assert(err == nil, "the text of the offer is not accepted")
		sym.Assert(p.Addr == o.Addr, "the text of the offer has another address")
		desc(p.SDP.MediaDescriptions[0], o.MediaDesc, enc, port)
	}
	sym.Reach("end")
}

// HOrder: any codecs with any priorities.
func HOrder() {
	for _, c := range media.Codecs() {
		media.CodecSetEnabled(c.Info().SDPName, false)
	}
	media.CodecSetEnabled(event, true)
	on := []media.CodecInfo{}
	for _, c := range media.EnabledCodecs() {
		on = append(on, c.Info())
	}
	n := sym.Bound(3, 4)
	for i := 0; i < n; i++ {
		name := []string{"A/8000", "B/8000", "C/8000", "D/8000"}[i]
		register(name, sym.Bool("static"), byte(20+i), int(sym.I16("priority")))
		on = append(on, media.Codecs()[len(media.Codecs())-1].Info())
	}
	codecs(sdp.OfferCodecs(), on)
	sym.Reach("end")
}

// HMany: more codecs than usual, any of them disabled.
func HMany() {
	for _, c := range media.Codecs() {
		media.CodecSetEnabled(c.Info().SDPName, true)
	}
	n := sym.Bound(20, 40)
	kind := sym.Choose("kind", 3)
	off := sym.Choose("off", n)
	enc := mode()
	for i := 0; i < n; i++ {
		name := "M" + string(rune('A'+i/26)) + string(rune('a'+i%26)) + "/16000"
		// the static types in use by other codecs are 0, 8 and 9
		register(name, kind == 0 || kind == 1 && i%3 == 0, byte(20+i), i*7%11-5)
		if i == off {
			media.CodecSetEnabled(name, false)
		}
	}
	on := []media.CodecInfo{}
	for _, c := range media.EnabledCodecs() {
		on = append(on, c.Info())
	}
	codecs(sdp.OfferCodecs(), on)
	d, m, err := sdp.OfferMedia(5004, enc)
	sym.Assert(err == nil, "offering failed")
	codecs(d.Codecs, on)
	desc(m, d, enc, 5004)
	o, err := sdp.NewOffer(netip.MustParseAddr("10.1.2.3"), 5004, enc)
	sym.Assert(err == nil, "offering failed")
	data, err := o.SDP.Marshal()
	sym.Assert(err == nil, "the offer has no text")
	p, err := sdp.ParseOffer(data)
	sym.Assert(err == nil, "the text of the offer is not accepted")
	desc(p.SDP.MediaDescriptions[0], o.MediaDesc, enc, 5004)
	sym.Reach("end")
}
