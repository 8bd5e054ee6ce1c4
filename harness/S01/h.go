package main

import (
	"errors"
	"net/netip"
	"strconv"
	"strings"

	"github.com/livekit/media-sdk"
	_ "github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

const event = "telephone-event/8000"

var names = []string{"PCMU/8000", "PCMA/8000", "G722/8000", "DYN/16000", event}

func setup() {
	prio := []int{-50, 50, -7}[sym.Choose("priority", sym.Bound(2, 3))]
	media.RegisterCodec(rtp.NewAudioCodec(media.CodecInfo{SDPName: "DYN/16000", SampleRate: 16000, Priority: prio}, g711.DecodeULaw, g711.EncodeULaw))
}

// subset is a set of enabled codecs.
type subset [5]bool

func choose(name string) (s subset) {
	for i := range s {
		s[i] = sym.Bool(name)
	}
	return s
}

func (s subset) set() {
	for i, n := range names {
		media.CodecSetEnabled(n, s[i])
	}
}

func info(i int) media.CodecInfo {
	for _, c := range media.Codecs() {
		if c.Info().SDPName == names[i] {
			return c.Info()
		}
	}
	panic(names[i])
}

// best is the audio codec of highest priority in both sets, or -1.
func best(a, b subset) int {
	r := -1
	for i := 0; i < 4; i++ {
		if a[i] && b[i] && (r < 0 || info(i).Priority > info(r).Priority) {
			r = i
		}
	}
	return r
}

// HNegotiate: both halves as text, each side with its own enabled codecs.
func HNegotiate() {
	setup()
	a, b := choose("offerer"), choose("answerer")
	enc := []sdp.Encryption{sdp.EncryptionNone, sdp.EncryptionRequire}[sym.Choose("enc", sym.Bound(1, 2))]
	ipA, ipB := netip.MustParseAddr("10.0.0.1"), netip.MustParseAddr("2001:db8::9")
	a.set()
	offer, err := sdp.NewOffer(ipA, 5004, enc)
	sym.Assert(err == nil, "offering failed")
	listed := map[byte]string{}
	for _, c := range offer.Codecs {
		listed[c.Type] = c.Codec.Info().SDPName
	}
	text, err := offer.SDP.Marshal()
	sym.Assert(err == nil, "the offer has no text")
	b.set()
	got, err := sdp.ParseOffer(text)
	sym.Assert(err == nil, "the offer is not understood")
	answer, cb, err := got.Answer(ipB, 65535, enc)
	w := best(a, b)
	if w < 0 {
		sym.Assert(errors.Is(err, sdp.ErrNoCommonMedia), "no error without a common codec")
		sym.Assert(answer == nil && cb == nil, "an answer without a common codec")
		sym.Reach("no common codec")
		return
	}
	sym.Assert(err == nil, "a common codec was not found")
	text, err = answer.SDP.Marshal()
	sym.Assert(err == nil, "the answer has no text")
	a.set()
	back, err := sdp.ParseAnswer(text)
	sym.Assert(err == nil, "the answer is not understood")
	ca, err := back.Apply(offer, enc)
	sym.Assert(err == nil, "the answer is not accepted")
	agree(ca, cb, w, listed, a[4], b[4])
	sym.Assert(ca.Local == netip.AddrPortFrom(ipA, 5004) && cb.Local == netip.AddrPortFrom(ipB, 65535), "a local address changed")
	sym.Reach("agreed")
}

func agree(ca, cb *sdp.MediaConfig, w int, listed map[byte]string, eventA, eventB bool) {
	sym.Assert(ca.Audio.Codec.Info().SDPName == names[w], "the offerer does not use the best common codec")
	sym.Assert(cb.Audio.Codec.Info().SDPName == names[w], "the answerer does not use the best common codec")
	sym.Assert(ca.Audio.Type == cb.Audio.Type, "the sides use different payload types")
	sym.Assert(listed[ca.Audio.Type] == names[w], "the payload type is not the one offered for the codec")
	sym.Assert(ca.Audio.DTMFType == cb.Audio.DTMFType, "the sides use different types for telephone events")
	if t := ca.Audio.DTMFType; t != 0 {
		sym.Assert(listed[t] == event, "the type of telephone events was not offered")
	} else {
		sym.Assert(!eventA || !eventB, "telephone events were lost")
	}
	sym.Assert(ca.Remote == cb.Local && cb.Remote == ca.Local, "the remote address is not the peer's local one")
}

// HDirect: any address and port, without text.
func HDirect() {
	setup()
	a := choose("offerer")
	a.set()
	oct := netip.AddrFrom4([4]byte{10, 0, 0, sym.U8("octet")})
	ipA, ipB := oct, netip.MustParseAddr("2001:db8::9")
	pa, pb := sym.U16("port"), sym.U16("port")
	offer, err := sdp.NewOffer(ipA, int(pa), sdp.EncryptionNone)
	sym.Assert(err == nil, "offering failed")
	listed := map[byte]string{}
	for _, c := range offer.Codecs {
		listed[c.Type] = c.Codec.Info().SDPName
	}
	answer, cb, err := offer.Answer(ipB, int(pb), sdp.EncryptionNone)
	w := best(a, a)
	if w < 0 {
		sym.Assert(errors.Is(err, sdp.ErrNoCommonMedia), "no error without a common codec")
		return
	}
	sym.Assert(err == nil, "a common codec was not found")
	ca, err := answer.Apply(offer, sdp.EncryptionNone)
	sym.Assert(err == nil, "the answer is not accepted")
	agree(ca, cb, w, listed, a[4], a[4])
	sym.Assert(ca.Local == netip.AddrPortFrom(ipA, pa) && cb.Local == netip.AddrPortFrom(ipB, pb), "a local address or port changed")
	sym.Assert(answer.SDP.MediaDescriptions[0].MediaName.Port.Value == int(pb), "the answer has another port")
	sym.Reach("end")
}

var maps = []struct {
	typ, name string
	codec     int
}{
	{"0", "PCMU/8000", 0}, {"8", "PCMA/8000", 1}, {"9", "G722/8000", 2}, {"97", "DYN/16000", 3}, {"110", "DYN/16000/1", 3}, {"111", "opus/48000/2", -1}, {"100", event, 4},
}

func peer(order []int) string {
	s := "v=0\r\no=- 1 1 IN IP4 192.0.2.1\r\ns=-\r\nc=IN IP4 192.0.2.1\r\nt=0 0\r\nm=audio 4000 RTP/AVP"
	for _, i := range order {
		s += " " + maps[i].typ
	}
	s += "\r\n"
	bare := sym.Choose("bare", 2) == 1 // static types need no mapping
	for _, i := range order {
		if bare && i < 3 {
			continue
		}
		s += "a=rtpmap:" + maps[i].typ + " " + maps[i].name + "\r\n"
	}
	return s
}

func order(n int) (o []int) {
	k := 1 + sym.Choose("count", n)
	for len(o) < k {
		o = append(o, sym.Choose("codec", len(maps)))
	}
	for i := range o {
		for j := 0; j < i; j++ {
			sym.Assume(o[i] != o[j])
		}
	}
	return o
}

// HPeerOffer: an offer of another implementation.
func HPeerOffer() {
	setup()
	o := order(sym.Bound(3, 4))
	b := subset{true, true, true, true, true}
	off := sym.Choose("disabled", 5)
	if off < 4 {
		b[off] = false
	}
	b.set()
	d, err := sdp.ParseOffer([]byte(peer(o)))
	sym.Assert(err == nil, "the offer is not understood")
	answer, c, err := d.Answer(netip.MustParseAddr("10.0.0.1"), 5004, sdp.EncryptionAllow)
	var offered subset
	for _, i := range o {
		if maps[i].codec >= 0 {
			offered[maps[i].codec] = true
		}
	}
	w := best(offered, b)
	if w < 0 {
		sym.Assert(errors.Is(err, sdp.ErrNoCommonMedia), "no error without a common codec")
		sym.Reach("none")
		return
	}
	sym.Assert(err == nil, "a common codec was not found")
	listed := map[byte]string{}
	for _, i := range o {
		t, _ := strconv.Atoi(maps[i].typ)
		if maps[i].codec >= 0 {
			listed[byte(t)] = names[maps[i].codec]
		}
	}
	sym.Assert(c.Audio.Codec.Info().SDPName == names[w], "not the best common codec was chosen")
	sym.Assert(listed[c.Audio.Type] == names[w], "the payload type is not the one offered for the codec")
	for _, i := range o {
		if maps[i].codec == w {
			sym.Assert(strconv.Itoa(int(c.Audio.Type)) == maps[i].typ, "not the first payload type of the codec was chosen")
			break
		}
	}
	if offered[4] {
		sym.Assert(c.Audio.DTMFType == 100, "the type of telephone events is not the one offered")
	} else {
		sym.Assert(c.Audio.DTMFType == 0, "telephone events appeared")
	}
	sym.Assert(c.Remote == netip.MustParseAddrPort("192.0.2.1:4000") && c.Local == netip.MustParseAddrPort("10.0.0.1:5004"), "the addresses are not the two sides'")
	m := answer.SDP.MediaDescriptions[0]
	want := []string{strconv.Itoa(int(c.Audio.Type))}
	if offered[4] {
		want = append(want, "100")
	}
	sym.Assert(len(m.MediaName.Formats) == len(want), "the answer does not list the chosen types")
	for i := range want {
		sym.Assert(m.MediaName.Formats[i] == want[i], "the answer does not list the chosen types")
	}
	sym.Reach("chosen")
}

// HPeerAnswer: the answer of another implementation to our offer: the first codec it lists is used.
func HPeerAnswer() {
	setup()
	all := subset{true, true, true, true, true}
	all.set()
	offer, err := sdp.NewOffer(netip.MustParseAddr("10.0.0.1"), 5004, sdp.EncryptionAllow)
	sym.Assert(err == nil, "offering failed")
	o := order(sym.Bound(2, 3))
	first := -1
	dtmf := false
	for _, i := range o {
		sym.Assume(maps[i].codec >= 0 && i != 4)
		if maps[i].codec < 4 && first < 0 {
			first = i
		}
		dtmf = dtmf || maps[i].codec == 4
	}
	text := peer(o)
	if !strings.Contains(text, "rtpmap:"+maps[max(first, 0)].typ+" ") && len(o) > 1 {
		return // a static codec without a mapping counts after the mapped ones
	}
	d, err := sdp.ParseAnswer([]byte(text))
	sym.Assert(err == nil, "the answer is not understood")
	c, err := d.Apply(offer, sdp.EncryptionAllow)
	if first < 0 {
		sym.Assert(errors.Is(err, sdp.ErrNoCommonMedia), "no error without a common codec")
		return
	}
	sym.Assert(err == nil, "the answer is not accepted")
	sym.Assert(c.Audio.Codec.Info().SDPName == names[maps[first].codec], "not the first codec of the answer is used")
	sym.Assert(strconv.Itoa(int(c.Audio.Type)) == maps[first].typ, "the payload type is not the one answered")
	sym.Assert((c.Audio.DTMFType == 100) == dtmf && (c.Audio.DTMFType == 0) == !dtmf, "the type of telephone events is not the one answered")
	sym.Assert(c.Remote == netip.MustParseAddrPort("192.0.2.1:4000") && c.Local == offer.Addr, "the addresses are not the two sides'")
	sym.Reach("end")
}

// HMany: more codecs than usual; the sides share one or two of them.
func HMany() {
	setup()
	n := sym.Bound(16, 32)
	name := func(i int) string { return "M" + string(rune('A'+i/26)) + string(rune('a'+i%26)) + "/16000" }
	for i := 0; i < n; i++ {
		media.RegisterCodec(rtp.NewAudioCodec(media.CodecInfo{SDPName: name(i), SampleRate: 16000, Priority: i * 7 % 11}, g711.DecodeULaw, g711.EncodeULaw))
	}
	a := subset{true, true, true, true, true}
	a.set()
	x, y := sym.Choose("x", n), sym.Choose("y", n)
	offer, err := sdp.NewOffer(netip.MustParseAddr("10.0.0.1"), 5004, sdp.EncryptionNone)
	sym.Assert(err == nil, "offering failed")
	sym.Assert(len(offer.Codecs) == n+5, "a codec is missing from the offer")
	listed := map[string]byte{}
	for _, c := range offer.Codecs {
		listed[c.Codec.Info().SDPName] = c.Type
	}
	text, err := offer.SDP.Marshal()
	sym.Assert(err == nil, "the offer has no text")
	subset{}.set()
	for i := 0; i < n; i++ {
		media.CodecSetEnabled(name(i), i == x || i == y)
	}
	got, err := sdp.ParseOffer(text)
	sym.Assert(err == nil, "the offer is not understood")
	answer, cb, err := got.Answer(netip.MustParseAddr("10.0.0.2"), 6000, sdp.EncryptionNone)
	sym.Assert(err == nil, "a common codec was not found")
	text, err = answer.SDP.Marshal()
	sym.Assert(err == nil, "the answer has no text")
	a.set()
	for i := 0; i < n; i++ {
		media.CodecSetEnabled(name(i), true)
	}
	back, err := sdp.ParseAnswer(text)
	sym.Assert(err == nil, "the answer is not understood")
	ca, err := back.Apply(offer, sdp.EncryptionNone)
	sym.Assert(err == nil, "the answer is not accepted")
	px, py := x*7%11, y*7%11
	used := ca.Audio.Codec.Info().SDPName
	sym.Assert(used == name(x) && px >= py || used == name(y) && py >= px, "not the best common codec is used")
	sym.Assert(cb.Audio.Codec.Info().SDPName == used, "the sides use different codecs")
	sym.Assert(ca.Audio.Type == listed[used] && cb.Audio.Type == listed[used], "the payload type is not the one offered for the codec")
	sym.Reach("end")
}
