package main

import (
	"net/netip"

	psdp "github.com/pion/sdp/v3"

	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

// texts of addresses; the first three are usable.
var texts = []string{"10.1.2.3", "2001:db8::5", "192.0.2.255", "", "host.example", "300.1.2.3", "1.2.3"}

func usable(i int) bool { return i < 3 }

// line chooses a connection line: nil, foreign, without an address or with one.
// It returns the index of its address, or -1.
func line(name string, addrs int) (c *psdp.ConnectionInformation, in bool, addr int) {
	k := sym.Choose(name, 4)
	if k == 0 {
		return nil, false, -1
	}
	c = &psdp.ConnectionInformation{NetworkType: "IN", AddressType: "IP4"}
	if k == 1 {
		c.NetworkType = []string{"ATM", "in", ""}[sym.Choose(name+".net", 3)]
	}
	if k == 3 {
		return c, true, -1
	}
	a := sym.Choose(name+".addr", addrs)
	c.Address = &psdp.Address{Address: texts[a]}
	return c, k == 2, a
}

// want is the index of the address to use: -1 for none.
func want(media, session *psdp.ConnectionInformation, mi, si bool, ma, sa int, oin bool, oa int) int {
	c, in, a := media, mi, ma
	if c == nil {
		c, in, a = session, si, sa
	}
	if c != nil && in {
		return a
	}
	if oin {
		return oa
	}
	return -1
}

func check(got netip.AddrPort, err error, w int, port uint16) {
	if w < 0 || !usable(w) {
		sym.Assert(err != nil, "a missing or unusable address was accepted")
		return
	}
	sym.Assert(err == nil, "a usable address was rejected")
	sym.Assert(got.Addr() == netip.MustParseAddr(texts[w]), "the destination is not the address of the most specific line")
	sym.Assert(got.Port() == port, "the destination port is not the one of the audio section")
}

// HDest: the address of a description built in memory.
func HDest() {
	n := sym.Bound(5, len(texts))
	m, mi, ma := line("media", n)
	s, si, sa := line("session", n)
	oin := sym.Bool("originIN")
	oa := sym.Choose("origin", n)
	port := sym.U16("port")
	d := &psdp.SessionDescription{ConnectionInformation: s, Origin: psdp.Origin{NetworkType: "IN", AddressType: "IP4", UnicastAddress: texts[oa]}}
	if !oin {
		d.Origin.NetworkType = "X"
	}
	audio := &psdp.MediaDescription{MediaName: psdp.MediaName{Media: "audio", Port: psdp.RangedPort{Value: int(port)}}, ConnectionInformation: m}
	if sym.Bool("listed") {
		d.MediaDescriptions = append(d.MediaDescriptions, audio)
	}
	got, err := sdp.GetAudioDest(d, audio)
	check(got, err, want(m, s, mi, si, ma, sa, oin, oa), port)
	sym.Reach("end")
}

// HMissing: no description or no audio section is an error; the first audio section is taken.
func HMissing() {
	audio := &psdp.MediaDescription{MediaName: psdp.MediaName{Media: "audio"}}
	_, err := sdp.GetAudioDest(nil, audio)
	sym.Assert(err != nil, "no description was accepted")
	_, err = sdp.GetAudioDest(nil, nil)
	sym.Assert(err != nil, "no description was accepted")
	d := &psdp.SessionDescription{Origin: psdp.Origin{NetworkType: "IN", UnicastAddress: texts[0]}}
	_, err = sdp.GetAudioDest(d, nil)
	sym.Assert(err != nil, "no audio section was accepted")
	first := -1
	n := sym.Choose("sections", 4)
	for i := 0; i < n; i++ {
		kind := sym.Choose("kind", 3)
		d.MediaDescriptions = append(d.MediaDescriptions, &psdp.MediaDescription{MediaName: psdp.MediaName{Media: []string{"audio", "video", "application"}[kind], Port: psdp.RangedPort{Value: i}}})
		if kind == 0 && first < 0 {
			first = i
		}
	}
	got := sdp.GetAudio(d)
	if first < 0 {
		sym.Assert(got == nil, "a section that is not audio was returned")
	} else {
		sym.Assert(got == d.MediaDescriptions[first], "the first audio section was not returned")
	}
	sym.Reach("end")
}

// HText: whole descriptions as text.
func HText() {
	conn := func(name string) (string, int) {
		switch k := sym.Choose(name, 6); k {
		case 0:
			return "", -2
		case 1:
			return "c=IN IP4 \r\n", -1
		case 2:
			return "c=IN IP4\r\n", -1
		case 3:
			return "c=IN IP6 " + texts[1] + "\r\n", 1
		case 4:
			return "c=IN IP4 " + texts[2] + "\r\n", 2
		default:
			return "c=IN IP4 " + texts[4] + "\r\n", 4
		}
	}
	s, sa := conn("session")
	m, ma := conn("media")
	oa := []int{0, 4}[sym.Choose("origin", 2)]
	digits := 1 + sym.Choose("digits", 5)
	port := make([]byte, digits)
	val := 0
	for i := range port {
		d := sym.Range("digit", 0, 9)
		port[i] = byte('0' + d)
		val = val*10 + d
	}
	sym.Assume(port[0] != '0' || digits == 1)
	text := "v=0\r\no=- 1 1 IN IP4 " + texts[oa] + "\r\ns=x\r\n" + s + "t=0 0\r\n"
	if sym.Bool("video") {
		text += "m=video 9 RTP/AVP 96\r\nc=IN IP4 198.51.100.1\r\n"
	}
	audio := sym.Bool("audio")
	if audio {
		text += "m=audio " + string(port) + " RTP/AVP 0\r\n" + m + "a=rtpmap:0 PCMU/8000\r\n"
	}
	w := ma
	if w == -2 {
		w = sa
	}
	if w == -2 {
		w = oa
	}
	d, err := sdp.Parse([]byte(text))
	if !audio || w < 0 || !usable(w) || val == 0 || val > 65535 {
		sym.Assert(err != nil, "a description without a usable audio destination was accepted")
	} else {
		sym.Assert(err == nil, "a description with an audio destination was rejected")
		sym.Assert(d.Addr.Addr() == netip.MustParseAddr(texts[w]), "the destination is not the address of the most specific line")
		sym.Assert(int(d.Addr.Port()) == val, "the destination port is not the one of the audio section")
	}
	sym.Reach("end")
}
