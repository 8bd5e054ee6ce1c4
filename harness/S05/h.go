package main

import (
	"strconv"
	"strings"

	psdp "github.com/pion/sdp/v3"

	"github.com/livekit/media-sdk"
	_ "github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/g711"
	_ "github.com/livekit/media-sdk/g722"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var names = []string{
	"PCMU/8000", "pcmu/8000", "PCMU/8000/1", "PCMA/8000", "g722/8000", "test/16000/1", // codecs
	"telephone-event/8000", "telephone-event/8000/1", "Telephone-Event/8000", // events
	"opus/48000/2", "PCMU", "PCMU/16000", "PCMU/8000/2", "", // nothing
}

// codecOf is the codec a mapping name stands for.
func codecOf(name string) string {
	switch strings.ToLower(name) {
	case "pcmu/8000", "pcmu/8000/1":
		return "PCMU/8000"
	case "pcma/8000", "pcma/8000/1":
		return "PCMA/8000"
	case "g722/8000", "g722/8000/1":
		return "G722/8000"
	case "test/16000", "test/16000/1":
		return "TEST/16000"
	}
	return ""
}

func static(typ int) string {
	switch typ {
	case 0:
		return "PCMU/8000"
	case 8:
		return "PCMA/8000"
	case 9:
		return "G722/8000"
	}
	return ""
}

func event(name string) bool {
	n := strings.ToLower(name)
	return n == "telephone-event/8000" || n == "telephone-event/8000/1"
}

// off is the set of disabled codecs.
var off = map[string]bool{}

func setup() {
	media.RegisterCodec(rtp.NewAudioCodec(media.CodecInfo{SDPName: "TEST/16000", SampleRate: 16000, Priority: 7}, g711.DecodeULaw, g711.EncodeULaw))
	switch sym.Choose("disabled", 4) {
	case 1:
		off["PCMU/8000"] = true
	case 2:
		off["G722/8000"], off["TEST/16000"] = true, true
	case 3:
		off["PCMU/8000"], off["PCMA/8000"], off["G722/8000"], off["TEST/16000"], off["telephone-event/8000"] = true, true, true, true, true
	}
	for n := range off {
		media.CodecSetEnabled(n, false)
	}
}

func text(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(c < 128)
	}
	return string(b)
}

// number is the value of a payload type text: -1 if it is not one.
func number(s string) int {
	if s == "" {
		return -1
	}
	v := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return -1
		}
		v = v*10 + int(s[i]-'0')
	}
	if v > 127 {
		return -1
	}
	return v
}

type entry struct {
	typ  int
	name string
}

// model collects what a section stands for.
type model struct {
	d    psdp.MediaDescription
	maps []entry
	fmts []entry
	dtmf int
}

func (m *model) rtpmap(num, name string) {
	m.d.Attributes = append(m.d.Attributes, psdp.Attribute{Key: "rtpmap", Value: num + " " + name})
	typ := number(num)
	if typ < 0 {
		return
	}
	if event(name) {
		m.dtmf = typ
		return
	}
	if c := codecOf(name); c != "" && !off[c] {
		m.maps = append(m.maps, entry{typ, c})
	}
}

func (m *model) format(num string) {
	m.d.MediaName.Formats = append(m.d.MediaName.Formats, num)
	typ := number(num)
	if c := static(typ); c != "" && !off[c] {
		m.fmts = append(m.fmts, entry{typ, c})
	}
}

func (m *model) check() {
	m.d.MediaName.Media = "audio"
	got, err := sdp.ParseMedia(&m.d)
	sym.Assert(err == nil, "a section without crypto attributes was rejected")
	sym.Assert(int(got.DTMFType) == m.dtmf, "the type of telephone events is not the one mapped")
	sym.Assert(len(got.CryptoProfiles) == 0, "a crypto profile appeared")
	want := append(append([]entry{}, m.maps...), m.fmts...)
	i := 0
	for _, c := range got.Codecs {
		if c.Codec == nil {
			continue
		}
		_, audio := c.Codec.(rtp.AudioCodec)
		sym.Assert(audio, "a codec that is not audio was listed")
		sym.Assert(i < len(want), "a codec was listed that the section does not map")
		sym.Assert(c.Codec.Info().SDPName == want[i].name, "a codec other than the mapped one was listed")
		sym.Assert(int(c.Type) == want[i].typ, "a codec was listed with another payload type")
		i++
	}
	sym.Assert(i == len(want), "a mapped codec is missing")
	sym.Reach("end")
}

func nosign(s string) {
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '+' && s[i] != '-')
	}
}

// HMap: one mapping with any payload type text.
func HMap() {
	setup()
	m := &model{}
	n := text("type", 1+sym.Choose("len", sym.Bound(3, 4)))
	nosign(n)
	for i := 0; i < len(n); i++ {
		sym.Assume(n[i] != ' ')
	}
	m.rtpmap(n, names[sym.Choose("name", len(names))])
	m.check()
}

// HName: a codec name with one arbitrary character inserted or replaced.
func HName() {
	media.RegisterCodec(rtp.NewAudioCodec(media.CodecInfo{SDPName: "TEST/16000", SampleRate: 16000, Priority: 7}, g711.DecodeULaw, g711.EncodeULaw))
	m := &model{}
	name := []string{"PCMU/8000", "telephone-event/8000", "test/16000/1", "G722/8000"}[sym.Choose("name", sym.Bound(2, 4))]
	at := sym.Choose("at", len(name)+1)
	c := sym.U8("char")
	sym.Assume(c < 128)
	b := append([]byte{}, name[:at]...)
	b = append(b, c)
	if at < len(name) && sym.Choose("replace", 2) == 1 {
		b = append(b, name[at+1:]...)
	} else {
		b = append(b, name[at:]...)
	}
	m.rtpmap("97", string(b))
	m.check()
}

// HFormat: formats with any payload type text.
func HFormat() {
	setup()
	m := &model{}
	for i := 0; i < sym.Bound(1, 2); i++ {
		n := text("type", 1+sym.Choose("len", 3))
		nosign(n)
		m.format(n)
	}
	m.check()
}

// HOrder: several entries; all are listed, in order, mappings first.
func HOrder() {
	setup()
	m := &model{}
	n := 3
	for i := 0; i < n; i++ {
		switch sym.Choose("kind", 4) {
		case 0:
			m.rtpmap([]string{"0", "101", "256", "96"}[sym.Choose("type", sym.Bound(3, 4))], names[[]int{0, 4, 8, 9, 5, 6}[sym.Choose("name", sym.Bound(4, 6))]])
		case 1:
			m.format([]string{"0", "9", "264", "101", "8"}[sym.Choose("type", sym.Bound(3, 5))])
		case 2:
			m.d.Attributes = append(m.d.Attributes, psdp.Attribute{Key: []string{"fmtp", "ptime", "sendrecv", "rtcp"}[sym.Choose("key", sym.Bound(1, 4))], Value: "101 0-16"})
		}
	}
	m.check()
}

// HAny: arbitrary texts do not crash the parser or map anything.
func HAny() {
	setup()
	d := &psdp.MediaDescription{MediaName: psdp.MediaName{Media: "audio"}}
	d.Attributes = append(d.Attributes, psdp.Attribute{Key: "rtpmap", Value: text("any", sym.Choose("len", sym.Bound(5, 6)))})
	d.MediaName.Formats = []string{text("format", sym.Choose("flen", sym.Bound(3, 5)))}
	got, err := sdp.ParseMedia(d)
	if err == nil {
		for _, c := range got.Codecs {
			if c.Codec != nil {
				sym.Assert(d.MediaName.Formats[0] != "" && static(int(c.Type)) == c.Codec.Info().SDPName, "a codec was listed that is not mapped")
			}
		}
		sym.Assert(got.DTMFType == 0, "telephone events appeared")
	}
	sym.Reach("end")
}

// HLong: sections with many mappings, formats and other attributes.
func HLong() {
	setup()
	m := &model{}
	n := sym.Bound(30, 100)
	rot := sym.Choose("rot", sym.Bound(3, len(names)))
	for i := 0; i < n; i++ {
		typ := strconv.Itoa(i * 127 / n)
		m.format(typ)
		if i%3 == 2 {
			m.d.Attributes = append(m.d.Attributes, psdp.Attribute{Key: []string{"fmtp", "ptime", "rtcp-fb", "candidate"}[i%4], Value: typ + " 0-16"})
		}
		m.rtpmap(strconv.Itoa(96+i%32), names[(i*5+rot)%len(names)])
	}
	last := text("type", sym.Bound(2, 3))
	nosign(last)
	for i := 0; i < len(last); i++ {
		sym.Assume(last[i] != ' ')
	}
	m.format(last)
	m.rtpmap(last, "PCMA/8000")
	m.check()
}
