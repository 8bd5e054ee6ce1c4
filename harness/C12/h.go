package main

import (
	"strings"

	media "github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/sdp"
	"github.com/livekit/media-sdk/zzverif/sym"
)

var names = []string{"Ab/8000", "cd/48000/2", "e"}

var vc [2]int

// variant changes the letter case of a name: one variant for registrations and
// one for all other uses.
func variant(s string, k int) string {
	switch vc[k] {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	}
	return s
}

type model struct {
	codecs []media.Codec
	dis    map[string]bool // lower-case name
}

func (m *model) enabled(name string) bool { return !m.dis[strings.ToLower(name)] }

func same(a, b []media.Codec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func HHistory() {
	vc[0] = sym.Choose("case", 3)
	vc[1] = (vc[0] + 1) % 3
	m := &model{codecs: media.Codecs(), dis: map[string]bool{}}
	var cb [][]media.Codec
	for k := 0; k < sym.Bound(3, 4); k++ {
		switch sym.Choose("op", 4) {
		case 0: // register
			i := sym.Choose("name", 2)
			info := media.CodecInfo{SDPName: variant(names[i], 0), SampleRate: 8000, Disabled: sym.Split(sym.Bool("disabled"))}
			if sym.Split(sym.Bool("static")) {
				info.RTPIsStatic = true
				info.RTPDefType = []byte{0, 255}[sym.Choose("type", 2)]
			}
			c := media.NewCodec(info)
			media.RegisterCodec(c)
			m.codecs = append(m.codecs, c)
			if info.Disabled {
				m.dis[strings.ToLower(info.SDPName)] = true
			}
			for j := range cb {
				sym.Assert(len(cb[j]) == len(m.codecs), "a registration callback did not see a new codec exactly once")
			}
			sym.Reach("register")
		case 1:
			n := variant(names[sym.Choose("name", 2)], 1)
			en := sym.Split(sym.Bool("enable"))
			media.CodecSetEnabled(n, en)
			m.dis[strings.ToLower(n)] = !en
			sym.Reach("set enabled")
		case 2:
			en := sym.Split(sym.Bool("enable"))
			media.CodecsSetEnabled(map[string]bool{"AB/8000": en, "e": !en})
			m.dis["ab/8000"], m.dis["e"] = !en, en
		case 3:
			j := len(cb)
			cb = append(cb, nil)
			media.OnRegister(func(c media.Codec) { cb[j] = append(cb[j], c) })
		}
		// enablement
		var en []media.Codec
		for _, c := range m.codecs {
			want := m.enabled(c.Info().SDPName)
			sym.Assert(media.CodecEnabled(c) == want, "a codec's enablement is not the last setting for its name")
			if want {
				en = append(en, c)
			}
		}
		sym.Assert(!media.CodecEnabled(nil), "a nil codec is enabled")
		for _, n := range names {
			sym.Assert(media.CodecEnabledByName(variant(n, 1)) == m.enabled(n), "enablement by name is not the last setting for the name")
		}
		sym.Assert(same(media.Codecs(), m.codecs), "the registered codecs are not listed in order")
		sym.Assert(same(media.EnabledCodecs(), en), "the enabled codecs are not the registered ones without the disabled ones, in order")
		for j := range cb {
			sym.Assert(same(cb[j], m.codecs), "a registration callback did not see every codec once, in order")
		}
	}
	// the lists are private copies
	for _, l := range [][]media.Codec{media.Codecs(), media.EnabledCodecs()} {
		for i := range l {
			l[i] = nil
		}
		_ = append(l, nil)
		sym.Assert(same(media.Codecs(), m.codecs), "the codec list handed out is the registry itself")
	}
	// name lookup
	for i, n := range names {
		var want media.Codec
		for _, c := range m.codecs {
			if strings.EqualFold(c.Info().SDPName, n) {
				want = c
			}
		}
		if want != nil && !m.enabled(n) {
			want = nil
		}
		got := sdp.CodecByName(variant(n, 1))
		if want == nil {
			sym.Assert(got == nil, "name lookup returns a disabled or unregistered codec")
		} else {
			sym.Assert(got == want, "name lookup does not return the latest registered codec of the name")
			sym.Reach("found")
		}
		got = sdp.CodecByName(variant(n, 1) + "/1")
		if want == nil || i != 0 {
			sym.Assert(got == nil, "name lookup with a channel suffix returns a codec of another name")
		} else {
			sym.Assert(got == want, "name lookup with a single-channel suffix fails")
		}
	}
	sym.Assert(sdp.CodecByName("zz/8000") == nil && sdp.CodecByName("") == nil, "an unknown name is found")
	for _, typ := range []byte{0, 1, 254, 255} {
		byType(m.codecs, typ)
	}
	sym.Reach("end")
}

func byType(l []media.Codec, typ byte) {
	var want media.Codec
	for _, c := range l {
		if i := c.Info(); i.RTPIsStatic && sym.Split(i.RTPDefType == typ) {
			want = c
		}
	}
	got := rtp.CodecByPayloadType(typ)
	if want == nil {
		sym.Assert(got == nil, "payload type lookup finds a codec that was not registered for the type")
	} else {
		sym.Assert(got == want, "payload type lookup does not find the latest static codec of the type")
		sym.Reach("by type")
	}
}

// Payload type lookup for every registered and looked-up type.
func HTypes() {
	c := media.NewCodec(media.CodecInfo{SDPName: "T/8000", SampleRate: 8000, RTPIsStatic: sym.Split(sym.Bool("static")), RTPDefType: sym.U8("type")})
	media.RegisterCodec(c)
	byType([]media.Codec{c}, sym.U8("lookup"))
	sym.Reach("end")
}

// Letter case is ignored for every letter.
func HCase() {
	c := media.NewCodec(media.CodecInfo{SDPName: "PcMx/8000", SampleRate: 8000})
	media.RegisterCodec(c)
	b := []byte("pcmx/8000")
	for i := 0; i < 4; i++ {
		if sym.Bool("upper") {
			b[i] -= 0x20
		}
	}
	n := string(b)
	sym.Assert(sdp.CodecByName(n) == c && sdp.CodecByName(n+"/1") == c, "name lookup depends on letter case")
	media.CodecSetEnabled(n, false)
	sym.Assert(!media.CodecEnabled(c) && sdp.CodecByName(n) == nil, "disabling depends on letter case")
	sym.Reach("end")
}

type smp []byte

func (s smp) Size() int                      { return len(s) }
func (s smp) CopyTo(dst []byte) (int, error) { return copy(dst, s), nil }

// A codec keeps the information it was created with; the RTP clock runs at the
// sample rate unless it is given.
func HInfo() {
	info := media.CodecInfo{
		SDPName:      "Inf/8000",
		SampleRate:   int(sym.I32("rate")),
		RTPClockRate: int(sym.I32("clock")),
		RTPDefType:   sym.U8("type"),
		RTPIsStatic:  sym.Bool("static"),
		Priority:     int(sym.I32("priority")),
		Disabled:     sym.Bool("disabled"),
		FileExt:      "ext",
	}
	sym.Assume(info.SampleRate > 0)
	want := info
	if sym.Split(want.RTPClockRate == 0) {
		want.RTPClockRate = want.SampleRate
		sym.Reach("default clock")
	} else {
		sym.Reach("own clock")
	}
	sym.Assert(media.NewCodec(info).Info() == want, "a codec changes the information it was created with")
	c := rtp.NewAudioCodec[smp](info, nil, nil)
	sym.Assert(c.Info() == want, "an audio codec changes the information it was created with")
}

// Many codecs.
func HMany() {
	old := media.Codecs()
	all := append([]media.Codec{}, old...)
	seen := 0
	media.OnRegister(func(c media.Codec) { seen++ })
	sym.Assert(seen == len(all), "a registration callback did not see the codecs registered before")
	dis := map[string]bool{}
	n := sym.Bound(40, 200)
	name := func(i int) string { return "many" + string(rune('a'+i/26%26)) + string(rune('a'+i%26)) + "/8000" }
	for i := 0; i < n; i++ {
		info := media.CodecInfo{SDPName: name(i), SampleRate: 8000, RTPIsStatic: i%2 == 0, RTPDefType: byte(255 - i), Disabled: i%5 == 4}
		c := media.NewCodec(info)
		media.RegisterCodec(c)
		all = append(all, c)
		dis[info.SDPName] = info.Disabled
		sym.Assert(seen == len(all), "a registration callback did not see a new codec exactly once")
		sym.Assert(same(media.Codecs(), all), "the registered codecs are not listed in order")
	}
	flip := sym.Choose("flip", n)
	media.CodecSetEnabled(name(flip), dis[name(flip)])
	dis[name(flip)] = !dis[name(flip)]
	var en []media.Codec
	for _, c := range all {
		if !dis[c.Info().SDPName] {
			en = append(en, c)
		}
	}
	sym.Assert(same(media.EnabledCodecs(), en), "the enabled codecs are not the registered ones without the disabled ones, in order")
	l := media.EnabledCodecs()
	for i := range l {
		l[i] = nil
	}
	sym.Assert(same(media.EnabledCodecs(), en) && same(media.Codecs(), all), "the codec list handed out is the registry itself")
	for i := 0; i < n; i++ {
		c := all[len(old)+i]
		got := sdp.CodecByName(name(i))
		if dis[name(i)] {
			sym.Assert(got == nil, "name lookup returns a disabled codec")
		} else {
			sym.Assert(got == c, "name lookup does not return the codec of the name")
		}
		got = rtp.CodecByPayloadType(byte(255 - i))
		if i%2 == 0 {
			sym.Assert(got == c, "payload type lookup does not find the static codec of the type")
		} else {
			sym.Assert(got == nil, "payload type lookup finds a codec that was not registered for the type")
		}
	}
	sym.Reach("end")
}
