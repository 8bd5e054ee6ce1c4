package main

import (
	"github.com/livekit/media-sdk/dtmf"
	"github.com/livekit/media-sdk/rtp"
	"github.com/livekit/media-sdk/tones"
	"github.com/livekit/media-sdk/zzverif/sym"
)

const keypad = "0123456789*#abcd"

// Encoding then decoding gives the event back.
func HRoundTrip() {
	var ev dtmf.Event
	want := byte(0)
	digit := byte(0)
	if sym.Choose("by", 2) == 0 {
		k := sym.Choose("digit", len(keypad))
		ev.Digit = keypad[k]
		ev.Code = sym.U8("ignored code")
		want, digit = byte(k), keypad[k]
	} else {
		ev.Code = sym.U8("code")
		want = ev.Code
		if want < 16 {
			digit = keypad[want]
		}
	}
	ev.Volume = sym.U8("volume")
	ev.Dur = sym.U16("dur")
	ev.End = sym.Bool("end")
	n := sym.Choose("buffer", 7)
	buf := sym.Bytes("junk", n)
	orig := append([]byte{}, buf...)
	c, err := dtmf.Encode(buf, ev)
	if n < 4 {
		sym.Assert(err != nil && c == 0, "encoding into a short buffer is not an error")
		for i := range buf {
			sym.Assert(buf[i] == orig[i], "a short buffer was written to")
		}
		sym.Reach("short")
		return
	}
	sym.Assert(err == nil && c == 4, "encoding does not write four bytes")
	for i := 4; i < n; i++ {
		sym.Assert(buf[i] == orig[i], "bytes beyond the event were written")
	}
	// RFC 4733 layout
	sym.Assert(buf[0] == want, "the event code on the wire is wrong")
	sym.Assert((buf[1]&0x80 != 0) == ev.End, "the end bit on the wire is wrong")
	sym.Assert(buf[1]&0x40 == 0, "the reserved bit is set")
	sym.Assert(buf[1]&0x3f == ev.Volume&0x3f, "the volume on the wire is wrong")
	sym.Assert(uint16(buf[2])<<8|uint16(buf[3]) == ev.Dur, "the duration on the wire is wrong")
	got, err := dtmf.Decode(buf)
	sym.Assert(err == nil, "an encoded event does not decode")
	sym.Assert(got.Code == want, "the code does not survive")
	sym.Assert(got.Digit == digit, "the digit does not survive")
	sym.Assert(got.End == ev.End, "the end flag does not survive")
	sym.Assert(got.Dur == ev.Dur, "the duration does not survive")
	sym.Assert(got.Volume == ev.Volume&0x3f, "the volume does not survive")
	sym.Reach("end")
}

// Decoding any payload then encoding gives the payload back.
func HDecode() {
	n := sym.Choose("len", 8)
	b := sym.Bytes("payload", n)
	orig := append([]byte{}, b...)
	h := &rtp.Header{Marker: sym.Bool("marker"), PayloadType: sym.U8("pt"), SequenceNumber: sym.U16("sn"), Timestamp: sym.U32("ts")}
	ev, err := dtmf.Decode(b)
	ev2, ok := dtmf.DecodeRTP(h, b)
	if n < 4 {
		sym.Assert(err != nil, "a short payload decodes")
		sym.Assert(!ok, "a short RTP payload is accepted")
		sym.Reach("short")
		return
	}
	sym.Assert(err == nil, "a full payload does not decode")
	sym.Assert(ok == h.Marker, "RTP decoding does not accept exactly the marked packets")
	if ok {
		sym.Assert(ev2 == ev, "RTP decoding differs from decoding")
	}
	for i := range b {
		sym.Assert(b[i] == orig[i], "decoding changed the payload")
	}
	sym.Assert(ev.Code == b[0], "wrong code")
	if b[0] < 16 {
		sym.Assert(ev.Digit == keypad[b[0]], "wrong digit")
	} else {
		sym.Assert(ev.Digit == 0, "a digit for a non-keypad event")
	}
	sym.Assert(ev.End == (b[1]&0x80 != 0), "wrong end flag")
	sym.Assert(ev.Volume == b[1]&0x3f, "wrong volume")
	sym.Assert(ev.Dur == uint16(b[2])<<8|uint16(b[3]), "wrong duration")
	var out [4]byte
	c, err := dtmf.Encode(out[:], ev)
	sym.Assert(err == nil && c == 4, "re-encoding fails")
	sym.Assert(out[0] == b[0] && out[1] == b[1]&^0x40 && out[2] == b[2] && out[3] == b[3], "re-encoding differs")
	sym.Reach("end")
}

// The tone pairs of ITU-T Q.23.
func HTone() {
	rows := [4]string{"123a", "456b", "789c", "*0#d"}
	lo := [4]tones.Hz{697, 770, 852, 941}
	hi := [4]tones.Hz{1209, 1336, 1477, 1633}
	d := sym.U8("digit")
	code, freq := dtmf.Tone(d)
	known := false
	for r := range rows {
		for c := 0; c < 4; c++ {
			if d == rows[r][c] {
				known = true
				sym.Assert(int(code) < len(keypad) && keypad[code] == d, "the code of a digit is not its own")
				ok := len(freq) == 2 && (freq[0] == lo[r] && freq[1] == hi[c] || freq[0] == hi[c] && freq[1] == lo[r])
				sym.Assert(ok, "the tone pair of a digit is not the standard one")
				sym.Reach("digit")
			}
		}
	}
	if !known {
		// upper-case letters may be accepted as their lower-case forms
		if d >= 'A' && d <= 'D' && len(freq) != 0 {
			sym.Assert(code == d-'A'+12, "wrong code for an upper-case letter")
		} else {
			sym.Assert(len(freq) == 0, "an unknown character has a tone")
		}
		sym.Reach("unknown")
	}
}
