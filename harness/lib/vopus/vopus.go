// Package vopus stands in for gopkg.in/hraban/opus.v2 and for the libopus
// functions used directly: decoding and encoding results are scripted.
package vopus

import (
	"fmt"
	"strconv"
	"unsafe"

	"github.com/livekit/media-sdk/zzverif/sym"
)

type (
	C_uchar      = uint8
	C_int        = int32
	C_opus_int32 = int32
)

// C_opus_packet_get_nb_channels reads the stereo flag of the table of contents byte.
func C_opus_packet_get_nb_channels(p *uint8) int32 {
	if *p&4 != 0 {
		return 2
	}
	return 1
}

func C_opus_packet_get_samples_per_frame(p *uint8, rate int32) int32 { return rate / 50 }

func C_opus_packet_get_nb_frames(p *uint8, n int32) int32 { return 1 }

func C_opus_packet_get_nb_samples(p *uint8, n int32, rate int32) int32 { return rate / 50 }

func C_opus_packet_get_bandwidth(p *uint8) int32 { return 1101 }

var _ = unsafe.Pointer(nil)

type Application int

const (
	AppVoIP               = Application(2048)
	AppAudio              = Application(2049)
	AppRestrictedLowdelay = Application(2051)
)

type Bandwidth int

const (
	Narrowband    = Bandwidth(1101)
	Mediumband    = Bandwidth(1102)
	Wideband      = Bandwidth(1103)
	SuperWideband = Bandwidth(1104)
	Fullband      = Bandwidth(1105)
)

type Error int

func (e Error) Error() string { return "opus: error " + strconv.Itoa(int(e)) }

const (
	ErrOK             = Error(0)
	ErrBadArg         = Error(-1)
	ErrBufferTooSmall = Error(-2)
	ErrInternalError  = Error(-3)
	ErrInvalidPacket  = Error(-4)
	ErrUnimplemented  = Error(-5)
	ErrInvalidState   = Error(-6)
	ErrAllocFail      = Error(-7)
)

// Result of one decoding or encoding call.
type Result struct {
	Pcm []int16 // N*channels samples
	Out []byte
	Err error
}

// Script.
var (
	NewErr   error
	Decoders []*Decoder
	Encoders []*Encoder
	Next     func(channels int, data []byte) Result // for Decode
	NextEnc  func(pcm []int16) Result               // for Encode
	Calls    int
)

type Decoder struct {
	Rate, Channels int
	Used           int
}

func NewDecoder(sampleRate int, channels int) (*Decoder, error) {
	d := &Decoder{}
	if err := d.Init(sampleRate, channels); err != nil {
		return nil, err
	}
	return d, nil
}

func (d *Decoder) Init(sampleRate int, channels int) error {
	if NewErr != nil {
		return NewErr
	}
	if channels != 1 && channels != 2 {
		return fmt.Errorf("Number of channels must be 1 or 2: %d", channels)
	}
	d.Rate, d.Channels = sampleRate, channels
	Decoders = append(Decoders, d)
	return nil
}

func (d *Decoder) Decode(data []byte, pcm []int16) (int, error) {
	Calls++
	d.Used++
	if len(data) == 0 {
		return 0, fmt.Errorf("opus: no data supplied")
	}
	if len(pcm) == 0 {
		return 0, fmt.Errorf("opus: target buffer empty")
	}
	if cap(pcm)%d.Channels != 0 {
		return 0, fmt.Errorf("opus: target buffer capacity must be multiple of channels")
	}
	r := Next(d.Channels, data)
	if r.Err != nil {
		return 0, r.Err
	}
	if len(r.Pcm) > cap(pcm) {
		return 0, ErrBufferTooSmall
	}
	copy(pcm[:len(r.Pcm)], r.Pcm)
	return len(r.Pcm) / d.Channels, nil
}

func (d *Decoder) DecodeFEC(data []byte, pcm []int16) error { return ErrUnimplemented }
func (d *Decoder) DecodePLC(pcm []int16) error              { return ErrUnimplemented }
func (d *Decoder) LastPacketDuration() (int, error)         { return d.Rate / 50, nil }

type Encoder struct {
	Rate, Channels int
	App            Application
}

func NewEncoder(sampleRate int, channels int, application Application) (*Encoder, error) {
	e := &Encoder{}
	if err := e.Init(sampleRate, channels, application); err != nil {
		return nil, err
	}
	return e, nil
}

func (e *Encoder) Init(sampleRate int, channels int, application Application) error {
	if NewErr != nil {
		return NewErr
	}
	if channels != 1 && channels != 2 {
		return fmt.Errorf("Number of channels must be 1 or 2: %d", channels)
	}
	e.Rate, e.Channels, e.App = sampleRate, channels, application
	Encoders = append(Encoders, e)
	return nil
}

func (e *Encoder) Encode(pcm []int16, data []byte) (int, error) {
	Calls++
	if len(pcm) == 0 {
		return 0, fmt.Errorf("opus: no data supplied")
	}
	if len(data) == 0 {
		return 0, fmt.Errorf("opus: no target buffer")
	}
	if len(pcm)%e.Channels != 0 {
		return 0, fmt.Errorf("opus: input buffer length must be multiple of channels")
	}
	r := NextEnc(pcm)
	if r.Err != nil {
		return 0, r.Err
	}
	if len(r.Out) > cap(data) {
		return 0, ErrBufferTooSmall
	}
	copy(data[:len(r.Out)], r.Out)
	return len(r.Out), nil
}

func (e *Encoder) SetDTX(bool) error               { return nil }
func (e *Encoder) SetBitrate(int) error            { return nil }
func (e *Encoder) SetBitrateToAuto() error         { return nil }
func (e *Encoder) SetBitrateToMax() error          { return nil }
func (e *Encoder) SetComplexity(int) error         { return nil }
func (e *Encoder) SetMaxBandwidth(Bandwidth) error { return nil }
func (e *Encoder) SetInBandFEC(bool) error         { return nil }
func (e *Encoder) SetPacketLossPerc(int) error     { return nil }
func (e *Encoder) SampleRate() (int, error)        { return e.Rate, nil }
func (e *Encoder) Reset() error                    { return nil }

var _ = sym.Bool
