// Package vsoxr stands in for libsoxr. Its contract is that of soxr_process
// for interleaved int16 data: a call consumes min(ilen, ceil(olen*in/out))
// samples and yields any number of output samples up to olen and up to what the
// consumed input accounts for; a flushing call yields as much as fits.
package vsoxr

import (
	"unsafe"

	"github.com/livekit/media-sdk/zzverif/sym"
)

type (
	C_size_t              = uint64
	C_ulong               = uint64
	C_uint                = uint32
	C_int                 = int32
	C_double              = float64
	C_char                = int8
	C_soxr_t              = *Engine
	C_soxr_in_t           = unsafe.Pointer
	C_soxr_out_t          = unsafe.Pointer
	C_soxr_error_t        = *C_char
	C_soxr_datatype_t     = int
	C_soxr_io_spec_t      struct{ In, Out int }
	C_soxr_quality_spec_t struct{ Recipe, Flags uint64 }
	C_soxr_runtime_spec_t struct{ Threads uint32 }
)

const (
	C_SOXR_QQ        = 0
	C_SOXR_LQ        = 1
	C_SOXR_MQ        = 2
	C_SOXR_HQ        = 4
	C_SOXR_VHQ       = 6
	C_SOXR_FLOAT32_I = 0
	C_SOXR_INT16_I   = 3
)

// Engine is one resampler.
type Engine struct {
	Src, Dst  int
	In        []int16 // everything consumed
	Produced  int
	Flushing  bool
	Deleted   int
	Calls     int
	WhileDead int
}

// Script of the environment.
var (
	All       []*Engine
	CreateErr string
	ErrAt     = -1 // fail at this process call
	Lazy      bool // yields nothing before flushing
	Eager     bool // yields everything as soon as possible
	BadFree   int
	Out       func(k int) int16 = func(k int) int16 { return int16(k + 1) }
)

type lit struct {
	b C_char
	s string
}

var lits []*lit

func literal(s string) C_soxr_error_t {
	l := &lit{b: 1, s: s}
	lits = append(lits, l)
	return &l.b
}

func C_GoString(p *C_char) string {
	for _, l := range lits {
		if p == &l.b {
			return l.s
		}
	}
	if p == nil {
		return ""
	}
	sym.Fail("GoString of a pointer that is not a string")
	return ""
}

// C_free of a string literal aborts the process.
func C_free(p unsafe.Pointer) {
	if p == nil {
		return
	}
	BadFree++
	sym.Fail("C free() of memory that was not allocated (crash)")
}

func C_soxr_io_spec(in, out int) C_soxr_io_spec_t { return C_soxr_io_spec_t{in, out} }
func C_soxr_quality_spec(recipe, flags uint64) C_soxr_quality_spec_t {
	return C_soxr_quality_spec_t{recipe, flags}
}
func C_soxr_runtime_spec(n uint32) C_soxr_runtime_spec_t { return C_soxr_runtime_spec_t{n} }

func C_soxr_create(in, out float64, channels uint32, e *C_soxr_error_t, io *C_soxr_io_spec_t, q *C_soxr_quality_spec_t, r *C_soxr_runtime_spec_t) C_soxr_t {
	*e = nil
	if CreateErr != "" {
		*e = literal(CreateErr)
		return nil
	}
	if in <= 0 || out <= 0 {
		*e = literal("I/O ratio out-of-range")
		return nil
	}
	sym.Assert(channels == 1, "resampler is not mono")
	sym.Assert(io != nil && io.In == C_SOXR_INT16_I && io.Out == C_SOXR_INT16_I, "resampler does not work on 16-bit samples")
	p := &Engine{Src: int(in), Dst: int(out)}
	All = append(All, p)
	return p
}

func (p *Engine) avail() int {
	// rounded to the nearest sample
	return (2*len(p.In)*p.Dst+p.Src)/(2*p.Src) - p.Produced
}

func C_soxr_process(p C_soxr_t, in unsafe.Pointer, ilen0 uint64, idone *uint64, out unsafe.Pointer, olen0 uint64, odone *uint64) C_soxr_error_t {
	if p == nil {
		return literal("null pointer")
	}
	sym.Assert(p.Deleted == 0, "resampler used after it was freed")
	n := p.Calls
	p.Calls++
	if n == ErrAt {
		if idone != nil {
			*idone = 0
		}
		if odone != nil {
			*odone = 0
		}
		return literal("engine failed")
	}
	ilen, olen := int(ilen0), int(olen0)
	flush := in == nil
	rd := 0
	if !flush {
		sym.Assert(!p.Flushing, "input after flushing the resampler")
		rd = ilen
		if idone != nil {
			if m := (olen*p.Src + p.Dst - 1) / p.Dst; m < rd {
				rd = m
			}
		}
		if rd > 0 {
			p.In = append(p.In, unsafe.Slice((*int16)(in), rd)...)
		}
	} else {
		p.Flushing = true
	}
	if idone != nil {
		*idone = uint64(rd)
	}
	max := p.avail()
	if max < 0 {
		max = 0
	}
	if out == nil || olen < max {
		max = olen
	}
	done := max
	if !flush && !Eager {
		if Lazy {
			done = 0
		} else {
			done = sym.Choose("done", max+1)
		}
	}
	if done > 0 {
		dst := unsafe.Slice((*int16)(out), done)
		for i := range dst {
			dst[i] = Out(p.Produced + i)
		}
		p.Produced += done
	}
	if odone != nil {
		*odone = uint64(done)
	}
	return nil
}

func C_soxr_delete(p C_soxr_t) {
	if p == nil {
		return
	}
	p.Deleted++
	sym.Assert(p.Deleted == 1, "resampler freed twice")
}

func C_soxr_clear(p C_soxr_t) C_soxr_error_t {
	p.In, p.Produced, p.Flushing = nil, 0, false
	return nil
}

func C_soxr_delay(p C_soxr_t) float64 { return float64(p.avail()) }

func C_soxr_error(p C_soxr_t) C_soxr_error_t { return nil }
