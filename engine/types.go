package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KUnsafe
	KOther
)

// TInfo is the canonical layout of a type; identical types share one TInfo.
type TInfo struct {
	id     int
	typ    types.Type
	kind   Kind
	w      int // scalar width (or wF32/wF64, wBool)
	signed bool
	n      int // number of cells
	elem   *TInfo
	key    *TInfo
	alen   int
	fields []*TInfo
	offs   []int
	str    string
}

var (
	tiMu  sync.Mutex
	tiMap typeutil.Map
	tiN   int
)

func TI(t types.Type) *TInfo {
	tiMu.Lock()
	defer tiMu.Unlock()
	return tiLocked(t)
}

func tiLocked(t types.Type) *TInfo {
	t = types.Unalias(t)
	if v := tiMap.At(t); v != nil {
		return v.(*TInfo)
	}
	tiN++
	ti := &TInfo{typ: t, id: tiN, n: 1}
	ti.str = t.String()
	tiMap.Set(t, ti)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind, ti.w = KBool, wBool
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Float32:
			ti.kind, ti.w = KFloat, wF32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, wF64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		default:
			ti.kind = KOther
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = tiLocked(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = tiLocked(u.Elem())
	case *types.Map:
		ti.kind = KMap
		ti.key = tiLocked(u.Key())
		ti.elem = tiLocked(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.elem = tiLocked(u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
	case *types.Struct:
		ti.kind = KStruct
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := tiLocked(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, n)
			n += f.n
		}
		ti.n = n
	case *types.Array:
		ti.kind = KArray
		ti.elem = tiLocked(u.Elem())
		ti.alen = int(u.Len())
		ti.n = ti.alen * ti.elem.n
	case *types.Tuple:
		ti.kind = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tiLocked(u.At(i).Type()))
		}
	default:
		ti.kind = KOther
	}
	return ti
}

func (t *TInfo) scalar() bool { return t.kind == KBool || t.kind == KInt || t.kind == KFloat }
func (t *TInfo) agg() bool    { return t.kind == KStruct || t.kind == KArray }
func (t *TInfo) String() string {
	return fmt.Sprintf("%s", t.str)
}
