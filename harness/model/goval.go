package model

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"
)

// fieldAt gives an addressable, settable view even of unexported fields.
func fieldAt(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	if f.CanSet() {
		return f
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func setScalar(dst reflect.Value, k Kind, x any) {
	switch k {
	case Bool:
		dst.SetBool(x.(uint64) != 0)
	case Int32, Sint32, Sfixed32:
		dst.SetInt(int64(int32(x.(uint64))))
	case Int64, Sint64, Sfixed64:
		dst.SetInt(int64(x.(uint64)))
	case Uint32, Fixed32, Uint64, Fixed64:
		dst.SetUint(x.(uint64))
	case Float:
		*(*uint32)(dst.Addr().UnsafePointer()) = uint32(x.(uint64))
	case Double:
		*(*uint64)(dst.Addr().UnsafePointer()) = x.(uint64)
	case String:
		dst.SetString(strings.Clone(x.(string))) // own memory
	case Bytes:
		dst.SetBytes([]byte(x.(string)))
	}
}

func getScalar(src reflect.Value, k Kind) any {
	switch k {
	case Bool:
		// read the raw byte: anything but 0/1 is a corrupt bool
		if src.CanAddr() {
			return uint64(*(*byte)(src.Addr().UnsafePointer()))
		}
		if src.Bool() {
			return uint64(1)
		}
		return uint64(0)
	case Int32, Sint32, Sfixed32:
		return uint64(uint32(src.Int()))
	case Int64, Sint64, Sfixed64:
		return uint64(src.Int())
	case Uint32, Fixed32, Uint64, Fixed64:
		return src.Uint()
	case Float:
		if src.CanAddr() {
			return uint64(*(*uint32)(src.Addr().UnsafePointer()))
		}
		return uint64(math.Float32bits(float32(src.Float())))
	case Double:
		return math.Float64bits(src.Float())
	case String:
		return string([]byte(src.String()))
	case Bytes:
		return string(src.Bytes())
	}
	panic("kind")
}

// FillOpts: ways of building equivalent Go values
type FillOpts struct {
	R *Rng // if set, uses nil elements, spare capacity, empty slices etc. at random
}

// New builds a *T holding v.
func (m *Msg) New(v *MV, o FillOpts) reflect.Value {
	p := reflect.New(m.Type)
	m.Fill(p.Elem(), v, o)
	return p
}

func (m *Msg) Fill(dst reflect.Value, v *MV, o FillOpts) {
	r := o.R
	elem := func(f *Field, et reflect.Type, x any, nilok bool) reflect.Value {
		if f.Kind == Message {
			mv := x.(*MV)
			if f.Ptr {
				if nilok && r != nil && mv.Empty() && r.P(50) {
					return reflect.Zero(et)
				}
				return f.Msg.New(mv, o)
			}
			e := reflect.New(et).Elem()
			f.Msg.Fill(e, mv, o)
			return e
		}
		e := reflect.New(et).Elem()
		setScalar(e, f.Kind, x)
		if f.Kind == Bytes && nilok && r != nil && x.(string) == "" && r.P(50) {
			e.SetZero()
		}
		return e
	}
	for _, f := range m.Fields {
		x, ok := v.F[f.Num]
		fv := fieldAt(dst, f.Index)
		if !ok {
			if r != nil && f.Oneof == 0 && r.P(25) { // equivalent non-nil forms of absent
				switch {
				case f.Card == Repeated:
					fv.Set(reflect.MakeSlice(fv.Type(), 0, r.N(3)))
				case f.Card == Map:
					fv.Set(reflect.MakeMap(fv.Type()))
				case f.Kind == Bytes && f.Card == Implicit:
					fv.SetBytes([]byte{})
				}
			}
			continue
		}
		if f.Oneof > 0 {
			w := reflect.New(f.Wrapper)
			wf := fieldAt(w.Elem(), 0)
			wf.Set(elem(f, wf.Type(), x, false))
			fv.Set(w)
			continue
		}
		switch f.Card {
		case Repeated:
			l := x.([]any)
			c := len(l)
			if r != nil && r.P(30) {
				c += r.N(9)
			}
			s := reflect.MakeSlice(fv.Type(), len(l), c)
			for i, e := range l {
				s.Index(i).Set(elem(f, fv.Type().Elem(), e, true))
			}
			fv.Set(s)
		case Map:
			mm := x.(map[any]any)
			mp := reflect.MakeMapWithSize(fv.Type(), len(mm))
			kt := fv.Type().Key()
			for _, k := range SortedKeys(mm) {
				kv := reflect.New(kt).Elem()
				setScalar(kv, f.Key, k)
				mp.SetMapIndex(kv, elem(f, fv.Type().Elem(), mm[k], true))
			}
			fv.Set(mp)
		default:
			if f.Kind == Message {
				fv.Set(elem(f, fv.Type(), x, false))
			} else if f.Ptr {
				p := reflect.New(fv.Type().Elem())
				setScalar(p.Elem(), f.Kind, x)
				fv.Set(p)
			} else {
				setScalar(fv, f.Kind, x)
			}
		}
	}
	if m.Unknown != UnknownNone && (len(v.Unk) > 0 || r != nil && r.P(10)) {
		uf := fieldAt(dst, m.UnkIndex)
		b := append([]byte{}, v.Unk...)
		if m.Unknown == UnknownPtr {
			uf.Set(reflect.ValueOf(&b))
		} else {
			uf.SetBytes(b)
		}
	}
}

// Read turns a Go value (struct, addressable) into a normalised model value.
// A reference chain deeper than limit panics (cycles).
func (m *Msg) Read(src reflect.Value) *MV {
	return m.read(src, 1200)
}

func (m *Msg) read(src reflect.Value, depth int) *MV {
	if depth == 0 {
		panic("model: value too deep")
	}
	if src.Kind() == reflect.Pointer {
		if src.IsNil() {
			return NewMV()
		}
		src = src.Elem()
	}
	if !src.CanAddr() {
		c := reflect.New(src.Type()).Elem()
		c.Set(src)
		src = c
	}
	v := NewMV()
	elem := func(f *Field, e reflect.Value) any {
		if f.Kind == Message {
			return f.Msg.read(e, depth-1)
		}
		return getScalar(e, f.Kind)
	}
	for _, f := range m.Fields {
		fv := fieldAt(src, f.Index)
		if f.Oneof > 0 {
			if fv.IsNil() {
				continue
			}
			w := fv.Elem()
			if w.Type() != reflect.PointerTo(f.Wrapper) || w.IsNil() {
				continue
			}
			v.F[f.Num] = elem(f, fieldAt(w.Elem(), 0))
			continue
		}
		switch f.Card {
		case Repeated:
			if n := fv.Len(); n > 0 {
				l := make([]any, n)
				for i := range l {
					l[i] = elem(f, fv.Index(i))
				}
				v.F[f.Num] = l
			}
		case Map:
			if fv.Len() > 0 {
				mm := make(map[any]any, fv.Len())
				it := fv.MapRange()
				for it.Next() {
					// addressable copies, so that the raw bits are seen
					k, e := reflect.New(fv.Type().Key()).Elem(), reflect.New(fv.Type().Elem()).Elem()
					k.Set(it.Key())
					e.Set(it.Value())
					mm[getScalar(k, f.Key)] = elem(f, e)
				}
				if len(mm) != fv.Len() {
					panic(fmt.Sprintf("model: map field %d has %d entries but %d distinct keys", f.Num, fv.Len(), len(mm)))
				}
				v.F[f.Num] = mm
			}
		default:
			switch {
			case f.Kind == Message && f.ByValue:
				x := f.Msg.read(fv, depth-1)
				if !x.Empty() {
					v.F[f.Num] = x
				}
			case f.Ptr:
				if !fv.IsNil() {
					v.F[f.Num] = elem(f, fv.Elem())
				}
			case f.Kind == Bytes && f.Card == Explicit:
				if !fv.IsNil() {
					v.F[f.Num] = string(fv.Bytes())
				}
			default:
				if x := getScalar(fv, f.Kind); !IsZero(x) {
					v.F[f.Num] = x
				}
			}
		}
	}
	v.Unk = m.ReadUnknown(src)
	return v
}

func (m *Msg) ReadUnknown(src reflect.Value) []byte {
	if m.Unknown == UnknownNone {
		return nil
	}
	uf := fieldAt(src, m.UnkIndex)
	if m.Unknown == UnknownPtr {
		if uf.IsNil() {
			return nil
		}
		uf = uf.Elem()
	}
	if uf.Len() == 0 {
		return nil
	}
	return append([]byte(nil), uf.Bytes()...)
}
