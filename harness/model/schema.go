// Package model holds an independent model of protobuf schemas, values and
// the wire format. It shares no code with prutal; it is the oracle's side.
package model

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type Kind int

const (
	Bool Kind = iota
	Int32
	Sint32
	Uint32
	Int64
	Sint64
	Uint64
	Sfixed32
	Fixed32
	Float
	Sfixed64
	Fixed64
	Double
	String
	Bytes
	Message
)

var kindNames = []string{"bool", "int32", "sint32", "uint32", "int64", "sint64", "uint64", "sfixed32", "fixed32", "float", "sfixed64", "fixed64", "double", "string", "bytes", "message"}

func (k Kind) String() string { return kindNames[k] }

// Wire types
const (
	WVarint = 0
	WI64    = 1
	WLen    = 2
	WSGroup = 3
	WEGroup = 4
	WI32    = 5
)

func (k Kind) Wire() int {
	switch k {
	case Sfixed32, Fixed32, Float:
		return WI32
	case Sfixed64, Fixed64, Double:
		return WI64
	case String, Bytes, Message:
		return WLen
	}
	return WVarint
}

func (k Kind) Is32() bool {
	switch k {
	case Int32, Sint32, Uint32, Sfixed32, Fixed32, Float:
		return true
	}
	return false
}

func (k Kind) Scalar() bool   { return k != Message }
func (k Kind) Packable() bool { return k < String }

type Card int

const (
	Implicit Card = iota // no presence
	Explicit             // presence: pointer, or bytes with nil/non-nil
	Repeated
	Map
)

func (c Card) String() string { return [...]string{"implicit", "explicit", "repeated", "map"}[c] }

type Field struct {
	Num    int32
	Name   string
	Kind   Kind // element / value kind
	Card   Card
	Packed bool
	Key    Kind // for maps
	Msg    *Msg // for Message kind
	Oneof  int  // 1-based oneof group, 0 if none

	// Go binding
	Index   int          // field index in the Go struct
	Ptr     bool         // the field (or list element / map value) is a pointer
	ByValue bool         // message kept by value
	Wrapper reflect.Type // oneof wrapper struct type
	// EmptyAmbiguous: singular bytes whose tag does not tell whether it has presence
	EmptyAmbiguous bool
}

func (f *Field) String() string {
	s := fmt.Sprintf("%d:%s", f.Num, f.Card)
	if f.Oneof > 0 {
		s += fmt.Sprintf("/oneof%d", f.Oneof)
	}
	if f.Card == Map {
		s += "<" + f.Key.String() + "," + f.Kind.String() + ">"
	} else {
		s += " " + f.Kind.String()
	}
	if f.Packed {
		s += " packed"
	}
	if f.ByValue {
		s += " byvalue"
	}
	return s
}

type UnknownKind int

const (
	UnknownNone UnknownKind = iota
	UnknownBytes
	UnknownPtr
)

type Msg struct {
	Name   string
	Type   reflect.Type // struct type, nil if schema only
	Fields []*Field     // by number
	ByNum  map[int32]*Field
	Oneofs int

	Unknown   UnknownKind
	UnkIndex  int
	recursive bool // reaches itself
	hasMap    bool
	hasByVal  bool
	mapDone   bool
}

func (m *Msg) Index() {
	m.ByNum = map[int32]*Field{}
	sort.SliceStable(m.Fields, func(i, j int) bool { return m.Fields[i].Num < m.Fields[j].Num })
	for _, f := range m.Fields {
		m.ByNum[f.Num] = f
	}
}

// All lists m and every message reachable from it.
func (m *Msg) All() []*Msg {
	seen := map[*Msg]bool{}
	var out []*Msg
	var walk func(x *Msg)
	walk = func(x *Msg) {
		if seen[x] {
			return
		}
		seen[x] = true
		out = append(out, x)
		for _, f := range x.Fields {
			if f.Msg != nil {
				walk(f.Msg)
			}
		}
	}
	walk(m)
	return out
}

// Any reports whether pred holds for any reachable field.
func (m *Msg) Any(pred func(*Field) bool) bool {
	for _, x := range m.All() {
		for _, f := range x.Fields {
			if pred(f) {
				return true
			}
		}
	}
	return false
}

func (m *Msg) HasMap() bool { return m.Any(func(f *Field) bool { return f.Card == Map }) }
func (m *Msg) HasUnknown() bool {
	for _, x := range m.All() {
		if x.Unknown != UnknownNone {
			return true
		}
	}
	return false
}

// MaxSize is the largest in-memory struct size reachable from m.
func (m *Msg) MaxSize() int {
	n := 0
	for _, x := range m.All() {
		if x.Type != nil && int(x.Type.Size()) > n {
			n = int(x.Type.Size())
		}
		for _, f := range x.Fields {
			if f.Wrapper != nil && int(f.Wrapper.Size()) > n {
				n = int(f.Wrapper.Size())
			}
		}
	}
	return n
}

var bytesT = reflect.TypeOf([]byte(nil))

type oneofWrapperser interface{ XXX_OneofWrappers() []interface{} }

// Loader builds schemas from Go struct types, with its own reading of the tags.
type Loader struct {
	cache map[reflect.Type]*Msg
	// OneofWrappers returns wrapper values for types without XXX_OneofWrappers
	OneofWrappers func(reflect.Type) []any
}

func NewLoader() *Loader { return &Loader{cache: map[reflect.Type]*Msg{}} }

type tagInfo struct {
	enc      string
	num      int32
	rep      bool
	req      bool
	oneof    bool
	packed   bool
	proto3   bool
	name     string
	enumName string
}

func parseTag(tag string) (ti tagInfo, err error) {
	parts := strings.Split(tag, ",")
	if len(parts) < 3 {
		return ti, fmt.Errorf("short tag %q", tag)
	}
	ti.enc = parts[0]
	n, err := strconv.Atoi(parts[1])
	if err != nil {
		return ti, err
	}
	ti.num = int32(n)
	ti.rep = parts[2] == "rep"
	ti.req = parts[2] == "req"
	for _, s := range parts[3:] {
		switch {
		case s == "packed":
			ti.packed = true
		case s == "oneof":
			ti.oneof = true
		case s == "proto3":
			ti.proto3 = true
		case strings.HasPrefix(s, "name="):
			ti.name = s[5:]
		case strings.HasPrefix(s, "enum="):
			ti.enumName = s[5:]
		case strings.HasPrefix(s, "def="):
			return ti, nil
		}
	}
	return ti, nil
}

func kindOf(enc string, t reflect.Type) (Kind, error) {
	type ek struct {
		e string
		k reflect.Kind
	}
	if t == bytesT {
		if enc == "bytes" {
			return Bytes, nil
		}
		return 0, fmt.Errorf("[]byte as %s", enc)
	}
	tbl := map[ek]Kind{
		{"varint", reflect.Bool}: Bool, {"varint", reflect.Int32}: Int32, {"varint", reflect.Uint32}: Uint32,
		{"varint", reflect.Int64}: Int64, {"varint", reflect.Uint64}: Uint64,
		{"zigzag32", reflect.Int32}: Sint32, {"zigzag64", reflect.Int64}: Sint64,
		{"fixed32", reflect.Int32}: Sfixed32, {"fixed32", reflect.Uint32}: Fixed32, {"fixed32", reflect.Float32}: Float,
		{"fixed64", reflect.Int64}: Sfixed64, {"fixed64", reflect.Uint64}: Fixed64, {"fixed64", reflect.Float64}: Double,
		{"bytes", reflect.String}: String, {"bytes", reflect.Struct}: Message,
	}
	k, ok := tbl[ek{enc, t.Kind()}]
	if !ok {
		return 0, fmt.Errorf("%s as %s", t, enc)
	}
	return k, nil
}

// Load reads a struct type (or pointer to one).
func (l *Loader) Load(t reflect.Type) (*Msg, error) {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if m := l.cache[t]; m != nil {
		return m, nil
	}
	m := &Msg{Name: t.Name(), Type: t, UnkIndex: -1}
	l.cache[t] = m
	setEl := func(f *Field, enc string, et reflect.Type) error {
		if et.Kind() == reflect.Pointer {
			f.Ptr = true
			et = et.Elem()
		}
		k, err := kindOf(enc, et)
		if err != nil {
			return err
		}
		f.Kind = k
		if k == Message {
			f.ByValue = !f.Ptr
			f.Msg, err = l.Load(et)
			return err
		}
		return nil
	}
	var wrappers []any
	mk := func(sf reflect.StructField) (*Field, error) {
		ti, err := parseTag(sf.Tag.Get("protobuf"))
		if err != nil {
			return nil, err
		}
		f := &Field{Num: ti.num, Name: sf.Name, Packed: ti.packed}
		ft := sf.Type
		switch {
		case ft.Kind() == reflect.Map:
			f.Card = Map
			kt, err := parseTag(sf.Tag.Get("protobuf_key"))
			if err != nil {
				return nil, err
			}
			vt, err := parseTag(sf.Tag.Get("protobuf_val"))
			if err != nil {
				return nil, err
			}
			if f.Key, err = kindOf(kt.enc, ft.Key()); err != nil {
				return nil, err
			}
			if err := setEl(f, vt.enc, ft.Elem()); err != nil {
				return nil, err
			}
		case ti.rep:
			f.Card = Repeated
			if ft.Kind() != reflect.Slice {
				return nil, fmt.Errorf("rep on %s", ft)
			}
			if err := setEl(f, ti.enc, ft.Elem()); err != nil {
				return nil, err
			}
		default:
			if err := setEl(f, ti.enc, ft); err != nil {
				return nil, err
			}
			f.Card = Implicit
			if f.Ptr || f.Kind == Message {
				f.Card = Explicit
			}
			if f.Kind == Bytes && !f.Ptr {
				if ti.req || ti.oneof {
					f.Card = Explicit
				} else if !ti.proto3 {
					f.EmptyAmbiguous = true
				}
			}
		}
		return f, nil
	}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.Tag.Get("protobuf") != "" {
			f, err := mk(sf)
			if err != nil {
				return nil, fmt.Errorf("%s.%s: %w", t, sf.Name, err)
			}
			f.Index = i
			m.Fields = append(m.Fields, f)
		} else if sf.Tag.Get("protobuf_oneof") != "" {
			m.Oneofs++
			if wrappers == nil {
				pv := reflect.New(t).Interface()
				if w, ok := pv.(oneofWrapperser); ok {
					wrappers = w.XXX_OneofWrappers()
				} else if l.OneofWrappers != nil {
					wrappers = l.OneofWrappers(t)
				}
			}
			for _, w := range wrappers {
				wt := reflect.TypeOf(w)
				if !wt.Implements(sf.Type) {
					continue
				}
				f, err := mk(wt.Elem().Field(0))
				if err != nil {
					return nil, fmt.Errorf("%s.%s: %w", t, wt, err)
				}
				f.Index = i
				f.Oneof = m.Oneofs
				f.Card = Explicit
				f.EmptyAmbiguous = false
				f.Wrapper = wt.Elem()
				m.Fields = append(m.Fields, f)
			}
		}
	}
	for _, n := range []string{"unknownFields", "XXX_unrecognized"} {
		sf, ok := t.FieldByName(n)
		if !ok || len(sf.Index) != 1 {
			continue
		}
		if sf.Type == bytesT {
			m.Unknown, m.UnkIndex = UnknownBytes, sf.Index[0]
		} else if sf.Type == reflect.PointerTo(bytesT) {
			m.Unknown, m.UnkIndex = UnknownPtr, sf.Index[0]
		} else {
			continue
		}
		break
	}
	m.Index()
	return m, nil
}

func f32bits(f float32) uint64 { return uint64(math.Float32bits(f)) }
func f64bits(f float64) uint64 { return math.Float64bits(f) }
