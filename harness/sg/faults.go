package sg

import (
	"fmt"
	"math/big"
	"path"
	"strings"

	"vharness/model"
)

// Fault is one mistake put into a valid set.
type Fault struct {
	Class string
	What  string
	File  *File // which is wrong
	// Protoc tells whether protoc refuses it as well.
	Protoc bool
}

func (f Fault) String() string {
	return fmt.Sprintf("%s: %s in %s", f.Class, f.What, f.File.Path)
}

// spell writes a number of any size.
func spell(r *model.Rng, n string) string {
	x, _ := new(big.Int).SetString(n, 10)
	switch r.N(4) {
	case 0:
		return fmt.Sprintf("0x%x", x)
	case 1:
		return fmt.Sprintf("0%o", x)
	}
	return n
}

func pow2(k uint, add int64) string {
	x := new(big.Int).Lsh(big.NewInt(1), k)
	return x.Add(x, big.NewInt(add)).String()
}

// Break puts one fault into the set; nil if it finds no place for it.
func (s *Set) Break(r *model.Rng) *Fault {
	var files []*File
	for _, f := range s.Files {
		if f.Known == nil {
			files = append(files, f)
		}
	}
	f := files[r.N(len(files))]
	var msgs []*Msg // with fields
	for _, m := range f.AllMsgs() {
		if len(m.Fields) > 0 {
			msgs = append(msgs, m)
		}
	}
	enums := f.AllEnums()
	class := []string{"number", "number", "duplicate-number", "duplicate-number", "reserved-number", "reserved-number", "reserved-name",
		"enum-duplicate", "enum-range", "enum-reserved-number", "enum-reserved-name", "syntax-version", "missing-import", "cyclic-import", "go-package", "unresolved",
		"package", "rpc", "rpc", "option-value", "option-value", "required", "escape", "escape", "map-key", "number-syntax", "reserved-syntax"}[r.N(27)]
	ft := &Fault{Class: class, File: f, Protoc: true}
	switch class {
	case "number", "duplicate-number", "reserved-number", "reserved-name", "unresolved", "map-key", "number-syntax", "required":
		if len(msgs) == 0 {
			return nil
		}
	case "enum-duplicate", "enum-range", "enum-reserved-number", "enum-reserved-name":
		if len(enums) == 0 {
			return nil
		}
	}
	reserve := func(rs ...string) []string {
		out := []string{"reserved"}
		for i, x := range rs {
			if i > 0 {
				out = append(out, ",")
			}
			out = append(out, strings.Fields(x)...)
		}
		return append(out, ";")
	}
	switch class {
	case "number":
		m := msgs[r.N(len(msgs))]
		x := m.Fields[r.N(len(m.Fields))]
		n := []string{"0", "0", pow2(29, 0), pow2(29, 1), pow2(29, int64(r.N(1000))), pow2(30, 0), pow2(31, -1), pow2(31, 0), pow2(32, 0), pow2(32, 1), pow2(32, int64(1+r.N(1000))),
			pow2(63, -1), pow2(63, 0), pow2(64, 0), pow2(64, 1), pow2(64, int64(1+r.N(100))), pow2(96, 3)}[r.N(17)]
		if r.P(15) {
			n = fmt.Sprint(r.Pick(19000, 19001, 19500, 19999, 19000+r.N(1000)))
		}
		x.RawNum = spell(r, n)
		ft.What = fmt.Sprintf("field %s.%s has the number %s", m.Full(), x.Name, n)
	case "duplicate-number":
		m := msgs[r.N(len(msgs))]
		if len(m.Fields) < 2 {
			return nil
		}
		i, j := r.N(len(m.Fields)), r.N(len(m.Fields))
		if i == j {
			return nil
		}
		x, y := m.Fields[i], m.Fields[j]
		x.RawNum = spell(r, fmt.Sprint(y.Num))
		ft.What = fmt.Sprintf("fields %s and %s of %s have the number %d", x.Name, y.Name, m.Full(), y.Num)
	case "reserved-number":
		m := msgs[r.N(len(msgs))]
		x := m.Fields[r.N(len(m.Fields))]
		n := int64(x.Num)
		// ranges must not meet others
		lo, hi := int64(1), int64(1<<29-1)
		for _, q := range append(append([]Range{}, m.Reserved...), m.ExtRanges...) {
			if q.Hi < n {
				lo = max(lo, q.Hi+1)
			} else {
				hi = min(hi, q.Lo-1)
			}
		}
		rg := pickRange(r, n, lo, hi)
		m.Raw = append(m.Raw, reserve(rangeText(r, rg, hi == 1<<29-1, 1<<29-1)))
		ft.What = fmt.Sprintf("field %s.%s = %d has a reserved number (%v)", m.Full(), x.Name, n, rg)
	case "reserved-name":
		if f.Syntax == "2023" {
			return nil
		}
		m := msgs[r.N(len(msgs))]
		x := m.Fields[r.N(len(m.Fields))]
		m.Raw = append(m.Raw, names(r, x.Name))
		ft.What = fmt.Sprintf("field %s.%s has a reserved name", m.Full(), x.Name)
	case "enum-duplicate":
		e := enums[r.N(len(enums))]
		if len(e.Values) < 2 {
			return nil
		}
		i := 1 + r.N(len(e.Values)-1)
		j := r.N(i)
		if j == i {
			return nil
		}
		n := int64(e.Values[j].Num)
		e.Values[i].RawNum = signed(r, fmt.Sprint(n))
		if e.Alias {
			e.NoAlias = true
			if r.P(50) {
				e.Raw = append(e.Raw, []string{"option", "allow_alias", "=", "false", ";"})
			}
		}
		ft.What = fmt.Sprintf("enum %s has %d twice without allow_alias", e.Full(), n)
	case "enum-range":
		e := enums[r.N(len(enums))]
		v := e.Values[r.N(len(e.Values))]
		n := []string{pow2(31, 0), pow2(31, int64(r.N(100))), "-" + pow2(31, 1), "-" + pow2(31, int64(1+r.N(100))), pow2(32, 0), pow2(32, -1), "-" + pow2(32, 0), pow2(32, 1),
			pow2(63, -1), pow2(63, 0), "-" + pow2(63, 0), "-" + pow2(63, 1), pow2(64, 0), pow2(64, 1), "-" + pow2(64, 0), "-" + pow2(64, 1)}[r.N(16)]
		v.RawNum = signed(r, n)
		ft.What = fmt.Sprintf("enum value %s.%s is %s", e.Full(), v.Name, n)
	case "enum-reserved-number":
		e := enums[r.N(len(enums))]
		i := r.N(len(e.Values))
		v := e.Values[i]
		n := int64(v.Num)
		if i > 0 && r.P(40) { // close to the ends of int32, and to those of the field numbers
			n = []int64{1<<31 - 1, 1<<31 - 2, 1 << 30, 1 << 29, 1<<29 - 1, 1<<29 - 2, 19000, 1 << 16, 1 << 15}[r.N(9)]
			for _, x := range e.Values {
				if int64(x.Num) == n {
					return nil
				}
			}
			for _, q := range e.Reserved {
				if q.Lo <= n && n <= q.Hi {
					return nil
				}
			}
			v.RawNum = signed(r, fmt.Sprint(n))
		}
		lo, hi := int64(-1<<31), int64(1<<31-1)
		for _, q := range e.Reserved {
			if q.Hi < n {
				lo = max(lo, q.Hi+1)
			} else {
				hi = min(hi, q.Lo-1)
			}
		}
		if lo = max(lo, 0); n < 0 { // prutalgen refuses negative ranges altogether
			return nil
		}
		rg := pickRange(r, n, lo, hi)
		e.Raw = append(e.Raw, reserve(rangeText(r, rg, hi == 1<<31-1, 1<<31-1)))
		ft.What = fmt.Sprintf("enum value %s.%s = %d has a reserved number (%v)", e.Full(), v.Name, n, rg)
	case "enum-reserved-name":
		if f.Syntax == "2023" {
			return nil
		}
		e := enums[r.N(len(enums))]
		v := e.Values[r.N(len(e.Values))]
		e.Raw = append(e.Raw, names(r, v.Name))
		ft.What = fmt.Sprintf("enum value %s.%s has a reserved name", e.Full(), v.Name)
	case "syntax-version":
		k, v := "syntax", []string{"proto1", "proto4", "", "PROTO3", "Proto2", "proto2 ", " proto3", "proto", "2023", "proto3.0", "proto23", "3", "proto\\x34"}
		if r.P(40) {
			k, v = "edition", []string{"2022", "2021", "1990", "", "proto3", "23", "2023 ", "02023", "99999", "proto2", "EDITION_2023"}
			ft.Protoc = true
		}
		x := v[r.N(len(v))]
		if len(x) > 1 && r.P(20) {
			i := 1 + r.N(len(x)-1)
			if x[i-1] != '\\' && !strings.Contains(x, "\\") {
				x = x[:i] + `" "` + x[i:]
			}
		}
		f.RawSyntax = []string{k, "=", `"` + x + `"`, ";"}
		ft.What = fmt.Sprintf("%s %q", k, x)
	case "missing-import":
		p := []string{"missing.proto", "a/missing.proto", "google/protobuf/missing.proto", "./missing.proto", f.Path + "x", "x" + f.Path, "google/protobuf/Any.proto", "missing", "in/missing.proto", "../missing.proto"}[r.N(10)]
		if d := path.Dir(f.Path); d != "." && r.P(15) { // a directory
			p = d
		}
		f.RawImports = append(f.RawImports, p)
		ft.What = fmt.Sprintf("import of %q", p)
	case "cyclic-import":
		// files which f is imported by, and f itself
		up := []*File{f}
		for i := 0; i < len(up); i++ {
			for _, x := range files {
				for _, im := range x.Imports {
					if im.F == up[i] && !has(up, x) {
						up = append(up, x)
					}
				}
			}
		}
		x := up[r.N(len(up))]
		f.RawImports = append(f.RawImports, x.Path)
		ft.What = fmt.Sprintf("import of %q which imports it, directly or not", x.Path)
	case "go-package":
		f.NoGoPkg, f.ViaM = true, false
		ft.Protoc = false
		ft.What = "no go_package"
	case "unresolved":
		m := msgs[r.N(len(msgs))]
		x := m.Fields[r.N(len(m.Fields))]
		x.Spell = []string{"Missing", ".Missing", "missing.Missing", m.Name + ".Missing", ".int32", "int32.x", "Int32", "int", "float32", "uint", "String", "google.protobuf.Missing", "google.protobuf", "google"}[r.N(14)]
		if r.P(30) && f.Pkg != "" {
			x.Spell = f.Pkg + ".Missing"
		}
		sc := NewScope(f)
		if d, why := sc.ResolveWhy(m.Full(), x.Spell, true); d != nil || why != "" {
			x.Spell = ""
			return nil
		}
		if x.Ref == nil {
			x.Ref = m
		}
		x.Packed, x.Default = nil, ""
		ft.What = fmt.Sprintf("field %s.%s has the type %s", m.Full(), x.Name, x.Spell)
	case "package":
		p := []string{"other", f.Pkg, f.Pkg + ".x", "google.protobuf"}[r.N(4)]
		if f.Pkg == "" || p == "" {
			return nil
		}
		st := []string{"package", p, ";"}
		if r.P(50) {
			f.RawHead = append(f.RawHead, st)
		} else {
			f.RawBody = append(f.RawBody, st)
		}
		ft.What = fmt.Sprintf("packages %s and %s", f.Pkg, p)
	case "rpc":
		if len(f.Services) == 0 && len(msgs) > 0 { // of one's own
			f.Services = append(f.Services, &Service{Base: Base{Name: "VBroken", File: f}, Methods: []*Method{{Name: "Call", In: msgs[0], Out: msgs[r.N(len(msgs))]}}})
		}
		var ms []*Method
		var in []*Service
		for _, v := range f.Services {
			for _, m := range v.Methods {
				ms, in = append(ms, m), append(in, v)
			}
		}
		if len(ms) == 0 {
			return nil
		}
		i := r.N(len(ms))
		m := ms[i]
		t := []string{"Missing", ".Missing", m.In.Name + ".Missing", "." + m.In.Full() + ".Missing", "google.protobuf", ".google.protobuf", in[i].Name, "." + in[i].Full(), in[i].Name + "." + m.Name, ".int32"}[r.N(10)]
		if len(enums) > 0 && r.P(50) {
			t = "." + enums[r.N(len(enums))].Full()
		}
		if t[0] != '.' {
			if d, why := NewScope(f).ResolveWhy(in[i].Full(), t, false); d != nil || why != "" {
				return nil
			}
		}
		if r.P(50) {
			m.SpellIn = t
		} else {
			m.SpellOut = t
		}
		ft.What = fmt.Sprintf("rpc %s.%s has the type %s", in[i].Full(), m.Name, t)
	case "option-value":
		x := []string{"packed", "allow_alias", "allow_alias", "features.field_presence", "features.repeated_field_encoding", "features.message_encoding"}[r.N(6)]
		v := []string{"1", "0", "TRUE", "True", "False", "yes", "no", "truee", `""`, "1.0", "inf", "enabled"}[r.N(12)]
		if strings.HasPrefix(x, "features.") {
			if f.Syntax != "2023" {
				return nil
			}
			v = []string{"UNKNOWN", "explicit", "Explicit", "packed", "EXPLICITLY", "PACK", "0", "1", `""`, "true", "LENGTH", "DELIMITED_", strings.ToUpper(x[9:]) + "_UNKNOWN"}[r.N(13)]
		}
		tokens := []string{x, "=", v}
		if strings.HasPrefix(x, "features.") && r.P(40) {
			tokens = []string{"features", "=", "{", x[9:], ":", v, "}"}
			if r.P(40) {
				k := map[string]string{"features.field_presence": "EXPLICIT", "features.repeated_field_encoding": "PACKED", "features.message_encoding": "LENGTH_PREFIXED"}
				for _, y := range []string{"features.field_presence", "features.repeated_field_encoding", "features.message_encoding"} {
					if y != x && r.P(60) {
						tokens = []string{"features", "=", "{", y[9:], ":", k[y], x[9:], ":", v, "}"}
						break
					}
				}
			}
		}
		stmt := append(append([]string{"option"}, tokens...), ";")
		where := "file"
		switch {
		case x == "packed" || strings.HasPrefix(x, "features.") && r.P(50) && len(msgs) > 0:
			if len(msgs) == 0 {
				return nil
			}
			m := msgs[r.N(len(msgs))]
			y := m.Fields[r.N(len(m.Fields))]
			if y.Packed != nil && x == "packed" || x == "packed" && (y.Label != Repeated || y.Kind == KString || y.Kind == KBytes || y.Kind == KMessage) {
				return nil
			}
			if x == "features.message_encoding" && v == "DELIMITED" {
				return nil
			}
			y.Presence, y.RepEnc = "", ""
			y.RawOpt = append([]string{tokens[0]}, tokens[2:]...)
			where = m.Full() + "." + y.Name
		case x == "allow_alias":
			if len(enums) == 0 {
				return nil
			}
			y := enums[r.N(len(enums))]
			y.NoAlias = true
			y.Raw = append(y.Raw, stmt)
			where = y.Full()
		default:
			f.RawHead = append(f.RawHead, stmt)
			f.Presence, f.RepEnc = "", ""
		}
		ft.What = fmt.Sprintf("option %s is %s in %s", x, v, where)
	case "required":
		if f.Syntax == "proto2" {
			return nil
		}
		m := msgs[r.N(len(msgs))]
		x := m.Fields[r.N(len(m.Fields))]
		if x.Oneof != nil || x.Map {
			return nil
		}
		x.Label, x.Packed, x.Presence, x.RepEnc = Required, nil, "", ""
		ft.What = fmt.Sprintf("field %s.%s is required", m.Full(), x.Name)
	case "escape":
		esc := []string{`\q`, `\x`, `\xg`, `\u12`, `\u12x4`, `\U1234567`, `\8`, `\-`, `\ `, `\e`, `\N`, `\_`, `\Uffffffff`}[r.N(13)]
		end := []string{"", "b", ".proto", "z12345678"}[r.N(4)]
		if end == "b" && esc == `\x` { // which is fine
			end = ""
		}
		s := `"` + []string{"", "a", "x/", `\n`, `\x41`}[r.N(5)] + esc + end + `"`
		k := r.N(6)
		switch {
		case k == 0:
			f.RawHead = append(f.RawHead, []string{"option", "java_package", "=", s, ";"})
		case k == 1:
			f.RawHead = append(f.RawHead, []string{"import", s, ";"})
		case k == 2:
			f.RawSyntax = []string{"syntax", "=", s, ";"}
		case k == 3 && len(msgs) > 0:
			m := msgs[r.N(len(msgs))]
			m.Raw = append(m.Raw, []string{"reserved", s, ";"})
		case k == 4 && len(enums) > 0:
			e := enums[r.N(len(enums))]
			e.Raw = append(e.Raw, []string{"reserved", s, ";"})
		case len(msgs) > 0:
			m := msgs[r.N(len(msgs))]
			x := m.Fields[r.N(len(m.Fields))]
			x.RawOpt, x.JSON = []string{"json_name", s}, ""
		default:
			return nil
		}
		ft.What = fmt.Sprintf("string %s (%d)", s, k)
	case "map-key":
		var m *Msg
		var x *Field
		for _, y := range msgs {
			for _, z := range y.Fields {
				if z.Map && (x == nil || r.P(30)) {
					m, x = y, z
				}
			}
		}
		if x == nil {
			return nil
		}
		x.RawKey = []string{"float", "double", "bytes", m.Name, "Missing", "int", "map", "group", "repeated"}[r.N(9)]
		if len(enums) > 0 && r.P(40) {
			x.RawKey = "." + enums[r.N(len(enums))].Full()
		}
		ft.What = fmt.Sprintf("map %s.%s with keys of type %s", m.Full(), x.Name, x.RawKey)
	case "number-syntax":
		n := []string{"-1", "- 1", "1.5", "1.0", "1e1", "08", "09", "0x", "0xg", "1_0", "+1", "0x1g", "1u", `"1"`, "max", "inf", "true", "x", "0b1", "1 to 2", "1, 2", "(1)", "1f", "--1", ".5"}[r.N(25)]
		if len(enums) > 0 && r.P(40) && !strings.HasPrefix(n, "-1") && !strings.HasPrefix(n, "- 1") {
			e := enums[r.N(len(enums))]
			v := e.Values[r.N(len(e.Values))]
			v.RawNum = []string{n}
			ft.What = fmt.Sprintf("enum value %s.%s is %s", e.Full(), v.Name, n)
			break
		}
		m := msgs[r.N(len(msgs))]
		x := m.Fields[r.N(len(m.Fields))]
		x.RawNum = n
		ft.What = fmt.Sprintf("field %s.%s has the number %s", m.Full(), x.Name, n)
	case "reserved-syntax":
		n := []string{"08", "0x", "1.5", "1e1", "to 5", "5 to", "max", "max to max", "1 to 2 to 3", "5 -", "1, ", ", 1", `1, "x"`, `"x", 1`, "1 2", `"x" to "y"`, "true", pow2(63, 0), pow2(64, 1), "1 to " + pow2(63, 0), pow2(80, 0) + " to max", "1 max"}[r.N(22)]
		st := []string{"reserved", n, ";"}
		if len(enums) > 0 && r.P(40) {
			e := enums[r.N(len(enums))]
			e.Raw = append(e.Raw, st)
			ft.What = fmt.Sprintf("enum %s: reserved %s", e.Full(), n)
			break
		}
		if len(msgs) == 0 {
			return nil
		}
		m := msgs[r.N(len(msgs))]
		m.Raw = append(m.Raw, st)
		ft.What = fmt.Sprintf("message %s: reserved %s", m.Full(), n)
	}
	return ft
}

func has(fs []*File, f *File) bool {
	for _, x := range fs {
		if x == f {
			return true
		}
	}
	return false
}

func signed(r *model.Rng, n string) []string {
	if n[0] == '-' {
		return []string{"-", spell(r, n[1:])}
	}
	return []string{spell(r, n)}
}

// pickRange makes a range inside lo..hi which has n in it.
func pickRange(r *model.Rng, n, lo, hi int64) Range {
	near := func(d int64) int64 {
		switch r.N(4) {
		case 0:
			return 0
		case 1:
			return min(d, int64(r.N(3)))
		case 2:
			return d
		}
		if d == 0 {
			return 0
		}
		return int64(r.U64() % uint64(d+1))
	}
	return Range{n - near(n-lo), n + near(hi-n)}
}

func rangeText(r *model.Rng, x Range, max bool, top int64) string {
	lo, hi := signed(r, fmt.Sprint(x.Lo)), signed(r, fmt.Sprint(x.Hi))
	if x.Lo == x.Hi && r.P(60) {
		return strings.Join(lo, " ")
	}
	if x.Hi == top && max && r.P(50) {
		hi = []string{"max"}
	}
	return strings.Join(lo, " ") + " to " + strings.Join(hi, " ")
}

func names(r *model.Rng, name string) []string {
	out := []string{"reserved"}
	n := 1 + r.N(3)
	at := r.N(n)
	for i := 0; i < n; i++ {
		x := fmt.Sprintf("rsv_%d", i)
		if i == at {
			x = name
		}
		if i > 0 {
			out = append(out, ",")
		}
		q := []string{`"`, `'`}[r.N(2)]
		if k := len(x); k > 1 && r.P(20) {
			out = append(out, q+x[:1]+q, q+x[1:]+q)
		} else if r.P(15) {
			out = append(out, fmt.Sprintf(`"\x%02x%s"`, x[0], x[1:]))
		} else {
			out = append(out, q+x+q)
		}
	}
	return append(out, ";")
}

// Lex splits a .proto text into its tokens, white space and comments; joined they are the text.
func Lex(s string) (out []string) {
	for i := 0; i < len(s); {
		j := i + 1
		switch c := s[i]; {
		case c == '"' || c == '\'':
			for j < len(s) && s[j] != c && s[j] != '\n' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
		case strings.HasPrefix(s[i:], "//"):
			for j < len(s) && s[j] != '\n' {
				j++
			}
		case strings.HasPrefix(s[i:], "/*"):
			if k := strings.Index(s[i+2:], "*/"); k >= 0 {
				j = i + 2 + k + 2
			} else {
				j = len(s)
			}
		case word(c):
			for j < len(s) && word(s[j]) {
				j++
			}
		case c <= ' ':
			for j < len(s) && s[j] <= ' ' {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return
}

// Blank tells whether a piece of Lex is white space or a comment.
func Blank(s string) bool {
	return s[0] <= ' ' || strings.HasPrefix(s, "//") || strings.HasPrefix(s, "/*")
}

// Clone copies the set so that faults may be put into it; declarations refer to those of the copy.
func (s *Set) Clone() *Set {
	files := map[*File]*File{}
	msgs := map[Decl]*Msg{}
	enums := map[Decl]*Enum{}
	out := &Set{}
	enum := func(e *Enum, parent *Msg, f *File) *Enum {
		x := *e
		x.Parent, x.File = parent, f
		x.Values = nil
		for _, v := range e.Values {
			y := *v
			x.Values = append(x.Values, &y)
		}
		enums[e] = &x
		return &x
	}
	var msg func(m, parent *Msg, f *File) *Msg
	msg = func(m, parent *Msg, f *File) *Msg {
		x := *m
		x.Parent, x.File = parent, f
		x.Fields, x.Oneofs, x.Msgs, x.Enums = nil, nil, nil, nil
		of := map[*Oneof]*Oneof{}
		for _, o := range m.Oneofs {
			y := &Oneof{Name: o.Name}
			of[o] = y
			x.Oneofs = append(x.Oneofs, y)
		}
		for _, fd := range m.Fields {
			y := *fd
			y.Parent, y.File = &x, f
			if fd.Oneof != nil {
				y.Oneof = of[fd.Oneof]
				y.Oneof.Fields = append(y.Oneof.Fields, &y)
			}
			x.Fields = append(x.Fields, &y)
		}
		for _, n := range m.Msgs {
			x.Msgs = append(x.Msgs, msg(n, &x, f))
		}
		for _, n := range m.Enums {
			x.Enums = append(x.Enums, enum(n, &x, f))
		}
		msgs[m] = &x
		return &x
	}
	for _, f := range s.Files {
		if f.Known != nil {
			out.Files = append(out.Files, f)
			continue
		}
		x := *f
		files[f] = &x
		x.Msgs, x.Enums = nil, nil
		for _, m := range f.Msgs {
			x.Msgs = append(x.Msgs, msg(m, nil, &x))
		}
		for _, e := range f.Enums {
			x.Enums = append(x.Enums, enum(e, nil, &x))
		}
		out.Files = append(out.Files, &x)
	}
	toMsg := func(m *Msg) *Msg {
		if y := msgs[m]; y != nil {
			return y
		}
		return m
	}
	for _, f := range s.Files {
		x := files[f]
		if x == nil {
			continue
		}
		x.Imports = nil
		for _, i := range f.Imports {
			y := *i
			if files[i.F] != nil {
				y.F = files[i.F]
			}
			x.Imports = append(x.Imports, &y)
		}
		for _, m := range x.AllMsgs() {
			for _, fd := range m.Fields {
				switch d := fd.Ref.(type) {
				case *Msg:
					fd.Ref = toMsg(d)
				case *Enum:
					if y := enums[d]; y != nil {
						fd.Ref = y
					}
				}
			}
		}
		x.Services = nil
		for _, v := range f.Services {
			y := *v
			y.File = x
			y.Methods = nil
			for _, m := range v.Methods {
				z := *m
				z.In, z.Out = toMsg(m.In), toMsg(m.Out)
				y.Methods = append(y.Methods, &z)
			}
			x.Services = append(x.Services, &y)
		}
	}
	return out
}
