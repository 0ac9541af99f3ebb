package sg

import (
	"fmt"
	"path"
	"strings"

	"vharness/model"
)

// Config steers the random schemas.
type Config struct {
	Files, Msgs, Depth, Fields int
	Syntaxes                   []string
	Nasty                      int // percentage of odd names
	Services                   bool
	WKT                        bool
	Odd                        bool // unusual Go import paths and file names
	MOpts                      bool
	Scoping                    bool // few names, often shadowed
	Prefix                     string
	Cross                      bool // more imports, more references to other files
	Lies                       bool // M options override go_package and the packages of well-known types
	Enums                      int  // at least so many enums a file
}

var goodNames = strings.Fields(`a b c foo bar baz qux id user_id name value items kind status created_at Foo Bar Item
 User fooBar foo_bar x y data info node child left right total count flag text body meta extra tags key`)

var nastyNames = strings.Fields(`type func range map string int32 error nil len make interface package import select go
 defer var chan const break struct switch case default return if else for goto append cap new panic print any iota int byte rune
 bool float double bytes fixed32 sint64 uint32 sfixed64 uint64 comparable min clear String Reset ProtoMessage Marshal Unmarshal Descriptor
 ProtoReflect ExtensionMap ExtensionRangeArray get_foo GetFoo get_name Get string_ reset _ _a __b a_ a__b _1 a1 a_1 A X x p s ok
 FOO_BAR fOO URL foo__bar Foo_ foo_ message enum oneof option optional repeated reserved syntax service rpc stream returns to max true false
 extensions extend weak public edition group packed key value Key Value is IsFoo Enum Message unknownFields unknown_fields
 XXX_unrecognized xxx_x state size_cache strconv prutal proto entry FooEntry init main this self json name_ Name NAME reset_ get_reset`)

var scopeNames = strings.Fields(`a b c A B C M N`)

type gen struct {
	*model.Rng
	cfg    Config
	set    *Set
	syms   map[string]bool            // full names taken
	pkgsym map[string]bool            // those which are packages
	json   map[string]map[string]bool // per message: names which would collide
	gopkg  map[string]string          // Go import -> package name
	bases  map[string]bool
	paths  []string // odd Go paths and names of this set
	names  []string
}

// oddPair lists import paths and package names which get in each other's way.
var oddPair = [][2]string{{"a/foo", ""}, {"b/foo", ""}, {"b/foo1", "foo"}, {"c/foo1", "foo2"}, {"c/foo2", "foo1"}, {"foo", "x"}, {"x", ""}, {"y", "x"}, {"x1", "x"},
	{"init", ""}, {"y/init", "x"}, {"strconv", ""}, {"s1", "strconv"}, {"string", ""}, {"len", ""}, {"y/len", "len1"}, {"nil", ""}, {"a/int32", ""}, {"int321", "int32"},
	{"b/xfoo1", "foo"}, {"c/foo1foo1", "foo"}, {"c/foo1/foo1", "foo"}, {"d/foo1x", "foo"}, {"d/foo1/v2", "foo"}, {"d/v-foo1", "foo"}, {"d/v.foo2", "foo"}, {"d/Foo1", "foo"}}

// Generate makes a random set of files.
func Generate(r *model.Rng, cfg Config) *Set {
	g := &gen{Rng: r, cfg: cfg, set: &Set{}, syms: map[string]bool{}, pkgsym: map[string]bool{},
		json: map[string]map[string]bool{}, gopkg: map[string]string{}, bases: map[string]bool{}}
	if g.P(60) {
		for i := 0; i < 5; i++ {
			g.paths = append(g.paths, oddPaths[g.N(len(oddPaths))])
			g.names = append(g.names, oddPkgs[g.N(len(oddPkgs))])
		}
	} else {
		g.paths, g.names = oddPaths, oddPkgs
	}
	if cfg.Lies && g.P(40) {
		g.set.Known = newKnown()
		for _, f := range g.set.Known {
			if !dated[f.Path] && g.P(30) {
				f.ViaM = true
				f.GoImport, f.GoPkg = cfg.Prefix+[]string{"wkt/", "x"}[g.N(2)], []string{"wkt", "x"}[g.N(2)]
				if strings.HasSuffix(f.GoImport, "/") {
					f.GoImport += strings.TrimSuffix(path.Base(f.Path), ".proto")
				} else if n, ok := g.gopkg[f.GoImport]; ok {
					f.GoPkg = n
				}
				g.gopkg[f.GoImport] = f.GoPkg
			}
		}
	}
	n := 1 + g.N(cfg.Files)
	for i := 0; i < n; i++ {
		g.file(i)
	}
	for _, f := range g.set.Files {
		if f.Known == nil {
			g.fill(f)
		}
	}
	return g.set
}

func (g *gen) word() string {
	if g.cfg.Scoping {
		return scopeNames[g.N(len(scopeNames))]
	}
	if g.P(g.cfg.Nasty) {
		return nastyNames[g.N(len(nastyNames))]
	}
	s := goodNames[g.N(len(goodNames))]
	switch g.N(8) {
	case 0:
		s += fmt.Sprint(g.N(20))
	case 1:
		s += "_" + goodNames[g.N(len(goodNames))]
	case 2:
		s = strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func (g *gen) typeWord() string {
	s := g.word()
	if !g.cfg.Scoping && !g.P(g.cfg.Nasty) {
		s = strings.ToUpper(s[:1]) + s[1:]
	}
	if g.cfg.Cross && g.P(90) { // many files share a Go package
		s += fmt.Sprint(g.N(1000))
	}
	return s
}

func join(scope, name string) string {
	if scope == "" {
		return name
	}
	return scope + "." + name
}

// fresh returns a name free in the scope, and takes it.
func (g *gen) fresh(scope string, word func() string) string {
	for i := 0; ; i++ {
		s := word()
		if i > 6 {
			s += fmt.Sprint(i)
		}
		if !g.syms[join(scope, s)] {
			g.syms[join(scope, s)] = true
			return s
		}
	}
}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

var oddPaths = strings.Fields(`foo bar foo/bar foo/v2 bar/v2 v3 my-pkg my.pkg 123abc type func string int error strconv prutal x p ok s
 proto fmt foo_bar 1 foo-bar foo.bar a/foo b/foo c/foo1 reflect protobuf unsafe nil len map range a_b a-b/c len/len foo1 b/foo1 Foo x/x p/x append`)
var oddPkgs = strings.Fields(`foo bar foo1 foo2 x p s ok strconv prutal string int type func v2 my_pkg a protoreflect reflect fmt len append error nil a-b 1x`)

func (g *gen) file(i int) {
	f := &File{Syntax: g.cfg.Syntaxes[g.N(len(g.cfg.Syntaxes))]}
	prev := len(g.set.Files)
	// proto package
	pkgs := []string{"", "a", "a.b", "a.b.c", "b", "b.a", "a.a", "test.v1", "x.y.z", "foo", "foo.bar"}
	for {
		f.Pkg = pkgs[g.N(len(pkgs))]
		if !g.cfg.Scoping && g.P(20) {
			f.Pkg = g.word() + "." + g.word()
		}
		ok := true
		parts := strings.Split(f.Pkg, ".")
		for k := range parts {
			p := strings.Join(parts[:k+1], ".")
			if p != "" && g.syms[p] && !g.pkgsym[p] {
				ok = false
			}
		}
		if ok {
			for k := range parts {
				if p := strings.Join(parts[:k+1], "."); p != "" {
					g.syms[p], g.pkgsym[p] = true, true
				}
			}
			break
		}
	}
	// imports
	for k := 0; k < prev; k++ {
		if x := g.set.Files[k]; x.Known == nil && (g.P(45) || g.cfg.Cross && g.P(40)) {
			f.Imports = append(f.Imports, &Import{F: x, Public: g.P(25)})
		}
	}
	if g.cfg.WKT && g.P(40) {
		for _, k := range g.set.WellKnown() {
			if g.P(20) {
				f.Imports = append(f.Imports, &Import{F: k, Public: g.P(5)})
			}
		}
	}
	g.Shuffle(len(f.Imports), func(i, j int) { f.Imports[i], f.Imports[j] = f.Imports[j], f.Imports[i] })
	// Go package; sharing one must not make Go imports cyclic
	for try := 0; ; try++ {
		if try < 5 && prev > 0 && g.P(25) {
			x := g.set.Files[g.N(prev)]
			f.GoImport, f.GoPkg = x.GoImport, x.GoPkg
		} else {
			f.GoPkg = ""
			if g.cfg.Odd {
				if try < 20 && g.P(50) {
					pair := oddPair[g.N(len(oddPair))]
					f.GoImport, f.GoPkg = g.cfg.Prefix+pair[0], pair[1]
				} else if try < 20 {
					f.GoImport = g.cfg.Prefix + g.paths[g.N(len(g.paths))]
					if g.P(40) {
						f.GoPkg = g.names[g.N(len(g.names))]
					}
				} else {
					f.GoImport = g.cfg.Prefix + oddPaths[g.N(len(oddPaths))]
				}
			} else {
				f.GoImport = g.cfg.Prefix + fmt.Sprintf("p%d", i)
			}
			if _, ok := g.gopkg[f.GoImport]; ok {
				continue
			}
		}
		g.set.Files = append(g.set.Files, f)
		if !g.goCycle() {
			break
		}
		g.set.Files = g.set.Files[:prev]
	}
	g.gopkg[f.GoImport] = f.GoPkg
	f.ViaM = g.cfg.MOpts && g.P(30)
	dirs := []string{"", "a/", "b/", "a/b/", "proto/x/"}
	names := []string{"f", "schema", "types", "api"}
	if g.cfg.Odd {
		names = append(names, "my-file", "x.y", "f.pb", "foo_test", "UPPER", "f_1", "type", "f+g", "f~", "a@b", "f,g")
	}
	for {
		base := names[g.N(len(names))]
		if g.bases[f.GoImport+"/"+base] || g.P(30) {
			base += fmt.Sprint(g.N(100))
		}
		f.Path = dirs[g.N(len(dirs))] + base + ".proto"
		if !g.bases[f.GoImport+"/"+base] && !g.bases[":"+f.Path] {
			g.bases[f.GoImport+"/"+base], g.bases[":"+f.Path] = true, true
			break
		}
	}
	if strings.Contains(f.Path, ",") {
		f.ViaM = false // the official plugin splits there
	}
	if f.ViaM && g.cfg.Lies && g.P(60) {
		f.LieGoPkg = []string{"lie.test/x", "lie.test/x;lie", "x;y", ";lie", g.set.Files[g.N(len(g.set.Files))].GoImport, f.GoImport + "/x", "./x"}[g.N(7)]
		alone := true
		for _, x := range g.set.Files[:prev] {
			alone = alone && x.GoImport != f.GoImport
		}
		// the official plugin names the package after the overridden import path, prutalgen after the other
		if !strings.Contains(f.LieGoPkg, ";") && f.GoPkg == "" {
			if !alone {
				f.LieGoPkg = ""
			} else {
				f.GoPkg = fmt.Sprintf("pkg%d", i)
				g.gopkg[f.GoImport] = f.GoPkg
			}
		}
	}
	if f.Syntax == "2023" {
		if g.P(40) {
			f.Presence = []string{"EXPLICIT", "IMPLICIT"}[g.N(2)]
		}
		if g.P(40) {
			f.RepEnc = []string{"PACKED", "EXPANDED"}[g.N(2)]
		}
		if g.P(25) {
			f.EnumType = []string{"OPEN", "CLOSED"}[g.N(2)]
		}
	}
}

// goCycle tells whether the Go packages import each other in a circle.
func (g *gen) goCycle() bool {
	edges := map[string]map[string]bool{}
	for _, f := range g.set.Files {
		for _, x := range f.Visible() {
			if x.GoImport != f.GoImport {
				if edges[f.GoImport] == nil {
					edges[f.GoImport] = map[string]bool{}
				}
				edges[f.GoImport][x.GoImport] = true
			}
		}
	}
	state := map[string]int{}
	var visit func(string) bool
	visit = func(p string) bool {
		switch state[p] {
		case 1:
			return true
		case 2:
			return false
		}
		state[p] = 1
		for q := range edges[p] {
			if visit(q) {
				return true
			}
		}
		state[p] = 2
		return false
	}
	for p := range edges {
		if visit(p) {
			return true
		}
	}
	return false
}

// fill declares everything first, fields last, so that all declarations may be referred to.
func (g *gen) fill(f *File) {
	n := 1 + g.N(g.cfg.Msgs)
	if g.P(4) {
		n = 0
	}
	var msgs func(scope string, parent *Msg, n, depth int) []*Msg
	msgs = func(scope string, parent *Msg, n, depth int) (out []*Msg) {
		for i := 0; i < n; i++ {
			m := &Msg{Base: Base{Name: g.fresh(scope, g.typeWord), Parent: parent, File: f}}
			full := join(scope, m.Name)
			if parent != nil && g.P(10) { // same name as the parent
				if s := full[:strings.LastIndexByte(full, '.')]; !g.syms[s+"."+parent.Name] {
					delete(g.syms, full)
					m.Name = parent.Name
					full = s + "." + m.Name
					g.syms[full] = true
				}
			}
			if depth > 0 {
				m.Msgs = msgs(full, m, g.N(3), depth-1)
			}
			if g.P(30) {
				m.Enums = append(m.Enums, g.enum(full, m, f))
			}
			out = append(out, m)
		}
		return
	}
	f.Msgs = msgs(f.Pkg, nil, n, g.cfg.Depth)
	for i := max(g.N(3), g.cfg.Enums); i > 0; i-- {
		f.Enums = append(f.Enums, g.enum(f.Pkg, nil, f))
	}
	for _, m := range f.AllMsgs() {
		g.fields(m)
	}
	if g.cfg.Services && g.P(50) {
		for i := 1 + g.N(2); i > 0; i-- {
			g.service(f)
		}
	}
}

func (g *gen) enum(scope string, parent *Msg, f *File) *Enum {
	e := &Enum{Base: Base{Name: g.fresh(scope, g.typeWord), Parent: parent, File: f}}
	e.Alias = g.P(25)
	if f.Syntax == "2023" && g.P(20) {
		e.Closed = []string{"OPEN", "CLOSED"}[g.N(2)]
	}
	used := map[int32]bool{}
	names := map[string]bool{}
	n := 1 + g.N(6)
	up := g.P(60)
	pre := g.P(50)
	for i := 0; i < n; i++ {
		v := &Value{}
		switch {
		case i == 0 && (!e.IsClosed() || g.P(60)):
			v.Num = 0
		case e.Alias && i > 0 && (g.P(40) || i == n-1):
			v.Num = e.Values[g.N(i)].Num
		default:
			for {
				switch g.N(6) {
				case 0:
					v.Num = -int32(g.N(100))
				case 1:
					v.Num = int32(g.Pick(2147483647, -2147483648, 127, 128, 255, 256, 65536, -1, 18999, 19000, 19500, 19999, 20000, 1<<29))
				default:
					v.Num = int32(g.N(60))
				}
				if !used[v.Num] {
					break
				}
			}
		}
		used[v.Num] = true
		for {
			v.Name = g.word()
			if up {
				v.Name = strings.ToUpper(v.Name)
			}
			if pre {
				v.Name = strings.ToUpper(e.Name) + "_" + v.Name
			}
			if g.P(10) {
				v.Name = fmt.Sprintf("%s_%d", v.Name, g.N(100))
			}
			k := strings.TrimPrefix(norm(v.Name), norm(e.Name))
			if !g.syms[join(scope, v.Name)] && !names[k] && !names[norm(v.Name)] {
				g.syms[join(scope, v.Name)] = true
				names[k], names[norm(v.Name)] = true, true
				break
			}
			if g.P(10) {
				up, pre = true, true
			}
		}
		v.Deprec = g.P(4)
		e.Values = append(e.Values, v)
	}
	if e.Alias { // an alias must be there
		seen := map[int32]bool{}
		dup := false
		for _, v := range e.Values {
			dup = dup || seen[v.Num]
			seen[v.Num] = true
		}
		e.Alias = dup
	}
	if g.P(15) {
		lo := int64(200 + g.N(100))
		e.Reserved = append(e.Reserved, Range{lo, lo + int64(g.Pick(0, 0, 5, 1000))})
		if used[int32(lo)] {
			e.Reserved = nil
		}
		for n := range used {
			if len(e.Reserved) > 0 && int64(n) >= e.Reserved[0].Lo && int64(n) <= e.Reserved[0].Hi {
				e.Reserved = nil
			}
		}
		if len(e.Reserved) > 0 && g.P(20) {
			top := true
			for n := range used {
				top = top && int64(n) < 100000
			}
			if top {
				e.Reserved = append(e.Reserved, Range{100000, 1<<31 - 1})
			}
		}
	}
	if g.P(10) && f.Syntax != "2023" {
		e.ReservedNames = append(e.ReservedNames, "RES_"+fmt.Sprint(g.N(100)), "old-name")
		e.ReservedNames = e.ReservedNames[:1]
	}
	return e
}

func (g *gen) number(used map[int32]bool, m *Msg) int32 {
	for {
		var n int32
		switch g.N(10) {
		case 0:
			n = int32(g.Pick(15, 16, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 1<<29-1, 536870910))
		case 1:
			n = 1 + int32(g.N(1<<29-1))
		case 2, 3:
			n = 1 + int32(g.N(3000))
		default:
			n = 1 + int32(g.N(40))
		}
		if used[n] || n >= 19000 && n <= 19999 {
			continue
		}
		bad := false
		for _, r := range append(append([]Range{}, m.Reserved...), m.ExtRanges...) {
			bad = bad || int64(n) >= r.Lo && int64(n) <= r.Hi
		}
		if bad {
			continue
		}
		used[n] = true
		return n
	}
}

func (g *gen) fieldName(m *Msg, isMap, isOneof bool) string {
	scope := m.Full()
	js := g.json[scope]
	if js == nil {
		js = map[string]bool{}
		g.json[scope] = js
	}
	for i := 0; ; i++ {
		s := g.word()
		if !g.cfg.Scoping && g.P(60) && !g.P(g.cfg.Nasty) {
			s = strings.ToLower(s)
		}
		if i == 0 && g.P(8) { // names whose Go names meet those of other declarations
			s = g.meeting(m, s)
		}
		if i > 6 {
			s += fmt.Sprint(i)
		}
		// JSON names must differ, in proto3 even without case and underscores
		free := isOneof || m.File.Syntax == "proto2"
		if g.syms[scope+"."+s] || js[norm(s)] && !free {
			continue
		}
		if isMap {
			e := scope + "." + mapEntryName(s)
			if g.syms[e] || e == scope+"."+s {
				continue
			}
			g.syms[e] = true
		}
		js[norm(s)] = js[norm(s)] || !isOneof
		g.syms[scope+"."+s] = true
		return s
	}
}

func (g *gen) meeting(m *Msg, s string) string {
	var all []string
	for _, x := range m.Fields {
		all = append(all, "get_"+x.Name, x.Name+"_", "_"+x.Name, alike(x.Name), "Get"+x.Name)
		if x.Map {
			all = append(all, x.Name+"_entry", x.Name+"_entry")
		}
	}
	for _, o := range m.Oneofs {
		all = append(all, "get_"+o.Name, o.Name+"_", "_"+o.Name, alike(o.Name), alike(o.Name))
	}
	for _, x := range m.Msgs {
		all = append(all, strings.ToLower(x.Name[:1])+x.Name[1:])
	}
	for _, x := range m.Enums {
		all = append(all, strings.ToLower(x.Name[:1])+x.Name[1:])
	}
	if len(all) == 0 {
		return s
	}
	return all[g.N(len(all))]
}

// alike returns another name with, if possible, the same Go name.
func alike(s string) string {
	if i := strings.IndexByte(s, '_'); i > 0 && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z' {
		return s[:i] + strings.ToUpper(s[i+1:i+2]) + s[i+2:]
	}
	switch c := s[0]; {
	case c >= 'a' && c <= 'z':
		return strings.ToUpper(s[:1]) + s[1:]
	case c >= 'A' && c <= 'Z':
		return strings.ToLower(s[:1]) + s[1:]
	case c == '_':
		return "X" + s
	}
	return s + "_"
}

func (g *gen) fields(m *Msg) {
	f := m.File
	if g.P(20) {
		lo := int64(1 + g.N(60))
		m.Reserved = append(m.Reserved, Range{lo, lo + int64(g.Pick(0, 0, 1, 4))})
		if g.P(30) {
			m.Reserved = append(m.Reserved, Range{lo + 10, lo + 10})
		}
		if g.P(10) {
			m.Reserved = append(m.Reserved, Range{30000, 1<<29 - 1})
		}
	}
	if g.P(15) && f.Syntax != "2023" {
		m.ReservedNames = []string{"res_a", "res_b"}[:1+g.N(2)]
	}
	if f.Syntax != "proto3" && g.P(12) {
		lo := int64(1000 + g.N(1000))
		m.ExtRanges = append(m.ExtRanges, Range{lo, lo + int64(g.N(500))})
	}
	m.Deprecated = g.P(4)
	used := map[int32]bool{}
	n := g.N(g.cfg.Fields + 1)
	for len(m.Fields) < n {
		if g.P(12) {
			o := &Oneof{Name: g.fieldName(m, false, true)}
			m.Oneofs = append(m.Oneofs, o)
			for i := 1 + g.N(4); i > 0; i-- {
				x := g.field(m, used, o)
				o.Fields = append(o.Fields, x)
				m.Fields = append(m.Fields, x)
			}
			continue
		}
		m.Fields = append(m.Fields, g.field(m, used, nil))
	}
}

func (g *gen) msgRef(f *File) *Msg {
	vis := f.Visible()
	if g.cfg.Cross && len(vis) > 1 && g.P(60) {
		vis = vis[1:]
	}
	for i := 0; i < 10; i++ {
		ms := vis[g.N(len(vis))].AllMsgs()
		if len(ms) > 0 {
			return ms[g.N(len(ms))]
		}
	}
	return nil
}

func (g *gen) enumRef(f *File, ok func(*Enum) bool) *Enum {
	vis := f.Visible()
	for i := 0; i < 10; i++ {
		if len(vis) > 1 && i == 0 && g.P(50) { // those of other files show more
			i++
			if es := vis[1+g.N(len(vis)-1)].AllEnums(); len(es) > 0 {
				if e := es[g.N(len(es))]; ok(e) {
					return e
				}
			}
		}
		es := vis[g.N(len(vis))].AllEnums()
		if len(es) > 0 {
			if e := es[g.N(len(es))]; ok(e) {
				return e
			}
		}
	}
	return nil
}

func (f *Field) Syntax() string { return f.File.Syntax }

// Implicit tells whether a singular field has no presence.
func (f *Field) Implicit() bool {
	if f.Label == Repeated || f.Map || f.Oneof != nil || f.Kind == KMessage {
		return false
	}
	switch f.File.Syntax {
	case "proto2":
		return false
	case "proto3":
		return f.Label == None
	}
	p := f.Presence
	if p == "" {
		p = f.File.Presence
	}
	return p == "IMPLICIT"
}

func (g *gen) field(m *Msg, used map[int32]bool, o *Oneof) *Field {
	f := m.File
	x := &Field{Base: Base{Parent: m, File: f}, Oneof: o, Num: g.number(used, m)}
	x.Map = o == nil && g.P(14)
	x.Name = g.fieldName(m, x.Map, false)
	if x.Map {
		keys := []Kind{KInt32, KInt64, KUint32, KUint64, KSint32, KSint64, KFixed32, KFixed64, KSfixed32, KSfixed64, KBool, KString}
		x.Key = keys[g.N(len(keys))]
	} else if o == nil {
		switch f.Syntax {
		case "proto2":
			x.Label = []Label{Optional, Optional, Required, Repeated, Repeated}[g.N(5)]
		case "proto3":
			x.Label = []Label{None, None, Optional, Repeated, Repeated}[g.N(5)]
		default:
			x.Label = []Label{None, None, Repeated}[g.N(3)]
		}
	}
	x.Kind = Scalars[g.N(len(Scalars))]
	switch c := g.N(100); {
	case c < 30:
		if r := g.msgRef(f); r != nil {
			x.Kind, x.Ref = KMessage, r
		}
	case c < 45:
		x.Kind = KEnum
	}
	if f.Syntax == "2023" && o == nil && !x.Map && x.Label == None {
		if g.P(35) {
			x.Presence = []string{"EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED"}[g.N(3)]
		}
		if x.Kind == KMessage && x.Presence == "IMPLICIT" {
			x.Presence = ""
		}
	}
	if x.Kind == KEnum {
		r := g.enumRef(f, func(e *Enum) bool {
			if e.IsClosed() && (f.Syntax == "proto3" || x.Implicit()) {
				return false
			}
			if f.Syntax == "proto3" && e.File.Syntax == "proto2" {
				return false
			}
			return !x.Map || e.Values[0].Num == 0
		})
		if r == nil {
			x.Kind = Scalars[g.N(len(Scalars))]
		} else {
			x.Ref = r
		}
	}
	if x.Label == Repeated && x.Packable() {
		if f.Syntax == "2023" {
			if g.P(35) {
				x.RepEnc = []string{"PACKED", "EXPANDED"}[g.N(2)]
			}
		} else if g.P(40) {
			x.Packed = ptr(g.P(50))
		}
	}
	if f.Syntax != "proto3" && x.Label != Repeated && !x.Map && !x.Implicit() && g.P(10) {
		g.defaultValue(x)
	}
	if g.P(6) {
		x.JSON = fmt.Sprintf("json-%d.%s", x.Num, x.Name)
	}
	x.Deprec = g.P(4)
	return x
}

// Packable tells whether the kind may be packed.
func (f *Field) Packable() bool {
	return f.Kind != KString && f.Kind != KBytes && f.Kind != KMessage
}

// IsPacked tells whether the repeated field is packed.
func (f *Field) IsPacked() bool {
	if f.Label != Repeated || f.Map || !f.Packable() {
		return false
	}
	if f.Packed != nil {
		return *f.Packed
	}
	switch f.File.Syntax {
	case "proto2":
		return false
	case "proto3":
		return true
	}
	r := f.RepEnc
	if r == "" {
		r = f.File.RepEnc
	}
	return r != "EXPANDED"
}

func (g *gen) defaultValue(x *Field) {
	both := func(s string) { x.Default, x.DefVal = s, s }
	switch x.Kind {
	case KInt32, KSint32, KSfixed32, KInt64, KSint64, KSfixed64:
		both(fmt.Sprint(g.Pick(0, -1, 7, -2147483648, 2147483647)))
	case KUint32, KFixed32, KUint64, KFixed64:
		both(fmt.Sprint(g.Pick(0, 1, 4294967295)))
	case KBool:
		both([]string{"true", "false"}[g.N(2)])
	case KFloat, KDouble:
		both([]string{"1.5", "-2", "inf", "-inf", "nan", "0"}[g.N(6)])
	case KString, KBytes:
		v := []string{"", "abc", "a,b", "x y", "def=1,opt"}[g.N(5)]
		if v == "" {
			v = "q"
		}
		x.Default, x.DefVal = `"`+v+`"`, v
	case KEnum:
		vs := x.Ref.(*Enum).Values
		both(vs[g.N(len(vs))].Name)
	}
}

func (g *gen) service(f *File) {
	s := &Service{Base: Base{Name: g.fresh(f.Pkg, g.typeWord), File: f}}
	names := map[string]bool{}
	for i := g.N(5); i > 0; i-- {
		in, out := g.msgRef(f), g.msgRef(f)
		if in == nil || out == nil {
			break
		}
		n := g.typeWord()
		if names[n] {
			continue
		}
		names[n] = true
		s.Methods = append(s.Methods, &Method{Name: n, In: in, Out: out, InS: g.P(35), OutS: g.P(35)})
	}
	f.Services = append(f.Services, s)
}

// taken tells whether a field or oneof of m has the name.
func (m *Msg) taken(name string) bool {
	for _, f := range m.Fields {
		if f.Name == name {
			return true
		}
	}
	for _, o := range m.Oneofs {
		if o.Name == name {
			return true
		}
	}
	for _, x := range m.Msgs {
		if x.Name == name {
			return true
		}
	}
	for _, x := range m.Enums {
		if x.Name == name {
			return true
		}
		for _, v := range x.Values {
			if v.Name == name {
				return true
			}
		}
	}
	return false
}
