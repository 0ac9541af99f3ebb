package sg

import (
	"fmt"
	"strconv"
	"strings"

	"vharness/model"
)

// Style of the text.
type Style struct {
	Wild     bool // random white space, number and string spellings, order of statements
	Comments int  // percentage of places with a comment (Wild only)
	Hostile  bool // comments of odd content
	Decor    bool // custom options, extensions, unused statements
	FullRefs bool // leading-dot names only
	NoExtend bool // no extend blocks

	// Rec, if set, is called with each option of a declaration (*File, *Msg, *Field,
	// *Oneof, *Enum, *Value, *Service, *Method) in the order printed. val is the value it
	// has, or NoWant.
	Rec func(owner any, name, val string)
}

type pr struct {
	*model.Rng
	st    Style
	f     *File
	b     strings.Builder
	scope *Scope
	last  string
	ind   int
	nExt  int
	decor bool
}

// Print renders a file.
func Print(r *model.Rng, f *File, st Style) string {
	p := &pr{Rng: r, st: st, f: f, scope: NewScope(f), decor: st.Decor && r.P(70)}
	p.file()
	return p.b.String()
}

func word(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// oddWords are rare in hostile comments.
var oddWords = []string{"\ufeff", "\u2028", "\x7f", "\x01\x02", "\xff\xe9", "\f", "\v", "//", "DO NOT EDIT.", "go:build ignore", "+build ignore", "go:build", "+build", "*\ufeff/", "export M", "package x"}

var commentWords = strings.Fields("a the field message of { } ; = \" ' ` % %s %d %!v(MISSING) \\ \\n \\x // TODO: option int32 */x package ) ( ] [ $1 é 日本 \u00a0 |- # @ \t")

// Comment makes one comment; single tells whether it must stay on one line and end without newline.
func Comment(r *model.Rng, hostile, block bool) string {
	text := ""
	n := r.N(5)
	for i := 0; i < n; i++ {
		w := "x"
		if hostile {
			w = commentWords[r.N(len(commentWords))]
			if r.P(5) {
				w = oddWords[r.N(len(oddWords))]
			}
		} else {
			w = []string{"some", "words", "here", "field", "1.5"}[r.N(5)]
		}
		if i > 0 {
			text += " "
		}
		text += w
	}
	if !block {
		if strings.HasPrefix(text, "prutalgen") {
			text = " " + text
		}
		return "//" + []string{"", " ", "  ", "/", "\t"}[r.N(5)] + text
	}
	if hostile && r.P(50) {
		text = []string{"", " ", "*", "\n", "\n * a\n * b\n", "\n\n\nx\n", " ** ", "//", " // \n", "\"", "*\n\t*\n"}[r.N(11)] + text + []string{"", " ", "\n", "*", "\r\n", "/"}[r.N(6)]
	} else {
		text = " " + text + " "
	}
	text = strings.ReplaceAll(text, "*/", "* /")
	// protoc does not want the start of a comment in a comment
	text = strings.ReplaceAll(text, "/*", "/ *")
	if strings.HasPrefix(text, "/") {
		text = " " + text
	}
	if strings.HasSuffix(text, "/") {
		text += " "
	}
	text = strings.ReplaceAll(text, "*/", "* /")
	return "/*" + text + "*/"
}

func (p *pr) ws() string {
	if !p.st.Wild {
		return " "
	}
	if p.P(p.st.Comments) {
		if p.P(50) {
			return " " + Comment(p.Rng, p.st.Hostile, true) + " "
		}
		return " " + Comment(p.Rng, p.st.Hostile, false) + "\n"
	}
	switch p.N(14) {
	case 0:
		return "\n"
	case 1:
		return "\t"
	case 2:
		return "  "
	case 3:
		return "\r\n"
	case 4:
		return "\n\n\n   "
	case 5:
		return " \f "
	}
	return " "
}

func (p *pr) t(toks ...string) {
	for _, s := range toks {
		if p.last != "" {
			a, b := p.last[len(p.last)-1], s[0]
			must := word(a) && word(b) || a == '"' && b == '"' || a == '\'' && b == '\''
			switch {
			case p.st.Wild && !must && p.P(45):
			case !p.st.Wild && !must && (strings.IndexByte(";,)]>", b) >= 0 || strings.IndexByte("([<", a) >= 0 || b == '<' || a == '.' || b == '.'):
			default:
				p.b.WriteString(p.ws())
			}
		}
		p.b.WriteString(s)
		p.last = s
	}
}

func (p *pr) nl() {
	p.last = ""
	p.b.WriteByte('\n')
	p.b.WriteString(strings.Repeat("  ", p.ind))
}

// decl prints a declaration on lines of its own, with what stands above and after it.
func (p *pr) decl(a *Annot, body func()) {
	if a != nil && len(a.Head) > 0 {
		p.last = ""
		p.b.WriteString("\n")
		p.nl()
		for _, h := range a.Head {
			p.b.WriteString(h)
			p.nl()
		}
	} else if !p.st.Wild || p.P(80) || a != nil && a.Inline != "" || p.st.Comments == 0 {
		p.nl()
	}
	body()
	if a != nil && a.Inline != "" {
		p.b.WriteString([]string{"", " ", "\t"}[p.N(3)] + a.Inline)
		p.nl()
	}
}

// str spells a string literal.
func (p *pr) str(s string) []string {
	if !p.st.Wild {
		return []string{strconv.Quote(s)}
	}
	var out []string
	for {
		n := len(s)
		if n > 1 && p.P(12) {
			n = 1 + p.N(n-1)
		}
		q := []string{`"`, `'`}[p.N(2)]
		var b strings.Builder
		b.WriteString(q)
		for i := 0; i < n; i++ {
			c := s[i]
			switch {
			case c == q[0] || c == '\\' || c < ' ' || c >= 0x7f || p.P(3):
				if p.P(50) {
					fmt.Fprintf(&b, "\\x%02x", c)
				} else {
					fmt.Fprintf(&b, "\\%03o", c)
				}
			default:
				b.WriteByte(c)
			}
		}
		b.WriteString(q)
		out = append(out, b.String())
		s = s[n:]
		if s == "" {
			return out
		}
	}
}

// num spells an integer.
func (p *pr) num(n int64) []string {
	var out []string
	if n < 0 {
		out = append(out, "-")
		n = -n
	}
	if p.st.Wild {
		switch p.N(12) {
		case 0:
			return append(out, fmt.Sprintf("0x%x", n))
		case 1:
			return append(out, fmt.Sprintf("0X%X", n))
		case 2:
			return append(out, fmt.Sprintf("0%o", n))
		}
	}
	return append(out, fmt.Sprint(n))
}

// firstKeyword lists words which do not start a type name where a field may stand.
var firstKeyword = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`message enum extensions extend option oneof reserved map optional repeated required group stream
 int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string double float bytes inf nan true false`) {
		firstKeyword[w] = true
	}
}

// Ref spells a reference to d made in the scope.
func (p *pr) ref(scope string, d Decl, typesOnly bool, spell string) []string {
	if spell != "" {
		return splitDots(spell)
	}
	all := Spellings(d)
	s := all[0]
	if !p.st.FullRefs {
		s = all[p.N(len(all))]
		if p.P(30) {
			s = all[len(all)-1]
		}
		first, _, _ := strings.Cut(s, ".")
		if s[0] != '.' && (firstKeyword[first] || p.scope.Resolve(scope, s, typesOnly) != d) {
			s = all[0]
		}
	}
	if p.st.Wild && p.P(5) {
		return splitDots(s)
	}
	return []string{s}
}

func splitDots(s string) (out []string) {
	for s != "" {
		i := strings.IndexByte(s, '.')
		switch {
		case i < 0:
			return append(out, s)
		case i > 0:
			out = append(out, s[:i])
		}
		out = append(out, ".")
		s = s[i+1:]
	}
	return
}

// rec tells about an option which was printed.
func (p *pr) rec(owner any, name, val string) {
	if p.st.Rec != nil {
		p.st.Rec(owner, name, val)
	}
}

// stmt prints an option statement.
func (p *pr) stmt(owner any, c opt) {
	p.rec(owner, c.name, c.want)
	p.t("option", c.name, "=")
	p.t(c.val...)
	p.t(";")
}

func (p *pr) option(owner any, name, want string, val ...string) {
	p.rec(owner, name, want)
	p.decl(nil, func() {
		p.t("option", name, "=")
		p.t(val...)
		p.t(";")
	})
}

func (p *pr) file() {
	f := p.f
	if f.Annot != nil {
		for _, h := range f.Annot.Head {
			p.b.WriteString(h + "\n")
		}
	} else if p.st.Wild && p.P(30) {
		p.b.WriteString(Comment(p.Rng, p.st.Hostile, false) + "\n\n")
	}
	switch {
	case f.RawSyntax != nil:
		p.t(f.RawSyntax...)
	case f.Syntax == "2023":
		p.t("edition", "=")
		p.t(p.str("2023")...)
		p.t(";")
	case f.Syntax == "proto2" && p.P(20) && !p.st.Hostile && f.Annot == nil: // the default
		p.b.Reset()
		p.last = ""
	default:
		p.t("syntax", "=")
		p.t(p.str(f.Syntax)...)
		p.t(";")
	}
	var head, body []func()
	if f.Pkg != "" {
		head = append(head, func() {
			p.decl(nil, func() {
				p.t("package")
				if p.st.Wild && p.P(20) {
					p.t(splitDots(f.Pkg)...)
				} else {
					p.t(f.Pkg)
				}
				p.t(";")
			})
		})
	}
	for _, i := range f.Imports {
		i := i
		head = append(head, func() {
			p.decl(nil, func() {
				p.t("import")
				if i.Public {
					p.t("public")
				}
				p.t(p.str(i.F.Path)...)
				p.t(";")
			})
		})
	}
	for _, i := range f.RawImports {
		i := i
		head = append(head, func() {
			p.decl(nil, func() {
				p.t("import")
				if p.P(20) {
					p.t("public")
				}
				p.t(p.str(i)...)
				p.t(";")
			})
		})
	}
	head = append(head, p.raw(f.RawHead)...)
	if p.decor {
		head = append(head, func() { p.decl(nil, func() { p.t("import", `"decor.proto"`, ";") }) })
	}
	if f.Gogo {
		head = append(head, func() { p.decl(nil, func() { p.t("import", `"gogoproto/gogo.proto"`, ";") }) })
	}
	var opts []func()
	if !f.NoGoPkg && (!f.ViaM || f.LieGoPkg != "") {
		s := f.GoPackageOption()
		if f.LieGoPkg != "" {
			s = f.LieGoPkg
		}
		opts = append(opts, func() { p.option(f, "go_package", s, p.str(s)...) })
	}
	for _, o := range p.features(f.Syntax, [][2]string{{"field_presence", f.Presence}, {"repeated_field_encoding", f.RepEnc}, {"enum_type", f.EnumType}},
		[][2]string{{"utf8_validation", "VERIFY"}, {"utf8_validation", "NONE"}, {"message_encoding", "LENGTH_PREFIXED"}, {"json_format", "ALLOW"}, {"json_format", "LEGACY_BEST_EFFORT"}}) {
		o := o
		opts = append(opts, func() { p.option(f, o.name, o.want, o.val...) })
	}
	if f.Annot != nil {
		for _, k := range sortedKeys(f.Annot.Opts) {
			k := k
			opts = append(opts, func() { p.option(f, k, f.Annot.Opts[k], f.Annot.Opts[k]) })
		}
	}
	if p.st.Decor {
		if p.P(30) {
			opts = append(opts, func() { p.option(f, "java_package", "com.example.foo", `"com.example.foo"`) })
		}
		if p.P(20) {
			opts = append(opts, func() { p.option(f, "optimize_for", "SPEED", "SPEED") })
		}
		if p.P(20) {
			opts = append(opts, func() { p.option(f, "cc_enable_arenas", "true", "true") })
		}
	}
	if p.decor {
		for _, c := range p.customs("File", 40) {
			c := c
			opts = append(opts, func() { p.option(f, c.name, c.want, c.val...) })
		}
	}
	if p.st.Wild && p.P(50) {
		head = append(head, opts...)
		p.Shuffle(len(head), func(i, j int) { // imports keep their order
			if !p.isImport(i, f) && !p.isImport(j, f) {
				head[i], head[j] = head[j], head[i]
			}
		})
	} else {
		head = append(head, opts...)
	}
	for _, m := range f.Msgs {
		m := m
		body = append(body, func() { p.msg(m) })
	}
	es, ss := []func(){}, []func(){}
	for _, e := range f.Enums {
		e := e
		es = append(es, func() { p.enum(e) })
	}
	for _, s := range f.Services {
		s := s
		ss = append(ss, func() { p.service(s) })
	}
	body = p.merge(body, es, ss, p.raw(f.RawBody))
	if p.decor && !p.st.NoExtend && p.P(40) && f.Syntax == "proto2" {
		body = append(body, func() { p.extend("") })
	}
	for _, x := range f.Extra {
		x := x
		body = append(body, func() { p.nl(); p.b.WriteString(x.Text) })
	}
	all := append(head, body...)
	if p.st.Wild && p.P(30) { // anything in any order, except that import order matters to the descriptor
		all = p.merge(head, body)
	}
	for _, fn := range all {
		fn()
		if p.st.Wild && p.P(5) {
			p.t(";")
		}
	}
	if f.Annot != nil && f.Annot.Inline != "" {
		p.nl()
		p.b.WriteString(f.Annot.Inline)
	}
	if !p.st.Wild || p.P(80) {
		p.b.WriteString("\n")
	}
	if p.st.Wild && p.P(p.st.Comments) {
		p.b.WriteString(Comment(p.Rng, p.st.Hostile, p.P(50)))
	}
}

func (p *pr) isImport(i int, f *File) bool {
	lo := 0
	if f.Pkg != "" {
		lo = 1
	}
	return i >= lo && i < lo+len(f.Imports)
}

// merge interleaves the lists at random when the style is wild.
func (p *pr) merge(lists ...[]func()) (out []func()) {
	if !p.st.Wild {
		for _, l := range lists {
			out = append(out, l...)
		}
		return
	}
	for {
		var live []int
		for i, l := range lists {
			for range l {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			return
		}
		i := live[p.N(len(live))]
		out = append(out, lists[i][0])
		lists[i] = lists[i][1:]
	}
}

// opt is an option as printed; want is what its value means, "" if that is not compared.
type opt struct {
	name, want string
	val        []string
}

// NoWant stands for a value which is not compared.
const NoWant = "\x00no"

// custom makes a custom option for a kind of declaration.
func (p *pr) custom(kind string) opt {
	k := strings.ToLower(kind)
	plain := func(name string, val ...string) opt { return opt{name, strings.Join(val, ""), val} }
	switch p.N(9) {
	case 0:
		return plain("(vdecor."+k+"_i)", p.num(int64(p.N(1000))-500)...)
	case 1:
		x := []string{"", "plain", "q'\"\\\n\x00", "// no comment", "{ } ;", "%s `x`"}[p.N(6)]
		return opt{"(vdecor." + k + "_s)", x, p.str(x)}
	case 2:
		return plain("(vdecor."+k+"_e)", "VE_ONE")
	case 3:
		return plain("(vdecor."+k+"_b)", []string{"true", "false"}[p.N(2)])
	case 4:
		return plain("(vdecor."+k+"_d)", []string{"1.5", "1e10", ".5", "2.", "1E-3", "3"}[p.N(6)])
	case 5:
		return plain("(vdecor."+k+"_d)", "-", []string{"1.5", "0x7", "7"}[p.N(3)])
	case 6:
		return opt{"(vdecor." + k + "_m)", NoWant, []string{"{", "i", ":", "1", "s", ":", `"x"`, "}"}}
	case 7:
		return opt{"(vdecor." + k + "_m)", NoWant, []string{"{", "}"}}
	default:
		return opt{"(vdecor." + k + "_m).s", "a;b", p.str("a;b")}
	}
}

// customs makes custom options, each at most once.
func (p *pr) customs(kind string, pct int) []opt {
	var out []opt
	seen := map[string]bool{}
	for p.decor && p.P(pct) {
		o := p.custom(kind)
		k, _, _ := strings.Cut(o.name, ")")
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, o)
	}
	return out
}

func (p *pr) extend(parent string) {
	p.nl()
	p.t("extend", ".vdecor.Ext", "{")
	for i := 1 + p.N(3); i > 0; i-- {
		p.nExt++
		p.t([]string{"optional", "repeated"}[p.N(2)], []string{"int32", "string", ".vdecor.Msg", ".vdecor.VE"}[p.N(4)], fmt.Sprintf("vx_%s_%d", parent, p.nExt), "=")
		p.t(p.num(int64(1000 + HashNum(p.f.Path+parent, p.nExt)))...)
		p.t(";")
	}
	p.t("}")
}

// HashNum spreads extension numbers.
func HashNum(s string, i int) int { return int(model.HashStr(fmt.Sprint(s, i)) % 500000000) }

func (p *pr) msg(m *Msg) {
	p.decl(&m.Annot, func() {
		p.t("message", m.Name, "{")
		p.ind++
		var fields, msgs, enums, rest []func()
		for i := 0; i < len(m.Fields); i++ {
			x := m.Fields[i]
			if x.Oneof == nil {
				fields = append(fields, func() { p.field(x) })
				continue
			}
			o := x.Oneof
			fields = append(fields, func() { p.oneof(o) })
			i += len(o.Fields) - 1
		}
		for _, x := range m.Msgs {
			x := x
			msgs = append(msgs, func() { p.msg(x) })
		}
		for _, x := range m.Enums {
			x := x
			enums = append(enums, func() { p.enum(x) })
		}
		rest = append(rest, p.reserved("reserved", m.Reserved, m.ReservedNames, 1<<29-1)...)
		rest = append(rest, p.raw(m.Raw)...)
		rest = append(rest, p.reserved("extensions", m.ExtRanges, nil, 1<<29-1)...)
		if m.Deprecated {
			rest = append(rest, func() { p.option(m, "deprecated", "true", "true") })
		}
		for _, k := range sortedKeys(m.Annot.Opts) {
			k := k
			rest = append(rest, func() { p.option(m, k, m.Annot.Opts[k], m.Annot.Opts[k]) })
		}
		for _, c := range p.customs("Message", 15) {
			c := c
			rest = append(rest, func() { p.option(m, c.name, c.want, c.val...) })
		}
		if p.decor && !p.st.NoExtend && p.P(8) && m.Parent == nil && m.File.Syntax == "proto2" {
			rest = append(rest, func() { p.extend(m.Name) })
		}
		for _, fn := range p.merge(msgs, enums, rest, fields) {
			fn()
			if p.st.Wild && p.P(3) {
				p.t(";")
			}
		}
		p.ind--
		if !p.st.Wild || p.P(50) {
			p.nl()
		}
		p.t("}")
	})
}

func (p *pr) reserved(kw string, rs []Range, names []string, max int64) (out []func()) {
	if len(rs) > 0 {
		out = append(out, func() {
			p.decl(nil, func() {
				p.t(kw)
				for i, r := range rs {
					if i > 0 {
						p.t(",")
					}
					p.t(p.num(r.Lo)...)
					if r.Hi == max {
						p.t("to", "max")
					} else if r.Hi != r.Lo || p.st.Wild && p.P(10) {
						p.t("to")
						p.t(p.num(r.Hi)...)
					}
				}
				p.t(";")
			})
		})
	}
	if len(names) > 0 {
		out = append(out, func() {
			p.decl(nil, func() {
				p.t(kw)
				for i, n := range names {
					if i > 0 {
						p.t(",")
					}
					p.t(p.str(n)...)
				}
				p.t(";")
			})
		})
	}
	return
}

func (p *pr) raw(stmts [][]string) (out []func()) {
	for _, s := range stmts {
		s := s
		out = append(out, func() { p.decl(nil, func() { p.t(s...) }) })
	}
	return
}

func (p *pr) oneof(o *Oneof) {
	p.decl(nil, func() {
		p.t("oneof", o.Name, "{")
		p.ind++
		for _, c := range p.customs("Oneof", 10) {
			p.stmt(o, c)
		}
		for _, x := range o.Fields {
			p.field(x)
			if p.st.Wild && p.P(3) && p.f.Syntax == "2023" {
				p.t(";")
			}
		}
		p.ind--
		if !p.st.Wild || p.P(50) {
			p.nl()
		}
		p.t("}")
	})
}

func (p *pr) field(f *Field) {
	p.decl(&f.Annot, func() {
		switch f.Label {
		case Optional:
			p.t("optional")
		case Required:
			p.t("required")
		case Repeated:
			p.t("repeated")
		}
		typ := func() {
			if f.Ref != nil {
				p.t(p.ref(f.Parent.Full(), f.Ref, true, f.Spell)...)
			} else {
				p.t(KindName(f.Kind))
			}
		}
		if f.Map {
			k := KindName(f.Key)
			if f.RawKey != "" {
				k = f.RawKey
			}
			p.t("map", "<", k, ",")
			typ()
			p.t(">")
		} else {
			typ()
		}
		p.t(f.Name, "=")
		if f.RawNum != "" {
			p.t(f.RawNum)
		} else {
			p.t(p.num(int64(f.Num))...)
		}
		var opts []opt
		if f.Packed != nil {
			opts = append(opts, plainOpt("packed", fmt.Sprint(*f.Packed)))
		}
		var decor [][2]string
		if f.Kind == KString {
			decor = [][2]string{{"utf8_validation", "VERIFY"}, {"utf8_validation", "NONE"}}
		} else if f.Kind == KMessage && !f.Map {
			decor = [][2]string{{"message_encoding", "LENGTH_PREFIXED"}}
		}
		opts = append(opts, p.features(p.f.Syntax, [][2]string{{"field_presence", f.Presence}, {"repeated_field_encoding", f.RepEnc}}, decor)...)
		if f.Deprec {
			opts = append(opts, plainOpt("deprecated", "true"))
		}
		if f.Default != "" {
			x := plainOpt("default", f.Default)
			if f.Default[0] == '-' {
				x.val = []string{"-", f.Default[1:]}
			}
			if f.Kind == KString || f.Kind == KBytes {
				x.want = NoWant
			}
			opts = append(opts, x)
		}
		if f.JSON != "" {
			opts = append(opts, opt{"json_name", f.JSON, p.str(f.JSON)})
		}
		for _, k := range sortedKeys(f.Annot.Opts) {
			opts = append(opts, plainOpt(k, f.Annot.Opts[k]))
		}
		opts = append(opts, p.customs("Field", 12)...)
		if f.RawOpt != nil {
			opts = append(opts, opt{f.RawOpt[0], NoWant, f.RawOpt[1:]})
		}
		p.opts(f, opts)
		p.t(";")
	})
}

// features prints the features which are set, and sometimes one which changes nothing,
// each on its own or all in a block.
func (p *pr) features(syntax string, set, decor [][2]string) (out []opt) {
	if syntax != "2023" {
		return nil
	}
	if p.st.Decor && len(decor) > 0 && p.P(15) {
		set = append(set, decor[p.N(len(decor))])
	}
	if p.st.Wild {
		p.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
	}
	block := []string{"{"}
	for _, x := range set {
		if x[1] != "" {
			out = append(out, plainOpt("features."+x[0], x[1]))
			block = append(block, x[0], ":", x[1])
			if s := []string{",", ";", ""}[p.N(3)]; s != "" {
				block = append(block, s)
			}
		}
	}
	if p.st.Wild && (len(out) > 0 && p.P(25) || p.P(1)) {
		return []opt{{"features", NoWant, append(block, "}")}}
	}
	return
}

func plainOpt(name, val string) opt { return opt{name, val, []string{val}} }

func (p *pr) opts(owner any, opts []opt) {
	if len(opts) == 0 {
		return
	}
	if p.st.Wild {
		p.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	}
	p.t("[")
	for i, o := range opts {
		if i > 0 {
			p.t(",")
		}
		p.rec(owner, o.name, o.want)
		p.t(o.name, "=")
		p.t(o.val...)
	}
	p.t("]")
}

func (p *pr) enum(e *Enum) {
	p.decl(&e.Annot, func() {
		p.t("enum", e.Name, "{")
		p.ind++
		var vals, rest []func()
		rest = append(rest, p.raw(e.Raw)...)
		if e.Alias && !e.NoAlias {
			rest = append(rest, func() { p.option(e, "allow_alias", "true", "true") })
		}
		if e.Closed != "" {
			rest = append(rest, func() { p.option(e, "features.enum_type", e.Closed, e.Closed) })
		}
		for _, k := range sortedKeys(e.Annot.Opts) {
			k := k
			rest = append(rest, func() { p.option(e, k, e.Annot.Opts[k], e.Annot.Opts[k]) })
		}
		for _, c := range p.customs("Enum", 12) {
			c := c
			rest = append(rest, func() { p.option(e, c.name, c.want, c.val...) })
		}
		rest = append(rest, p.reserved("reserved", e.Reserved, e.ReservedNames, 1<<31-1)...)
		for _, v := range e.Values {
			v := v
			vals = append(vals, func() {
				p.decl(&v.Annot, func() {
					p.t(v.Name, "=")
					if v.RawNum != nil {
						p.t(v.RawNum...)
					} else {
						p.t(p.num(int64(v.Num))...)
					}
					var opts []opt
					if v.Deprec {
						opts = append(opts, plainOpt("deprecated", "true"))
					}
					opts = append(opts, p.customs("Value", 8)...)
					p.opts(v, opts)
					p.t(";")
				})
			})
		}
		for _, fn := range p.merge(rest, vals) {
			fn()
		}
		p.ind--
		if !p.st.Wild || p.P(50) {
			p.nl()
		}
		p.t("}")
	})
}

func (p *pr) service(s *Service) {
	p.decl(&s.Annot, func() {
		p.t("service", s.Name, "{")
		p.ind++
		for _, c := range p.customs("Service", 10) {
			p.stmt(s, c)
		}
		for _, m := range s.Methods {
			p.nl()
			p.t("rpc", m.Name, "(")
			if m.InS {
				p.t("stream")
			}
			p.t(p.ref(s.Full(), m.In, false, m.SpellIn)...)
			p.t(")", "returns", "(")
			if m.OutS {
				p.t("stream")
			}
			p.t(p.ref(s.Full(), m.Out, false, m.SpellOut)...)
			p.t(")")
			cs := p.customs("Method", 15)
			if len(cs) == 0 && p.P(60) {
				p.t(";")
				continue
			}
			p.t("{")
			for _, c := range cs {
				p.stmt(m, c)
			}
			p.t("}")
			if p.st.Wild && p.P(20) {
				p.t(";")
			}
		}
		p.ind--
		p.nl()
		p.t("}")
	})
}

func sortedKeys(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// DecorProto declares the custom options and the message to extend.
func DecorProto(goImport string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "syntax = \"proto2\";\npackage vdecor;\nimport \"google/protobuf/descriptor.proto\";\noption go_package = %q;\n", goImport)
	b.WriteString("enum VE { VE_ZERO = 0; VE_ONE = 1; }\nmessage Msg { optional int32 i = 1; optional string s = 2; repeated int32 r = 3; optional Msg m = 4; }\nmessage Ext { extensions 1000 to max; }\n")
	for _, k := range []string{"File", "Message", "Field", "Oneof", "Enum", "Value", "Service", "Method"} {
		opt := k + "Options"
		if k == "Value" {
			opt = "EnumValueOptions"
		}
		l := strings.ToLower(k)
		fmt.Fprintf(&b, "extend google.protobuf.%s {\n", opt)
		for i, x := range [][2]string{{"int32", "i"}, {"string", "s"}, {"VE", "e"}, {"bool", "b"}, {"double", "d"}, {"Msg", "m"}} {
			fmt.Fprintf(&b, "  optional %s %s_%s = %d;\n", x[0], l, x[1], 50001+i)
		}
		b.WriteString("}\n")
	}
	return b.String()
}

// GogoProto declares the gogoproto options prutalgen knows.
const GogoProto = `syntax = "proto2";
package gogoproto;
import "google/protobuf/descriptor.proto";
option go_package = "github.com/gogo/protobuf/gogoproto";
extend google.protobuf.EnumOptions { optional bool goproto_enum_prefix = 62001; }
extend google.protobuf.FileOptions { optional bool goproto_enum_prefix_all = 63002; optional bool goproto_unrecognized_all = 63026; }
extend google.protobuf.MessageOptions { optional bool goproto_unrecognized = 64026; }
extend google.protobuf.FieldOptions { optional bool nullable = 65001; }
`
