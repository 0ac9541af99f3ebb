package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// site is a place where a type is named.
type site struct {
	f     *sg.File
	scope string
	field *sg.Field
	meth  *sg.Method
	in    bool // request, otherwise response
}

func sites(s *sg.Set) (out []site) {
	for _, f := range s.Files {
		if f.Known != nil {
			continue
		}
		for _, m := range f.AllMsgs() {
			for _, x := range m.Fields {
				if x.Label != sg.None || x.Kind == sg.KMessage || x.Kind == sg.KEnum {
					out = append(out, site{f: f, scope: m.Full(), field: x})
				}
			}
		}
		for _, v := range f.Services {
			for _, m := range v.Methods {
				out = append(out, site{f: f, scope: v.Full(), meth: m, in: true}, site{f: f, scope: v.Full(), meth: m})
			}
		}
	}
	return
}

// set makes the site name d, which is nil if the spelling means nothing, and returns how to undo it.
func (x site) set(d sg.Decl, spell string) (undo func()) {
	if f := x.field; f != nil {
		old := *f
		f.Spell, f.Default, f.DefVal, f.Packed, f.RepEnc = spell, "", "", nil, ""
		if f.Presence == "IMPLICIT" {
			f.Presence = ""
		}
		switch d := d.(type) {
		case *sg.Msg:
			f.Kind, f.Ref = sg.KMessage, d
		case *sg.Enum:
			f.Kind, f.Ref = sg.KEnum, d
		default:
			f.Kind, f.Ref = sg.KMessage, f.Parent // anything
		}
		return func() { *f = old }
	}
	old := *x.meth
	m, _ := d.(*sg.Msg)
	if x.in {
		x.meth.SpellIn = spell
	} else {
		x.meth.SpellOut = spell
	}
	if m != nil && x.in {
		x.meth.In = m
	} else if m != nil {
		x.meth.Out = m
	}
	return func() { *x.meth = old }
}

var identRe = regexp.MustCompile(`^\.?[A-Za-z_][A-Za-z0-9_]*(\.[A-Za-z_][A-Za-z0-9_]*)*$`)

// spelling makes up a type name which may or may not mean something at the site.
func spelling(r *model.Rng, s *sg.Set, x site, sc *sg.Scope) string {
	var decls []sg.Decl
	for _, f := range s.Files {
		if f.Known != nil && r.P(80) {
			continue
		}
		for _, m := range f.AllMsgs() {
			decls = append(decls, m)
		}
		for _, e := range f.AllEnums() {
			decls = append(decls, e)
		}
	}
	for {
		out := ""
		names := sc.Names()
		switch c := r.N(10); {
		case c < 4 && len(decls) > 0:
			all := sg.Spellings(decls[r.N(len(decls))])
			out = all[r.N(len(all))]
		case c < 6 && len(names) > 0:
			parts := strings.Split(names[r.N(len(names))], ".")
			out = strings.Join(parts[r.N(len(parts)):], ".")
			if r.P(20) {
				out = "." + out
			}
		case c < 8:
			words := strings.Fields("a b c A B C M N X foo Foo")
			for n := 1 + r.N(3); n > 0; n-- {
				out += "." + words[r.N(len(words))]
			}
			if r.P(80) {
				out = out[1:]
			}
		case len(decls) > 0:
			d := decls[r.N(len(decls))]
			all := sg.Spellings(d)
			out = all[r.N(len(all))]
			parts := strings.Split(out, ".")
			switch i := r.N(len(parts)); r.N(6) {
			case 0:
				parts = append(parts[:i:i], parts[i+1:]...)
			case 1:
				parts = append(parts, parts[i])
			case 2:
				parts[i] += "x"
			case 3:
				if n := len(parts[i]); n > 1 {
					parts[i] = parts[i][:n-1]
				}
			case 4:
				parts[i] = strings.ToUpper(parts[i])
			case 5:
				parts = append(strings.Split(x.scope, "."), parts...)
			}
			out = strings.Join(parts, ".")
		}
		first, _, _ := strings.Cut(out, ".")
		if identRe.MatchString(out) && !sg.Keyword(first) {
			return out
		}
	}
}

var unresolved = regexp.MustCompile(`is not defined|is not a type|is not a message type|seems to be defined|is resolved to|needs to be imported|map_entry|is not a message`)

// g04: names mean what protobuf's rules say, or are refused.
func g04(e *env) {
	for i := range hidden {
		h := hidden[i]
		e.Do("probe/"+h.key, func(c *vrun.Case) { e.probeRef(c, h.key, h.text) })
	}
	e.uncompiled = true
	e.cases("set", e.Scale(1400, 30000), func(c *vrun.Case, r *model.Rng) {
		cfg := e.config(r)
		cfg.Files, cfg.Msgs, cfg.Depth, cfg.Fields = 1+r.N(5), 1+r.N(4), r.N(4), 1+r.N(5)
		cfg.Scoping, cfg.Services, cfg.MOpts = r.P(85), r.P(60), false
		st := e.style(r)
		st.Decor = false
		b := &book{c: c, opts: map[any][]optRec{}, count: map[string]int{}}
		st.Rec = func(o any, name, val string) { b.opts[o] = append(b.opts[o], optRec{name, val}) }
		s := e.make(c, r, cfg, st, nil)
		if s == nil {
			return
		}
		defer s.drop()
		b.of(s)
		all := sites(s.set)
		c.Seen(s.all())
		e.resolved(c, r, b, s.pkgs != nil && r.P(40))
		for n := 8; n > 0 && len(all) > 0; n-- {
			x := all[r.N(len(all))]
			sc := sg.NewScope(x.f)
			spell := spelling(r, s.set, x, sc)
			d, why := sc.ResolveWhy(x.scope, spell, x.field != nil)
			if why == "entry" { // protoc accepts some of these
				c.Add("skipped_map_entries", 1)
				continue
			}
			if _, ok := d.(*sg.Enum); ok && x.field == nil {
				d = nil
			}
			undo := x.set(d, spell)
			if d != nil {
				off, err := sg.RunOfficial(s.set)
				if err != nil {
					c.Add("skipped_descriptor", 1)
					undo()
					continue
				}
				s.off = off
			}
			b.opts = map[any][]optRec{}
			s.texts = s.set.Texts(r, st)
			os.RemoveAll(filepath.Join(s.dir, "in"))
			if err := sg.Write(filepath.Join(s.dir, "in"), s.texts); err != nil {
				harness("%v", err)
			}
			if s.set.Protocable() {
				ds, ok, msg, err := sg.Protoc(filepath.Join(s.dir, "in"), s.set.Paths())
				if err != nil {
					harness("protoc: %v", err)
				}
				switch {
				case ok && d == nil:
					harness("case %s: protoc accepts %s in %s\n%s", c.ID, spell, x.scope, s.all())
				case ok:
					if err := s.set.Agree(ds); err != nil {
						harness("case %s: %s in %s: %v\n%s", c.ID, spell, x.scope, err, s.all())
					}
				case d != nil || !unresolved.MatchString(msg):
					if d != nil && !strings.Contains(msg, "proto3") && !strings.Contains(msg, "first value") {
						harness("case %s: protoc refuses %s in %s: %s\n%s", c.ID, spell, x.scope, msg, s.all())
					}
					c.Add("skipped_protoc_refuses", 1)
					undo()
					continue
				}
				c.Add("confirmed_by_protoc", 1)
			}
			if d != nil {
				b.of(s)
				c.Add("spellings_which_mean_something", 1)
				cli := r.P(30)
				if cli {
					var err error
					if s.pkgs, err = e.ck.Check(s.off.Sources); err != nil {
						s.pkgs = nil
					}
				}
				e.resolved(c, r, b, cli && s.pkgs != nil)
			} else {
				c.Add("spellings_which_mean_nothing", 1)
				file := x.f.Path
				if r.P(25) { // through a file which imports it
					for _, f := range s.set.Files {
						for _, i := range f.Imports {
							if i.F == x.f {
								file = f.Path
							}
						}
					}
				}
				e.refused(c, s, file, why, "the type name %s in %s means nothing", spell, x.scope)
			}
			c.Seen(s.all(), spell, x.scope)
			undo()
		}
		c.Sample(s.all())
	})
}

// resolved checks what prutalgen makes of a valid set.
func (e *env) resolved(c *vrun.Case, r *model.Rng, b *book, cli bool) {
	s := b.s
	for _, p := range s.set.Paths() {
		if !cli || r.P(30) {
			l := prutalgen.NewLoader([]string{b.in}, nil)
			l.SetLogger(logger{})
			ps, err := load(l, p)
			if err == nil {
				err = b.check(p, ps)
			}
			if err != nil {
				c.FailD(s.all(), "LoadProto(%q): %v", p, err)
			}
		}
	}
	for k, n := range b.count {
		c.Add(k, n)
	}
	b.count = map[string]int{}
	if !cli {
		return
	}
	pkgs, err := e.ck.Check(sg.GoFiles(e.gen(c, s, r.P(20))))
	if err != nil {
		c.FailD(s.all(), "the generated code does not compile: %v", err)
	}
	for _, f := range s.off.Plugin.Files {
		if f.Generate {
			if err := compareFile(c, f, s.pkgs[string(f.GoImportPath)], pkgs[string(f.GoImportPath)]); err != nil {
				c.FailD(s.all(), "%s: %v", f.Desc.Path(), err)
			}
		}
	}
}

// refused checks that a file is refused, and nothing is generated for it.
func (e *env) refused(c *vrun.Case, s *schema, file, known, format string, a ...any) {
	out := filepath.Join(s.dir, "refused")
	os.RemoveAll(out)
	msg, code, err := sg.Prutalgen(sg.GenOpts{Bin: e.bin, Dir: s.dir, Includes: []string{"in"}, Out: "refused", Opts: s.set.MOpts(), Files: []string{file}})
	if err != nil {
		c.FailD(s.all(), "prutalgen: %v: %s", err, tail(msg))
	}
	tree, err := sg.ReadTree(out)
	if err != nil {
		harness("%v", err)
	}
	if code == 0 || len(tree) > 0 {
		text := format + ", but prutalgen ends with %d and writes %d files"
		if known != "" {
			c.Known(known, text, append(a, code, len(tree))...)
			return
		}
		c.FailD(s.all(), text, append(a, code, len(tree))...)
	}
	if strings.Contains(msg, "panic:") {
		c.FailD(s.all(), "prutalgen panics: %s", tail(msg))
	}
	c.Add("refused", 1)
}

// hidden are the known cases of names which protobuf does not resolve but prutalgen does.
var hidden = []struct{ key, text string }{
	{"service", `package p; message M {} message S2 { S.M f = 1; } service S {} `},
	{"map-entry", `package p; message M { map<int32, int32> f = 1; FEntry g = 2; } message FEntry {} `},
	{"hidden", `package p; message M {} service S { rpc M(M) returns (.p.M); }`},
}

func (e *env) probeRef(c *vrun.Case, key, text string) {
	s := &schema{set: &sg.Set{}, dir: e.dir(), texts: map[string]string{"f.proto": `syntax = "proto3"; option go_package = "gen.test/p"; ` + text}}
	defer s.drop()
	sg.Write(filepath.Join(s.dir, "in"), s.texts)
	if _, ok, _, err := sg.Protoc(filepath.Join(s.dir, "in"), []string{"f.proto"}); err != nil || ok {
		harness("probe %s: protoc accepts it, %v", key, err)
	}
	e.refused(c, s, "f.proto", key, "in %s a type name means nothing (%s)", text, key)
	c.Seen(text)
}
