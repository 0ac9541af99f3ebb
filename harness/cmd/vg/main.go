// Command vg runs the monitored workloads of G01 to G13: the code generator, run as a
// process or as a library on random schemas, against protoc, the official plugin and the
// model which the schemas were made from.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

type env struct {
	*vrun.Run
	bin     string // prutalgen
	scratch string
	ck      *sg.Checker
	nDir    int

	confine  []string // command under which G13 runs prutalgen
	confined bool     // which keeps it from writing elsewhere

	uncompiled bool // take sets whose official code does not compile (names meet in Go), too
}

func main() {
	r := vrun.New()
	e := &env{Run: r, bin: r.Args["prutalgen"], scratch: r.Args["scratch"]}
	if e.scratch == "" {
		e.scratch, _ = os.MkdirTemp("", "vg")
		defer os.RemoveAll(e.scratch)
	}
	if l := r.Args["exports"]; l != "" {
		var err error
		if e.ck, err = sg.NewChecker(l); err != nil {
			harness("%v", err)
		}
	}
	props := map[string]func(*env){"G01": g01, "G02": g02, "G03": g03, "G04": g04, "G05": g05, "G06": g06, "G07": g07, "G08": g08, "G09": g09, "G10": g10, "G11": g11, "G12": g12, "G13": g13}
	fn := props[r.Prop]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Prop)
		os.Exit(2)
	}
	fn(e)
	r.Finish()
}

// harness ends the run because the machinery itself does not work.
func harness(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", a...)
	os.Exit(8)
}

// dir makes an empty scratch directory for a case.
func (e *env) dir() string {
	e.nDir++
	d := filepath.Join(e.scratch, fmt.Sprintf("d%d", e.nDir))
	if err := os.MkdirAll(d, 0o755); err != nil {
		harness("%v", err)
	}
	return d
}

// schema is one generated set, known to be valid.
type schema struct {
	set   *sg.Set
	off   *sg.Official
	pkgs  map[string]*sg.Pkg // of the official plugin
	texts map[string]string
	dir   string
	r     *model.Rng
}

// make makes a valid set, or returns nil. Invalid ones are counted as skipped.
func (e *env) make(c *vrun.Case, r *model.Rng, cfg sg.Config, st sg.Style, prep func(*sg.Set)) *schema {
	s := &schema{set: sg.Generate(r, cfg), r: r}
	var err error
	if s.off, err = sg.RunOfficial(s.set); err != nil {
		c.Add("skipped_descriptor", 1)
		debugf("descriptor: %v", err)
		return nil
	}
	if e.ck != nil {
		if s.pkgs, err = e.ck.Check(s.off.Sources); err != nil {
			debugf("official: %v", err)
			if !e.uncompiled {
				c.Add("skipped_official_does_not_compile", 1)
				return nil
			}
			c.Add("official_does_not_compile", 1)
			s.pkgs = nil
		}
	}
	if prep != nil {
		prep(s.set)
		if s.pkgs != nil && !s.distinctNames() {
			c.Add("skipped_names_meet", 1)
			return nil
		}
	}
	s.texts = s.set.Texts(r, st)
	s.dir = e.dir()
	if err := sg.Write(filepath.Join(s.dir, "in"), s.texts); err != nil {
		harness("%v", err)
	}
	if s.set.Protocable() {
		d, ok, msg, err := sg.Protoc(filepath.Join(s.dir, "in"), s.set.Paths())
		if err != nil {
			harness("protoc: %v", err)
		}
		if !ok {
			c.Add("skipped_protoc_refuses", 1)
			debugf("protoc: %s", msg)
			s.drop()
			return nil
		}
		if err := s.set.Agree(d); err != nil {
			harness("case %s: %v\n%s", c.ID, err, s.all())
		}
		c.Add("confirmed_by_protoc", 1)
	}
	for _, f := range s.set.Files {
		c.Add("files_"+f.Syntax, 1)
	}
	return s
}

func (s *schema) drop() { os.RemoveAll(s.dir) }

func debugf(format string, a ...any) {
	if os.Getenv("VG_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
}

// all shows the texts.
func (s *schema) all() string {
	var b strings.Builder
	for _, p := range s.set.Paths() {
		fmt.Fprintf(&b, "--- %s\n%s\n", p, s.texts[p])
	}
	return b.String()
}

// gen runs prutalgen on all files of the set; the tree is what it wrote.
func (e *env) gen(c *vrun.Case, s *schema, getter bool) map[string]string {
	out := fmt.Sprintf("out%v", getter)
	msg, code, err := sg.Prutalgen(sg.GenOpts{Bin: e.bin, Dir: s.dir, Includes: []string{"in"}, Out: out, Getter: getter, Opts: s.set.MOpts(), Files: s.set.GenPaths()})
	if err != nil {
		c.FailD(s.all(), "prutalgen: %v: %s", err, tail(msg))
	}
	if code != 0 {
		c.FailD(s.all(), "prutalgen refuses a valid file set: %s", tail(msg))
	}
	tree, err := sg.ReadTree(filepath.Join(s.dir, out))
	if err != nil {
		harness("%v", err)
	}
	return tree
}

// genLib does the same with the library, where more can be chosen.
func (e *env) genLib(c *vrun.Case, s *schema, getter, kitex, format bool) map[string]string {
	m := map[string]string{}
	for _, o := range s.set.MOpts() {
		f, pkg, _ := strings.Cut(o[1:], "=")
		m[f] = pkg
	}
	l := prutalgen.NewLoader([]string{filepath.Join(s.dir, "in")}, m)
	l.SetLogger(logger{})
	g := prutalgen.NewGoCodeGen()
	g.Getter, g.Format = getter, format
	if kitex {
		g.Marshaler = prutalgen.MarshalerKitexProtobuf
	}
	out := filepath.Join(s.dir, "lib")
	for _, p := range s.set.GenPaths() {
		ps, err := load(l, p)
		if err != nil {
			c.FailD(s.all(), "LoadProto(%q): %v", p, err)
		}
		if err := g.Gen(ps[0], prutalgen.GenByImport, out); err != nil {
			c.FailD(s.all(), "Gen(%q): %v", p, err)
		}
	}
	tree, err := sg.ReadTree(out)
	if err != nil {
		harness("%v", err)
	}
	c.Add("sets_by_library", 1)
	return tree
}

func tail(s string) string {
	if len(s) > 800 {
		s = s[len(s)-800:]
	}
	return s
}

func (e *env) config(r *model.Rng) sg.Config {
	cfg := sg.Config{Files: 1 + r.N(4), Msgs: 1 + r.N(4), Depth: r.N(3), Fields: 2 + r.N(9), Nasty: r.Pick(0, 15, 60), Services: r.P(40),
		WKT: r.P(30), Odd: r.P(40), MOpts: r.P(20), Scoping: r.P(20), Prefix: "gen.test/"}
	switch r.N(5) {
	case 0:
		cfg.Syntaxes = []string{"proto3"}
	case 1:
		cfg.Syntaxes = []string{"proto2"}
	case 2:
		cfg.Syntaxes = []string{"proto2", "proto3"}
	case 3:
		cfg.Syntaxes = []string{"2023"}
	default:
		cfg.Syntaxes = []string{"proto2", "proto3", "2023"}
	}
	return cfg
}

func (e *env) style(r *model.Rng) sg.Style {
	st := sg.Style{Wild: r.P(70), Decor: r.P(40)}
	if st.Wild {
		st.Comments = r.Pick(0, 0, 3, 15)
		st.Hostile = r.P(50)
	}
	return st
}
