package main

import (
	"bytes"
	"fmt"
	"go/format"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// body drops the header line which quotes the command line.
func body(s string) string {
	a, rest, ok := strings.Cut(s, "\n")
	if !ok {
		return s
	}
	_, rest, _ = strings.Cut(rest, "\n")
	return a + "\n" + rest
}

// outPath is the path below go_out which a file is written to.
func outPath(f *sg.File, relative bool) string {
	if relative {
		return strings.TrimSuffix(f.Path, ".proto") + ".pb.go"
	}
	return path.Join(f.GoImport, strings.TrimSuffix(path.Base(f.Path), ".proto")+".pb.go")
}

// variant is one way to ask for some files of a set.
type variant struct {
	cwd   string // below the directory of the case
	args  []string
	env   []string
	files []*sg.File
	out   string // below the directory of the case
	rel   bool
	tags  []string
}

// pick chooses a way to say the same thing; files in moved lie in in2 instead of in.
func (e *env) pick(r *model.Rng, s *schema, getter bool, own []*sg.File, abs string, moved map[string]bool) *variant {
	v := &variant{cwd: "."}
	tag := func(s string) { v.tags = append(v.tags, s) }
	// where it runs
	switch {
	case len(moved) == 0 && r.P(20):
		v.cwd = "in"
		tag("cwd=include")
	case r.P(15):
		v.cwd = "work"
		tag("cwd=elsewhere")
	}
	to := func(p string) string { // a path as seen from there
		rel, err := filepath.Rel(filepath.Join(abs, v.cwd), filepath.Join(abs, p))
		if err != nil {
			harness("%v", err)
		}
		return rel
	}
	dress := func(p string) string {
		switch r.N(7) {
		case 0:
			return to(p) + "/"
		case 1:
			return "./" + to(p)
		case 2:
			return filepath.Join(abs, p)
		case 3:
			return to(p) + "/."
		case 4:
			return filepath.Join(abs, p) + "/../" + filepath.Base(p)
		}
		return to(p)
	}
	// includes
	var dirs []string
	linked := false
	switch {
	case len(moved) > 0:
		dirs = []string{"in", "in2"}
		tag("two_includes")
	case v.cwd == "in" && r.P(60):
		tag("no_include")
	case r.P(20):
		dirs = []string{"in", "decoy"}
		tag("decoy_after")
	case r.P(20):
		dirs = []string{"empty", "in"}
		tag("empty_before")
	case r.P(20):
		dirs = []string{"missing", "in", "in"}
		tag("missing_before")
	case r.P(15):
		dirs = []string{"link"}
		linked = true
		tag("symlink")
	default:
		dirs = []string{"in"}
	}
	for _, d := range dirs {
		i := dress(d)
		switch r.N(6) {
		case 0:
			v.args = append(v.args, "--proto_path="+i)
		case 1:
			v.args = append(v.args, "-proto_path", i)
		case 2:
			v.args = append(v.args, "-I="+i)
		default:
			v.args = append(v.args, "-I", i)
		}
	}
	// output
	v.out = []string{"out", "o/u/t", "gen.go", "out put", "work"}[r.Pick(0, 0, 0, 1, 2, 3, 4)]
	if v.cwd == "work" && v.out == "work" && r.P(50) {
		tag("no_go_out")
	} else {
		switch r.N(3) {
		case 0:
			v.args = append(v.args, "--go_out="+dress(v.out))
		default:
			v.args = append(v.args, "-go_out", dress(v.out))
		}
	}
	// options, in any order
	var opts []string
	opts = append(opts, s.set.MOpts()...)
	for i, o := range opts {
		if r.P(15) {
			opts[i] = "M./" + o[1:]
		}
	}
	if r.P(20) {
		opts = append(opts, "Mother/"+"f.proto=other.test/x", "Mmissing.proto=y")
	}
	v.rel = r.P(40)
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	switch {
	case v.rel && r.P(30):
		opts = append([]string{"paths=import"}, append(opts, "paths=source_relative")...)
	case v.rel:
		opts = append([]string{"paths=source_relative"}, opts...)
	case r.P(30):
		opts = append(opts, "paths=import")
	}
	if v.rel {
		tag("source_relative")
	}
	for _, o := range opts {
		if r.P(30) {
			v.args = append(v.args, "--go_opt="+o)
		} else {
			v.args = append(v.args, "-go_opt", o)
		}
	}
	switch {
	case getter && r.P(30):
		v.args = append(v.args, "-gen_getter=true")
	case getter:
		v.args = append(v.args, "-gen_getter")
	case r.P(10):
		v.args = append(v.args, "-gen_getter=false")
	}
	if r.P(15) {
		v.args = append(v.args, "--")
	}
	// files
	v.files = append(v.files, own...)
	r.Shuffle(len(v.files), func(i, j int) { v.files[i], v.files[j] = v.files[j], v.files[i] })
	if r.P(60) {
		v.files = v.files[:1+r.N(len(v.files))]
		tag("subset")
	}
	if r.P(10) {
		v.files = append(v.files, v.files[0])
		tag("twice")
	}
	for _, f := range v.files {
		in := "in"
		if moved[f.Path] {
			in = "in2"
		}
		p := f.Path
		switch r.N(10) {
		case 0, 1:
			p = "./" + p
			tag("file=./")
		case 2:
			if d, b := path.Split(p); d != "" && d != "." {
				p = d + "../" + path.Base(path.Clean(d)) + "/" + b
				tag("file=..")
			}
		case 3, 4:
			if !linked {
				p = filepath.Join(abs, in, p)
				tag("file=absolute")
			}
		case 5, 6:
			if !linked {
				p = to(in + "/" + p)
				tag("file=relative_to_cwd")
			}
		}
		v.args = append(v.args, p)
	}
	// surroundings
	for _, x := range []string{"GOMAXPROCS=1", "GOGC=1", "HOME=/nonexistent", "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=C", "GOPATH=/nonexistent", "PWD=/", "GODEBUG=gctrace=0", "GOFLAGS=-mod=vendor", "COLUMNS=20"} {
		if r.P(12) {
			v.env = append(v.env, x)
		}
	}
	return v
}

func (e *env) runVariant(dir string, v *variant) (string, error) {
	var b bytes.Buffer
	cmd := exec.Command(e.bin, v.args...)
	cmd.Dir = filepath.Join(dir, v.cwd)
	cmd.Env = append(os.Environ(), v.env...)
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	return b.String(), err
}

func keys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// same compares two trees.
func same(have, want map[string]string) error {
	for _, k := range keys(want) {
		if h, ok := have[k]; !ok {
			return errf("%s is missing", k)
		} else if h != want[k] {
			return errf("%s differs: %s", k, diff(h, want[k]))
		}
	}
	for _, k := range keys(have) {
		if _, ok := want[k]; !ok {
			return errf("%s is not expected", k)
		}
	}
	return nil
}

// g06: what is generated for a file depends on the file set and the options only.
func g06(e *env) {
	e.cases("set", e.Scale(480, 8000), func(c *vrun.Case, r *model.Rng) {
		cfg := e.config(r)
		cfg.Files = 1 + r.N(5)
		cfg.WKT = r.P(50)
		cfg.MOpts = r.P(50)
		s := e.make(c, r, cfg, e.style(r), nil)
		if s == nil {
			return
		}
		defer s.drop()
		e.contexts(c, r, s)
		c.Seen(s.all())
		c.Sample(s.all())
	})
}

func (e *env) contexts(c *vrun.Case, r *model.Rng, s *schema) {
	var own []*sg.File
	for _, f := range s.set.Files {
		if f.Known == nil {
			own = append(own, f)
		}
	}
	getter := r.P(50)
	// each of them alone says what its code is
	code := map[*sg.File]string{}
	for _, f := range own {
		o := sg.GenOpts{Bin: e.bin, Dir: s.dir, Includes: []string{"in"}, Out: "alone", Getter: getter, Opts: s.set.MOpts(), Files: []string{f.Path}}
		for n := 0; n < 3; n++ {
			msg, rc, err := sg.Prutalgen(o)
			if err != nil || rc != 0 {
				c.FailD(s.all(), "prutalgen refuses %s: %v %s", f.Path, err, tail(msg))
			}
			tree, err := sg.ReadTree(filepath.Join(s.dir, "alone"))
			if err != nil {
				harness("%v", err)
			}
			if len(tree) != 1 || tree[outPath(f, false)] == "" {
				c.FailD(s.all(), "%s alone: wrote %v instead of %s", f.Path, keys(tree), outPath(f, false))
			}
			t := tree[outPath(f, false)]
			if n > 0 && t != code[f] {
				c.FailD(s.all(), "%s: two identical runs differ: %s", f.Path, diff(t, code[f]))
			}
			code[f] = t
			os.RemoveAll(filepath.Join(s.dir, "alone"))
			c.Add("identical_runs_compared", n)
		}
	}
	// surroundings: an include directory with other files of the same names, and the like
	os.Mkdir(filepath.Join(s.dir, "empty"), 0o755)
	os.Mkdir(filepath.Join(s.dir, "work"), 0o755)
	os.Symlink("in", filepath.Join(s.dir, "link"))
	decoy := map[string]string{"other.proto": "nonsense"}
	for p := range s.texts {
		decoy[p] = "syntax = \"proto3\";\npackage decoy;\noption go_package = \"decoy.test/d\";\nmessage Decoy { int32 x = 1; }\n"
	}
	if err := sg.Write(filepath.Join(s.dir, "decoy"), decoy); err != nil {
		harness("%v", err)
	}
	abs, err := filepath.Abs(s.dir)
	if err != nil {
		harness("%v", err)
	}
	for n := 0; n < 10; n++ {
		moved := map[string]bool{}
		if n >= 8 && len(own) > 1 { // spread over two directories
			for _, p := range keys(s.texts) {
				if r.P(50) {
					moved[p] = true
					to := filepath.Join(s.dir, "in2", p)
					os.MkdirAll(filepath.Dir(to), 0o755)
					if err := os.Rename(filepath.Join(s.dir, "in", p), to); err != nil {
						harness("%v", err)
					}
				}
			}
		}
		v := e.pick(r, s, getter, own, abs, moved)
		want := map[string]string{}
		outOf := map[string]*sg.File{}
		for _, f := range v.files {
			outOf[filepath.Join(v.out, outPath(f, v.rel))] = f
		}
		// what is there already
		if r.P(40) {
			junk := map[string]string{filepath.Join(v.out, "keep.txt"): "keep", filepath.Join(v.out, "old.pb.go"): "package old"}
			for p, f := range outOf {
				switch r.N(4) {
				case 0:
					junk[p] = code[f] + "\nfunc left() {}\n" + strings.Repeat("// over\n", 500)
				case 1:
					junk[p] = ""
				case 2:
					junk[p] = "nonsense {{{"
				}
				junk[filepath.Join(filepath.Dir(p), "neighbour.go")] = "package n"
			}
			if err := sg.Write(s.dir, junk); err != nil {
				harness("%v", err)
			}
			v.tags = append(v.tags, "output_exists")
		}
		// files of the same names where prutalgen runs, which is searched last
		inCwd := (v.cwd == "work" || v.cwd == ".") && r.P(50)
		if inCwd {
			if err := sg.Write(filepath.Join(s.dir, v.cwd), decoy); err != nil {
				harness("%v", err)
			}
			v.tags = append(v.tags, "decoy_in_cwd")
		}
		before, err := sg.ReadTree(s.dir)
		if err != nil {
			harness("%v", err)
		}
		msg, err := e.runVariant(s.dir, v)
		how := fmt.Sprintf("in %s with %q env %q", v.cwd, v.args, v.env)
		if err != nil {
			c.FailD(how+"\n"+s.all(), "prutalgen %s: %v %s", how, err, tail(msg))
		}
		after, err := sg.ReadTree(s.dir)
		if err != nil {
			harness("%v", err)
		}
		for p, t := range before {
			want[p] = t
		}
		for p, f := range outOf {
			want[p] = body(code[f])
			after[p] = body(after[p])
		}
		if err := same(after, want); err != nil {
			c.FailD(how+"\n"+s.all(), "prutalgen %s: %v", how, err)
		}
		for _, t := range v.tags {
			c.Add("runs_"+t, 1)
		}
		c.Add("runs", 1)
		c.Add("files_written", len(outOf))
		c.Add("files_left_alone", len(before))
		for _, d := range []string{"out", "o", "gen.go", "out put", "work"} {
			os.RemoveAll(filepath.Join(s.dir, d))
		}
		os.Mkdir(filepath.Join(s.dir, "work"), 0o755)
		if inCwd && v.cwd == "." {
			for p := range decoy {
				top, _, _ := strings.Cut(p, "/")
				os.RemoveAll(filepath.Join(s.dir, top))
			}
		}
		for p := range moved {
			if err := os.Rename(filepath.Join(s.dir, "in2", p), filepath.Join(s.dir, "in", p)); err != nil {
				harness("%v", err)
			}
		}
		os.RemoveAll(filepath.Join(s.dir, "in2"))
	}
	// one loader and one generator for all, in this process
	l := prutalgen.NewLoader([]string{filepath.Join(s.dir, "in")}, mopts(s.set))
	l.SetLogger(logger{})
	g := prutalgen.NewGoCodeGen()
	g.Getter = getter
	raw := map[*sg.File]string{} // not formatted
	for n := 2 + 2*len(own); n > 0; n-- {
		f := own[r.N(len(own))]
		ps, err := load(l, f.Path)
		if err != nil {
			c.FailD(s.all(), "a loader used before refuses %s: %v", f.Path, err)
		}
		// generate some of the files it comes with, as well
		for i, p := range ps {
			if i > 0 && r.P(60) {
				continue
			}
			var pf *sg.File
			for _, x := range own {
				if p.ProtoFile == filepath.Join(abs, "in", x.Path) {
					pf = x
				}
			}
			if pf == nil {
				continue // well-known or for options
			}
			rel := r.P(30)
			out := filepath.Join(s.dir, "lib")
			gt := prutalgen.GenByImport
			if rel {
				gt = prutalgen.GenBySourceRelative
			}
			g.Format = r.P(60)
			if err := g.Gen(p, gt, out); err != nil {
				c.FailD(s.all(), "Gen of %s: %v", p.ProtoFile, err)
			}
			tree, err := sg.ReadTree(out)
			if err != nil {
				harness("%v", err)
			}
			os.RemoveAll(out)
			for k, v := range tree {
				if !g.Format {
					v = body(v)
					if old, ok := raw[pf]; ok && old != v {
						c.FailD(s.all(), "Gen without formatting gives another text for %s: %s", pf.Path, diff(old, v))
					}
					raw[pf] = v
					b, err := format.Source([]byte(tree[k]))
					if err != nil {
						c.FailD(s.all(), "Gen without formatting of %s: %v", pf.Path, err)
					}
					tree[k] = string(b)
					c.Add("generated_unformatted", 1)
				}
				tree[k] = body(tree[k])
			}
			if err := same(tree, map[string]string{outPath(pf, rel): body(code[pf])}); err != nil {
				c.FailD(s.all(), "Gen of %s loaded with %s by a loader used before: %v", pf.Path, f.Path, err)
			}
			c.Add("generated_in_process", 1)
		}
	}
}
