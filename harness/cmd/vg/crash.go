package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// g13: whatever it is given, prutalgen ends by itself, with success or a message.
func g13(e *env) {
	e.uncompiled = true
	// it must not write just anywhere
	e.confine = []string{"setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", "prlimit", "--as=3000000000", "--cpu=60"}
	for d := e.scratch; len(d) > 1; d = filepath.Dir(d) {
		if fi, err := os.Stat(d); err == nil && fi.Mode().Perm()&0o011 != 0o011 {
			os.Chmod(d, fi.Mode().Perm()|0o011)
		}
	}
	os.Chmod(filepath.Dir(e.bin), 0o755)
	if _, code, err := sg.Run("/", e.confine[0], append(append([]string{}, e.confine[1:]...), "test", "-x", e.bin)...); err != nil || code != 0 {
		e.confine = []string{"prlimit", "--as=3000000000", "--cpu=60"}
		e.confined = false
	} else {
		e.confined = true
	}
	e.cases("damage", e.Scale(700, 25000), func(c *vrun.Case, r *model.Rng) {
		cfg := e.config(r)
		cfg.Files, cfg.Msgs, cfg.Fields = 1+r.N(3), 1+r.N(4), 1+r.N(6)
		st := e.style(r)
		s := &schema{set: sg.Generate(r, cfg), r: r}
		s.texts = s.set.Texts(r, st)
		s.dir = e.dir()
		defer s.drop()
		good := s.texts
		var names []string
		for n := range good {
			names = append(names, n)
		}
		sort.Strings(names)
		for n := 8; n > 0; n-- {
			t := map[string]string{}
			for k, v := range good {
				t[k] = v
			}
			for k := 1 + r.N(4)*r.N(4); k > 0; k-- {
				f := names[r.N(len(names))]
				switch r.N(8) {
				case 0:
					t[f] = transplant(r, t[f], good[names[r.N(len(names))]])
				case 1:
					t[f] = noise(r, t[f])
				default:
					if x, _ := damage(r, t[f]); x != "" {
						t[f] = x
					}
				}
			}
			s.texts = t
			e.rewrite(s)
			e.mustEnd(c, r, s, s.set.Paths(), s.set.MOpts())
		}
	})
	e.cases("soup", e.Scale(700, 25000), func(c *vrun.Case, r *model.Rng) {
		s := &schema{set: &sg.Set{}, r: r, dir: e.dir()}
		defer s.drop()
		for n := 8; n > 0; n-- {
			s.texts = map[string]string{"a.proto": soup(r), "b/b.proto": soup(r)}
			if r.P(70) {
				s.texts = map[string]string{"a.proto": loose(r, true), "b/b.proto": loose(r, false)}
			}
			e.rewrite(s)
			e.mustEnd(c, r, s, []string{"a.proto", "b/b.proto"}, nil)
		}
	})
	e.cases("large", e.Scale(60, 1500), func(c *vrun.Case, r *model.Rng) {
		s := &schema{set: &sg.Set{}, r: r, dir: e.dir()}
		defer s.drop()
		text, files := large(r)
		s.texts = files
		if s.texts == nil {
			s.texts = map[string]string{}
		}
		s.texts["a.proto"] = text
		e.rewrite(s)
		e.mustEnd(c, r, s, []string{"a.proto"}, nil)
	})
	e.cases("imports", e.Scale(150, 5000), func(c *vrun.Case, r *model.Rng) {
		s := &schema{set: &sg.Set{}, r: r, dir: e.dir()}
		defer s.drop()
		for n := 4; n > 0; n-- {
			var args []string
			s.texts, args = graph(r)
			e.rewrite(s)
			e.mustEnd(c, r, s, args, nil)
		}
	})
	e.cases("unwritable", e.Scale(200, 6000), func(c *vrun.Case, r *model.Rng) {
		cfg := e.config(r)
		cfg.Files, cfg.Msgs = 1+r.N(3), 1+r.N(3)
		st := e.style(r)
		s := &schema{set: sg.Generate(r, cfg), r: r, dir: e.dir()}
		s.texts = s.set.Texts(r, st)
		defer s.drop()
		for n := 6; n > 0; n-- {
			e.faulty(c, r, s)
		}
	})
	e.cases("arguments", e.Scale(300, 8000), func(c *vrun.Case, r *model.Rng) {
		s := &schema{set: &sg.Set{}, r: r, dir: e.dir(), texts: map[string]string{
			"a.proto":     `syntax = "proto3"; option go_package = "x.test/a"; import "d/b.proto"; message A { d.B b = 1; }`,
			"d/b.proto":   `syntax = "proto2"; package d; option go_package = "x.test/d"; message B { optional int32 b = 1; }`,
			"e.proto":     ``,
			"d/dir/x.txt": `x`,
		}}
		defer s.drop()
		e.rewrite(s)
		words := strings.Fields("a.proto ./a.proto in/a.proto d/b.proto e.proto d d/dir missing.proto . / a in in/d out a.proto/ x.test/a =: -- - --- -h -help -I -I=in -proto_path -proto_path=in --proto_path=in -go_out -go_out=out" +
			" -go_out=in/a.proto -go_opt -go_opt=paths=import -go_opt=paths=source_relative -go_opt=paths=x -go_opt=M -go_opt=M= -go_opt=Ma.proto -go_opt=Ma.proto= -go_opt=Ma.proto=x.test/z -go_opt=Md/b.proto=;; -go_opt=Ma.proto=;b" +
			" -go_opt=M=x -go_opt== -go_opt=x -go_opt= -gen_getter -gen_getter=false -gen_getter=x -unknown -x=y Ma.proto=b é % %s google/protobuf/any.proto gogoproto/gogo.proto google/protobuf/missing.proto")
		for n := 12; n > 0; n-- {
			var args []string
			if r.P(60) {
				args = append(args, "-I", "in", "-go_out", "out")
			}
			for k := r.N(5); k > 0; k-- {
				args = append(args, words[r.N(len(words))])
			}
			if r.P(10) {
				args = append(args, "")
			}
			if r.P(50) {
				args = append(args, "a.proto")
			}
			e.ends(c, s, args, nil)
		}
	})
}

func (e *env) mustEnd(c *vrun.Case, r *model.Rng, s *schema, files, mopts []string) {
	args := []string{"-I", "in", "-go_out", "out"}
	for _, o := range mopts {
		args = append(args, "-go_opt", o)
	}
	if r.P(50) {
		args = append(args, "-gen_getter")
	}
	if r.P(30) {
		args = append(args, "-go_opt", "paths=source_relative")
	}
	e.ends(c, s, append(args, files...), files)
	c.Seen(s.all2())
	if c.WantSample() && len(s.all2()) < 5000 {
		c.Sample(s.all2())
	}
}

// graph makes files which import each other in any way: cycles of any length, themselves, missing files,
// the same file under several names.
func graph(r *model.Rng) (map[string]string, []string) {
	n := 1 + r.N(8)
	texts := map[string]string{}
	name := func(i int) string { return []string{"", "d/", "d/e/"}[i%3] + fmt.Sprintf("f%d.proto", i) }
	forth := r.P(60) // no cycles
	var args []string
	for i := 0; i < n; i++ {
		t := []string{`syntax = "proto3";`, `syntax = "proto2";`, `edition = "2023";`, ``}[r.N(4)] + fmt.Sprintf(` option go_package = "x.test/p%d"; package p%d;`, r.N(3), r.N(2)) + "\n"
		for k := r.N(4); k > 0; k-- {
			j := r.N(n)
			if forth && r.P(97) {
				if j = i + 1 + r.N(3); j >= n {
					continue
				}
			}
			f := name(j)
			switch {
			case r.P(3):
				f = []string{"./", "d/../", "/", "d//"}[r.N(4)] + f
			case r.P(1):
				f = []string{"missing.proto", "", "d", ".", "..", "google/protobuf/any.proto", "f0.proto/"}[r.N(7)]
			}
			t += "import " + []string{"", "", "public ", "weak "}[r.N(4)] + fmt.Sprintf("%q;\n", f)
		}
		t += fmt.Sprintf("message M%d {", i)
		for k := r.N(3); k > 0; k-- {
			t += fmt.Sprintf(" repeated %sM%d f%d = %d;", []string{"", "", "p0.", ".p1."}[r.N(4)], []int{i, i, r.N(n)}[r.N(3)], k, k)
		}
		texts[name(i)] = t + " }\n"
	}
	for k := 1 + r.N(2); k > 0; k-- {
		args = append(args, name(r.N(n)))
	}
	if r.P(60) {
		args[0] = name(0)
	}
	return texts, args
}

// all2 shows the texts of a schema without a set.
func (s *schema) all2() string {
	var names []string
	for n := range s.texts {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "--- %s\n%s\n", n, s.texts[n])
	}
	return b.String()
}

// faulty runs prutalgen with something wrong about the files: it may end with success only with the Go files
// of a run without.
func (e *env) faulty(c *vrun.Case, r *model.Rng, s *schema) {
	args := []string{"-I", "in", "-go_out", "out"}
	for _, o := range s.set.MOpts() {
		args = append(args, "-go_opt", o)
	}
	paths := s.set.GenPaths()
	if r.P(50) {
		paths = paths[:1+r.N(len(paths))]
	}
	e.rewrite(s)
	args = append(args, paths...)
	os.RemoveAll(filepath.Join(s.dir, "out"))
	if e.confined {
		os.Chmod(s.dir, 0o777)
	}
	run := func() (string, int, error) {
		return sg.Run(s.dir, e.confine[0], append(append(append([]string{}, e.confine[1:]...), e.bin), args...)...)
	}
	if msg, code, err := run(); err != nil || code != 0 {
		c.Add("refused_before", 1)
		debugf("%v %d %s", err, code, tail(msg))
		return
	}
	want, err := sg.ReadTree(filepath.Join(s.dir, "out"))
	if err != nil {
		harness("%v", err)
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) == 0 {
		c.FailD(s.all2(), "prutalgen %q ends with success and writes no file", args)
		return
	}
	var ins []string
	for n := range s.texts {
		ins = append(ins, n)
	}
	sort.Strings(ins)
	out := filepath.Join(s.dir, "out", names[r.N(len(names))])
	in := filepath.Join(s.dir, "in", ins[r.N(len(ins))])
	must := func(err error) {
		if err != nil {
			harness("%v", err)
		}
	}
	if r.P(70) {
		must(os.RemoveAll(filepath.Join(s.dir, "out")))
		must(os.MkdirAll(filepath.Dir(out), 0o777))
		for d := filepath.Dir(out); len(d) > len(s.dir); d = filepath.Dir(d) {
			must(os.Chmod(d, 0o777))
		}
	} else if e.confined { // written before
		filepath.Walk(filepath.Join(s.dir, "out"), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				must(os.WriteFile(p, []byte("old"), 0o666))
				must(os.Chmod(p, 0o666))
			}
			return nil
		})
	}
	fault := []string{"full", "directory", "parent is a file", "closed directory", "read-only file", "dangling", "unreadable input", "missing input", "input is a directory", "input loop"}[r.N(10)]
	switch fault {
	case "full":
		os.Remove(out)
		must(os.Symlink("/dev/full", out))
	case "directory":
		os.Remove(out)
		must(os.Mkdir(out, 0o777))
	case "parent is a file":
		must(os.RemoveAll(filepath.Dir(out)))
		must(os.WriteFile(filepath.Dir(out), nil, 0o666))
	case "closed directory":
		os.Remove(out)
		must(os.Chmod(filepath.Dir(out), 0o555))
		must(os.Chown(filepath.Dir(out), 0, 0))
	case "read-only file":
		os.Remove(out)
		must(os.WriteFile(out, []byte("old"), 0o444))
		must(os.Chown(out, 0, 0))
	case "dangling":
		os.Remove(out)
		must(os.Symlink("missing/x", out))
	case "unreadable input":
		must(os.Chmod(in, 0))
	case "missing input":
		must(os.Remove(in))
	case "input is a directory":
		must(os.Remove(in))
		must(os.Mkdir(in, 0o777))
	case "input loop":
		must(os.Remove(in))
		must(os.Symlink(filepath.Base(in), in))
	}
	msg, code, err := run()
	c.Eval(1)
	c.Add("fault_"+strings.ReplaceAll(fault, " ", "_"), 1)
	detail := fault + "\n" + s.all2()
	switch {
	case err != nil:
		c.FailD(detail, "prutalgen %q: %v: %s", args, err, tail(msg))
	case strings.Contains(msg, "goroutine ") || code != 0 && code != 1:
		c.FailD(detail, "prutalgen %q exits with %d: %s", args, code, begin(msg))
	case code == 1 && !strings.Contains(msg, "FATAL"):
		c.FailD(detail, "prutalgen %q exits with 1 and says %q", args, tail(msg))
	case code == 1:
		c.Add("failed_with_message", 1)
	default:
		c.Add("succeeded_all_the_same", 1)
		for _, n := range names {
			if b, err := os.ReadFile(filepath.Join(s.dir, "out", n)); err != nil || string(b) != want[n] {
				c.FailD(detail, "%s: prutalgen %q exits with 0 but %s isn't what it writes otherwise (%v)", fault, args, n, err)
			}
		}
	}
	must(os.RemoveAll(filepath.Join(s.dir, "in")))
}

// ends runs prutalgen and looks at how it ends. The files are those which it must have generated code for in the end.
func (e *env) ends(c *vrun.Case, s *schema, args, files []string) {
	os.RemoveAll(filepath.Join(s.dir, "out"))
	if !e.confined {
		for _, x := range s.texts {
			if strings.Contains(x, "..") || strings.Contains(x, "\\") {
				c.Add("skipped_unconfined", 1)
				return
			}
		}
	} else {
		os.Chmod(s.dir, 0o777)
		c.Add("as_unprivileged_user", 1)
	}
	t := time.Now()
	msg, code, err := sg.Run(s.dir, e.confine[0], append(append(append([]string{}, e.confine[1:]...), e.bin), args...)...)
	c.Eval(1)
	detail := s.all2()
	if err != nil {
		c.FailD(detail, "prutalgen %q: %v: %s", args, err, tail(msg))
	}
	for _, x := range []string{"panic:", "fatal error:", "goroutine ", "runtime error", "%!", "SIGSEGV", "[BUG]"} {
		if strings.Contains(msg, x) && !strings.Contains(detail, x) && !(x == "%!" && strings.Contains(strings.Join(args, " ")+detail, "%")) {
			c.FailD(detail, "prutalgen %q: %s", args, begin(msg))
		}
	}
	switch {
	case code == 0:
		c.Add("accepted", 1)
	case strings.TrimSpace(msg) == "":
		c.FailD(detail, "prutalgen %q exits with %d and says nothing", args, code)
	case code == 1:
		debugf("MSG %s: %s", c.ID[:4], tail(msg))
		c.Add("refused", 1)
	case code == 2 && strings.Contains(msg, "Usage of"):
		c.Add("usage", 1)
	default:
		c.FailD(detail, "prutalgen %q exits with %d: %s", args, code, tail(msg))
	}
	if d := time.Since(t); d > 30*time.Second {
		c.FailD(detail, "prutalgen %q takes %v", args, d)
	}
	tree, err := sg.ReadTree(s.dir)
	if err != nil {
		harness("%v", err)
	}
	written := map[string]bool{}
	for n := range tree {
		written[filepath.Base(n)] = true
	}
	for _, f := range files {
		if n := strings.TrimSuffix(filepath.Base(f), ".proto") + ".pb.go"; code == 0 && !written[n] {
			c.FailD(detail, "prutalgen %q exits with 0 but there is no %s", args, n)
		}
	}
	for n, x := range tree {
		if strings.HasSuffix(n, ".pb.go") {
			c.Add("files_parsed", 1)
			if _, err := parser.ParseFile(token.NewFileSet(), n, x, parser.SkipObjectResolution); err != nil {
				c.FailD(detail+"\n"+x, "prutalgen %q writes %s which is no Go: %v", args, n, err)
			}
			os.Remove(filepath.Join(s.dir, n))
		}
	}
}

func begin(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// transplant puts some tokens of b into a.
func transplant(r *model.Rng, a, b string) string {
	x, y := sg.Lex(a), sg.Lex(b)
	if len(x) == 0 || len(y) == 0 {
		return a
	}
	i, j := r.N(len(x)), r.N(len(y))
	n := 1 + r.N(min(len(y)-j, 1<<uint(1+r.N(7))))
	return strings.Join(x[:i], "") + " " + strings.Join(y[j:j+n], "") + " " + strings.Join(x[i:], "")
}

// noise changes bytes.
func noise(r *model.Rng, s string) string {
	b := []byte(s)
	for k := 1 + r.N(4); k > 0 && len(b) > 0; k-- {
		i := r.N(len(b))
		switch r.N(4) {
		case 0:
			b[i] = byte(r.U64())
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			b = append(b[:i], append([]byte{byte(r.U64())}, b[i:]...)...)
		default:
			b[i] ^= 1 << uint(r.N(8))
		}
	}
	return string(b)
}

var soupWords = strings.Fields(`message enum oneof map optional repeated required reserved extensions extend service rpc stream returns import package syntax edition option public weak to max
 true false inf nan int32 string bytes bool double M N E a b c x.y .M features packed default json_name deprecated go_package allow_alias
 { } { } ( ) [ ] < > ; ; ; ; , = = = . - + : / 0 1 2 3 536870911 0x10 07 1.5 1e5 -1 "s" 's' "\\n" "a.proto" "b/b.proto" "google/protobuf/any.proto" "x.test/s" "\q" // /* */`)

// phrases keep a soup from being refused at the first word.
var phrases = []string{"message M {", "message N { int32 a = 1; ", "enum E {", "enum E { A = 0; ", "A = 0;", "oneof o {", "int32 a = 1;", "M m = 2;", "N n = 3 [", "map<int32, M> mm = 4;", "reserved 5 to 9;", `reserved "x", "y";`, "}", "}", "];",
	"service S {", "rpc A(M) returns (N);", "rpc B(stream M) returns (stream M.N) {", "option (x).y = {", "option deprecated = true;", "[deprecated = true]", "packed = true", "features.field_presence = IMPLICIT", `import "b/b.proto";`,
	`import public "a.proto";`, "package p.q;", "extensions 100 to max;", "extend M {", "repeated int32 r = 7 [packed = false];", `optional string s = 8 [default = "x"];`, "oneof o { E e = 9; }", "// c\n", "/* c */", "optional group G = 10 {",
	"//prutalgen:no_pointer\n", "optional E e = 11 [default = A];", "required M m = 12;", "\n", "option allow_alias = true;", "enum E { option allow_alias = true; A = 0; B = 0; }", "message M {}", "message M { message M { M m = 1; } }"}

func soup(r *model.Rng) string {
	var b strings.Builder
	if r.P(3) { // no words at all
		for n := r.N(300); n > 0; n-- {
			b.WriteByte(byte(r.U64()))
		}
		return b.String()
	}
	if r.P(85) {
		b.WriteString([]string{`syntax = "proto3";`, `syntax = "proto2";`, `edition = "2023";`}[r.N(3)] + ` option go_package = "x.test/` + []string{"a", "b", "type", "b;c", "1", "-", "v2", "a.b", "é", ";", "func;func"}[r.N(11)] + "\";\n")
	}
	open := 0
	for n := r.N(40); n > 0; n-- {
		x := phrases[r.N(len(phrases))]
		if r.P(15) {
			x = soupWords[r.N(len(soupWords))]
		}
		open += strings.Count(x, "{") - strings.Count(x, "}")
		b.WriteString(x + " ")
	}
	if r.P(80) {
		for ; open > 0; open-- {
			b.WriteString("}")
		}
	}
	return b.String()
}

// loose makes a text which is well-formed but means anything: names given twice, empty enums and oneofs,
// options of any value, recursion.
func loose(r *model.Rng, first bool) string {
	names := strings.Fields("M N E A a b M N E m_n MN String Reset type func _ __ x1 É O M_N M_A isM_O E_name Foo_Bar foo_bar fooBar")
	name := func() string { // letters of ASCII only
		for {
			if n := names[r.N(len(names))]; n[0] < 0x80 {
				return n
			}
		}
	}
	num := 0
	number := func() string {
		if num += 1 + r.N(3); r.P(1) {
			return []string{"0", "1", "536870912", "-1", "0x1F", "077"}[r.N(6)]
		}
		return fmt.Sprint(num)
	}
	value := func() string {
		return []string{"true", "false", "1", "-1.5", "inf", "-nan", `"x"`, `"\\n"`, `'' ""`, "A", "a.b.c", "{}", "{ a: 1 }", `{ a: { b: "x" } }`, "{ a: -1, b: true; }", "EXPLICIT", "PACKED"}[r.N(17)]
	}
	optname := func() string {
		return []string{"deprecated", "(x)", "(x.y).z", "default", "json_name", "features.field_presence", "features", "packed", "allow_alias", "(gogoproto.nullable)", "(gogoproto.goproto_getters)", "lazy", "(gogoproto.goproto_enum_prefix)", "go_package_", "ctype"}[r.N(15)]
	}
	option := func() string {
		n := optname()
		if v := map[string]string{"features.field_presence": "IMPLICIT", "packed": "false", "allow_alias": "true"}[n]; v != "" && r.P(97) {
			return n + " = " + v
		}
		return n + " = " + value()
	}
	opts := func() string {
		if r.P(80) {
			return ""
		}
		return " [" + option() + []string{"", ", deprecated = true"}[r.N(2)] + "]"
	}
	stmt := func() string {
		if r.P(60) {
			return ""
		}
		return "option " + option() + ";\n"
	}
	scalar := strings.Fields("int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes float double")
	var known []string
	typ := func() string {
		if r.P(1) {
			return name()
		}
		if len(known) > 0 && r.P(60) {
			return known[r.N(len(known))]
		}
		return scalar[r.N(len(scalar))]
	}
	comment := func() string {
		if r.P(85) {
			return ""
		}
		return []string{"//prutalgen:no_pointer\n", "//prutalgen:no_enum_prefix no_enum_mapping\n", "//prutalgen:\n", "//prutalgen:x unknown_fields\n", "// c\n", "/* a\n b */", "/**/", "//\n//\n"}[r.N(8)]
	}
	var msgs []string
	rpcType := func() string {
		if len(msgs) == 0 || r.P(1) {
			return known[r.N(len(known))]
		}
		return msgs[r.N(len(msgs))]
	}
	var msg func(full string, depth int) string
	enum := func(full string) string {
		n := name()
		t := comment() + "enum " + n + " {" + stmt()
		if r.P(50) {
			t += "option allow_alias = true;\n"
		}
		v := -2
		for k := r.N(5); k > 0; k-- {
			v += 1 + r.N(3)
			t += fmt.Sprintf("%s = %d%s;", name(), v, opts()) + comment()
		}
		known = append(known, full+"."+n)
		return t + stmt() + "}\n"
	}
	field := func() string { return typ() + " " + name() + " = " + number() + opts() + ";" + comment() + "\n" }
	msg = func(full string, depth int) string {
		n := name()
		full += "." + n
		known, msgs = append(known, full), append(msgs, full)
		t := comment() + "message " + n + " {" + comment() + stmt()
		was := num
		num = 0
		for k := r.N(7); k > 0; k-- {
			switch x := r.N(12); {
			case x == 0 && depth < 5:
				t += msg(full, depth+1)
			case x == 1:
				t += enum(full)
			case x == 2:
				t += comment() + "oneof " + name() + " {" + stmt()
				for j := r.N(4); j > 0; j-- {
					t += field()
				}
				t += "}\n"
			case x == 3:
				t += "map<" + scalar[r.N(12)] + ", " + typ() + "> " + name() + " = " + number() + opts() + ";"
			case x == 4:
				t += []string{"reserved 100 to max;", "reserved 200;", `reserved "zz";`, "extensions 300 to 400;", ";", "reserved 9 to 5;", `reserved "";`, "extend " + n + " { optional int32 a = 300; }"}[r.N(8)]
			default:
				t += []string{"repeated ", "optional ", "repeated "}[r.N(3)] + field()
			}
		}
		num = was
		return t + "}\n"
	}
	t := comment() + []string{`syntax = "proto3";`, `syntax = "proto2";`, `edition = "2023";`}[r.N(3)] + " option go_package = \"x.test/" + []string{"a", "b", "type", "b;c", "1", "-", "v2", "a.b", "x;_", "func;func", "b;1", "é"}[r.N(12)] + "\";\n"
	full := ""
	if r.P(50) {
		n := []string{"p", "p.q", "M", "a.M", "M.N"}[r.N(5)]
		t += "package " + n + ";\n"
		full = "." + n
	}
	if first && r.P(40) {
		t += `import "b/b.proto";`
	}
	if r.P(20) {
		t += `import public "google/protobuf/any.proto"; import "google/protobuf/descriptor.proto";`
		known = append(known, ".google.protobuf.Any", ".google.protobuf.FieldOptions.CType")
	}
	for k := r.N(6); k > 0; k-- {
		switch r.N(6) {
		case 0:
			t += enum(full)
		case 1:
			t += comment() + stmt() + "service " + name() + " {" + stmt()
			for j := r.N(4); j > 0 && len(known) > 0; j-- {
				t += fmt.Sprintf("rpc %s(%s) returns (stream %s)", name(), rpcType(), rpcType()) + []string{";", "{}", "{" + stmt() + "}"}[r.N(3)]
			}
			t += "}\n"
		default:
			t += msg(full, 0)
		}
	}
	return t + comment()
}

// large makes one big thing of a kind.
func large(r *model.Rng) (string, map[string]string) {
	n := 1 << uint(r.N(13))
	n += r.N(n)
	deep := min(n, 400)
	rep := func(k int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < k; i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	head := []string{`syntax = "proto3";`, `syntax = "proto2";`, `edition = "2023";`}[r.N(3)] + " option go_package = \"x.test/a\";\n"
	switch r.N(22) {
	case 0:
		return head + strings.Repeat("message M {", deep) + strings.Repeat("}", deep), nil
	case 1:
		return head + "message M {" + rep(n, func(i int) string { return fmt.Sprintf("repeated int32 f%d = %d;\n", i, i+1) }) + "}", nil
	case 2:
		return head + rep(n/4+1, func(i int) string { return fmt.Sprintf("message M%d { repeated M%d a = 1; }\n", i, i/2) }), nil
	case 3:
		return head + "option (x) = " + strings.Repeat("{a:", deep) + "1" + strings.Repeat("}", deep) + ";", nil
	case 4:
		return head + "option (x) = " + strings.Repeat(`"a" `, n) + ";", nil
	case 5:
		return head + "option (x) = \"" + strings.Repeat("a", 64*n) + "\";", nil
	case 6:
		return head + "message " + strings.Repeat("a", 8*n) + " {}", nil
	case 7:
		return head + "message M { repeated " + strings.Repeat("a.", deep) + "M x = 1; }", nil
	case 8:
		return head + "message M { repeated int32 a = 1 [" + rep(n, func(i int) string { return fmt.Sprintf("(x%d) = %d,", i, i) }) + "deprecated = true]; }", nil
	case 9:
		return head + "enum E {" + rep(n, func(i int) string { return fmt.Sprintf("E%d = %d;", i, i) }) + "}", nil
	case 10:
		return head + strings.Repeat("// x\n", n) + "message M {}", nil
	case 11:
		return head + "/*" + strings.Repeat("x\n", n) + "*/ message M {}", nil
	case 12:
		return head + strings.Repeat(";", n), nil
	case 13:
		return head + "message M { oneof o {" + rep(n, func(i int) string { return fmt.Sprintf("int32 f%d = %d;\n", i, i+1) }) + "} }", nil
	case 14:
		return head + "message M { reserved " + rep(n, func(i int) string { return fmt.Sprintf("%d,", 2*i+1) }) + "50000; }", nil
	case 15:
		return head + "message M { repeated int32 a = " + strings.Repeat("1", n) + "; }", nil
	case 16:
		return head + strings.Repeat([]string{"{", "}", "(", "[", "<", "option (", "message M {", "message", "=", ".", "\"", "'", "/*", "\\", "-", "option x = {", "enum E {", "rpc"}[r.N(18)], deep), nil
	case 17:
		return head + "message M {} service S {" + rep(n/4+1, func(i int) string { return fmt.Sprintf("rpc A%d(M) returns (stream M) {}", i) }) + "}", nil
	case 18: // a chain of imports
		files := map[string]string{}
		k := min(n, 300)
		for i := 0; i < k; i++ {
			files[fmt.Sprintf("c%d.proto", i)] = head + fmt.Sprintf("import %s\"c%d.proto\";", []string{"", "public "}[r.N(2)], i+1)
		}
		files[fmt.Sprintf("c%d.proto", k)] = head + "message Last {}"
		return head + `import "c0.proto"; message M { repeated Last l = 1; }`, files
	case 19: // every file imports all the following: as many ways as 2^k
		files := map[string]string{}
		k := min(n, 40)
		for i := 0; i < k; i++ {
			files[fmt.Sprintf("c%d.proto", i)] = head + rep(k-i-1, func(j int) string { return fmt.Sprintf("import public \"c%d.proto\";", i+1+j) }) + fmt.Sprintf("message L%d {}", i)
		}
		return head + rep(k, func(j int) string { return fmt.Sprintf("import public \"c%d.proto\";", j) }) + fmt.Sprintf("message M { repeated L%d l = 1; repeated Missing m = 2; }", k-1), files
	case 20: // messages which refer to each other in every way
		k := min(n, 60)
		return head + rep(k, func(i int) string {
			return fmt.Sprintf("message M%d {", i) + rep(k, func(j int) string { return fmt.Sprintf("repeated M%d f%d = %d;", j, j, j+1) }) + "}\n"
		}), nil
	default: // names which are looked for in many scopes
		k := min(n, 150)
		return head + "package " + strings.Repeat("p.", deep) + "q;" + rep(k, func(i int) string { return fmt.Sprintf("message M%d {", i) }) +
			rep(k, func(i int) string { return fmt.Sprintf("repeated M%d f%d = %d;", i, i, i+1) }) + strings.Repeat("}", k), nil
	}
}
