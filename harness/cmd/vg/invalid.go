package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// above lists f and the files which import it, directly or not.
func above(s *sg.Set, f *sg.File) map[*sg.File]bool {
	up := map[*sg.File]bool{f: true}
	for n := 0; n != len(up); {
		n = len(up)
		for _, x := range s.Files {
			for _, i := range x.Imports {
				if up[i.F] {
					up[x] = true
				}
			}
		}
	}
	return up
}

func (e *env) rewrite(s *schema) {
	os.RemoveAll(filepath.Join(s.dir, "in"))
	if err := sg.Write(filepath.Join(s.dir, "in"), s.texts); err != nil {
		harness("%v", err)
	}
}

// g05: file sets with one mistake are refused.
func g05(e *env) {
	e.uncompiled = true
	e.cases("fault", e.Scale(900, 30000), func(c *vrun.Case, r *model.Rng) {
		cfg := e.config(r)
		cfg.Files, cfg.Msgs, cfg.Depth, cfg.Fields = 1+r.N(4), 1+r.N(4), r.N(4), 1+r.N(6)
		cfg.Enums = r.N(3)
		st := e.style(r)
		s := e.make(c, r, cfg, st, nil)
		if s == nil {
			return
		}
		defer s.drop()
		for n := 6; n > 0; n-- {
			// a fresh copy of the set, as the fault changes it
			t := &schema{set: s.set.Clone(), off: s.off, dir: s.dir}
			ft := t.set.Break(r)
			if ft == nil {
				continue
			}
			t.texts = t.set.Texts(r, st)
			e.rewrite(t)
			if ft.Protoc && t.set.Protocable() {
				_, ok, _, err := sg.Protoc(filepath.Join(t.dir, "in"), t.set.Paths())
				if err != nil {
					harness("protoc: %v", err)
				}
				if ok {
					harness("case %s: protoc accepts a set with %v\n%s", c.ID, ft, t.all())
				}
				c.Add("confirmed_by_protoc", 1)
			}
			c.Add("faults_"+ft.Class, 1)
			e.mustRefuse(c, r, t, ft.File, ft.String())
			c.Seen(t.all())
		}
		c.Sample(s.all())
	})
	e.cases("text", e.Scale(1200, 40000), func(c *vrun.Case, r *model.Rng) { e.textFaults(c, r) })
}

// mustRefuse runs prutalgen on a set whose file f is wrong.
func (e *env) mustRefuse(c *vrun.Case, r *model.Rng, s *schema, f *sg.File, what string) {
	up := above(s.set, f)
	var files []string
	switch r.N(3) {
	case 0:
		files = []string{f.Path}
	case 1: // one which needs it
		for x := range up {
			if len(files) == 0 || x.Path < files[0] {
				files = []string{x.Path}
			}
		}
	default:
		files = s.set.Paths()
		r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
	}
	out := filepath.Join(s.dir, "refused")
	os.RemoveAll(out)
	msg, code, err := sg.Prutalgen(sg.GenOpts{Bin: e.bin, Dir: s.dir, Includes: []string{"in"}, Out: "refused", Opts: s.set.MOpts(), Getter: r.P(10), Files: files})
	if err != nil {
		c.FailD(s.all(), "%s; prutalgen: %v: %s", what, err, tail(msg))
	}
	if strings.Contains(msg, "panic:") || strings.Contains(msg, "goroutine ") {
		c.FailD(s.all(), "%s; prutalgen panics: %s", what, tail(msg))
	}
	if code == 0 {
		c.FailD(s.all(), "%s, but prutalgen %v exits with 0", what, files)
	}
	tree, err := sg.ReadTree(out)
	if err != nil {
		harness("%v", err)
	}
	may := map[string]bool{}
	for _, x := range s.set.Files {
		if !up[x] {
			may[x.GoImport+"/"+strings.TrimSuffix(filepath.Base(x.Path), ".proto")+".pb.go"] = true
		}
	}
	for n := range tree {
		if !may[n] {
			c.FailD(s.all(), "%s, but prutalgen %v writes %s", what, files, n)
		}
	}
	l := prutalgen.NewLoader([]string{filepath.Join(s.dir, "in")}, mopts(s.set))
	l.SetLogger(logger{})
	if _, err := load(l, f.Path); err == nil {
		c.FailD(s.all(), "%s, but LoadProto accepts it", what)
	}
	c.Add("refused", 1)
}

func mopts(s *sg.Set) map[string]string {
	m := map[string]string{}
	for _, o := range s.MOpts() {
		k, v, _ := strings.Cut(o[1:], "=")
		m[k] = v
	}
	return m
}

var syntaxMsg = regexp.MustCompile(`^[^:]+:\d+:\d+: (Expected |Missing |Unexpected |Reached end|Unmatched|Integer out of range|String literals|Invalid control|Need space|Multiline|End-of-file|"0x" must|Numbers starting|"e" must|"\.\./|Hex and octal|Already saw decimal|Invalid escape|Block comment|File must begin|Interpreting non ascii|Unknown|Multiple package|Field labels|Fields in oneofs|Map fields|Explicit )`)

// textFaults damages the text of a file, and asks protoc whether it is still good.
func (e *env) textFaults(c *vrun.Case, r *model.Rng) {
	cfg := e.config(r)
	cfg.Files, cfg.Msgs, cfg.Depth, cfg.Fields = 1, 1+r.N(3), r.N(3), 1+r.N(5)
	cfg.WKT, cfg.Nasty = false, 0 // types called like keywords give a meaning to what is wrong for protoc
	st := e.style(r)
	st.Comments = r.Pick(0, 0, 10)
	st.NoExtend = true // anything may be a type name there
	s := e.make(c, r, cfg, st, nil)
	if s == nil {
		return
	}
	defer s.drop()
	f := s.set.Files[0]
	good := s.texts[f.Path]
	for n := 8; n > 0; n-- {
		text, what := damage(r, good)
		if text == good {
			continue
		}
		s.texts[f.Path] = text
		e.rewrite(s)
		// protoc does not know editions, whose grammar is that of proto3 as far as this goes
		probe := text
		dir := filepath.Join(s.dir, "in")
		if f.Syntax == "2023" {
			dir = filepath.Join(s.dir, "as3")
			probe = asProto3(text)
			if probe == "" {
				continue
			}
			os.RemoveAll(dir)
			t := map[string]string{}
			for k, v := range s.texts {
				t[k] = v
			}
			t[f.Path] = probe
			if err := sg.Write(dir, t); err != nil {
				harness("%v", err)
			}
		}
		_, ok, msg, err := sg.Protoc(dir, []string{f.Path})
		if err != nil {
			harness("protoc: %v", err)
		}
		if ok {
			c.Add("damaged_but_valid", 1)
			continue
		}
		// the first message counts, others may follow from it
		msg, _, _ = strings.Cut(strings.TrimSpace(msg), "\n")
		if !syntaxMsg.MatchString(msg) {
			c.Add("wrong_otherwise", 1)
			debugf("other: %s", msg)
			continue
		}
		if lenient(probe, msg) {
			c.Add("lenient", 1)
			continue
		}
		c.Add("syntax_errors", 1)
		e.mustRefuse(c, r, s, f, fmt.Sprintf("%s (protoc says %s)", what, msg))
		c.Seen(text)
	}
	c.Sample(good)
}

var posRe = regexp.MustCompile(`^[^:]+:(\d+):(\d+): (.*)`)

// lenient tells whether protoc's message is about what prutalgen's grammar, which is the
// same for all versions of the language, allows: empty oneofs, labels missing or superfluous, empty
// statements in oneofs, signs and values of any type for options, any word as name of an enum value.
func lenient(text, l string) bool {
	m := posRe.FindStringSubmatch(l)
	if m == nil {
		return false
	}
	for _, x := range []string{`Expected "required"`, "Field labels", "Explicit ", "Fields in oneofs"} {
		if strings.HasPrefix(m[3], x) {
			return true
		}
	}
	if strings.HasPrefix(m[3], "Expected ") && (strings.HasSuffix(m[3], " default value.") || strings.HasSuffix(m[3], "for JSON name.")) {
		return true
	}
	// the token there and the one before
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	at, prev, prev2, x, y := "", "", "", 1, 1
	for _, t := range sg.Lex(text) {
		if !sg.Blank(t) {
			if x > line || x == line && y >= col {
				at = t
				break
			}
			prev2, prev = prev, t
		}
		for i := 0; i < len(t); i++ {
			switch t[i] {
			case '\n':
				x, y = x+1, 1
			case '\t':
				y += 8 - (y-1)%8
			default:
				y++
			}
		}
	}
	switch m[3] {
	case "Expected type name.":
		return at == ";" && (prev == ";" || prev == "{" || prev == "}") || at == "}" && prev == "{"
	case "Integer out of range.", "Expected integer.", "Expected identifier.":
		if prev == "=" && prev2 == "default" {
			return true
		}
	case `Expected "=".`:
		return prev == "default"
	case "Expected string.", "Expected number.", `Expected "true" or "false".`:
		return prev == "=" && prev2 == "default"
	case "Expected option value.":
		return at == "+"
	}
	switch m[3] {
	case "Expected identifier.", "Expected enum value or number range.":
		return at == "=" && (prev == "option" || prev == "reserved")
	}
	return false
}

func asProto3(text string) string {
	toks := sg.Lex(text)
	for i, t := range toks {
		if t == "edition" {
			for j := i + 1; j < len(toks); j++ {
				if toks[j] == ";" {
					return strings.Join(toks[:i], "") + `syntax = "proto3";` + strings.Join(toks[j+1:], "")
				}
				if !sg.Blank(toks[j]) && toks[j] != "=" && toks[j][0] != '"' && toks[j][0] != '\'' {
					return ""
				}
			}
		}
		if !sg.Blank(t) {
			return ""
		}
	}
	return ""
}

var inserts = strings.Fields(`; { } ( ) [ ] < > , = . - + : / \ " ' # @ $ ~ ! % ^ & * ? | 0 1 42 0x 0x1 08 1e 1.5 1.5f 1e5 .5 "x" 'y' "unclosed 'unclosed " /* */ //
 message enum oneof map option optional repeated required reserved extensions extend service rpc stream returns import package syntax edition public weak to max true false inf nan group
 int32 string Foo x é 日 x-y 1x _ \x00`)

// damage changes a text in one place.
func damage(r *model.Rng, s string) (string, string) {
	toks := sg.Lex(s)
	var idx []int
	for i, t := range toks {
		if !sg.Blank(t) {
			idx = append(idx, i)
		}
	}
	if len(idx) < 2 {
		return s, ""
	}
	i := idx[r.N(len(idx))]
	cut := func(lo, hi int, mid ...string) string {
		return strings.Join(toks[:lo], "") + strings.Join(mid, "") + strings.Join(toks[hi:], "")
	}
	switch r.N(9) {
	case 0, 1:
		return cut(i, i+1, " "), fmt.Sprintf("token %q (%d) left out", toks[i], i)
	case 2:
		return cut(i, i, toks[i], " "), fmt.Sprintf("token %q (%d) twice", toks[i], i)
	case 3:
		k := r.N(len(idx) - 1)
		a, b := idx[k], idx[k+1]
		t := append([]string{}, toks...)
		t[a], t[b] = t[b], t[a]
		return strings.Join(t, " "), fmt.Sprintf("tokens %q and %q (%d) swapped", toks[a], toks[b], a)
	case 4:
		j := idx[r.N(len(idx))]
		return cut(i, i+1, " ", toks[j], " "), fmt.Sprintf("token %q (%d) replaced by %q", toks[i], i, toks[j])
	case 5, 6:
		x := inserts[r.N(len(inserts))]
		if x == "\\x00" {
			x = "\x00"
		}
		if r.P(30) {
			return cut(i, i, x), fmt.Sprintf("%q put right before %q (%d)", x, toks[i], i)
		}
		return cut(i, i, " ", x, " "), fmt.Sprintf("%q put before %q (%d)", x, toks[i], i)
	case 7:
		k := r.N(len(s))
		return s[:k], fmt.Sprintf("text ends after %d bytes", k)
	default:
		x := inserts[r.N(len(inserts))]
		return cut(i, i+1, " ", x, " "), fmt.Sprintf("token %q (%d) replaced by %q", toks[i], i, x)
	}
}
