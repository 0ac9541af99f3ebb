package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/constant"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"

	"vharness/drv"
	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// batch collects schemas whose generated code is linked into one driver.
type batch struct {
	e     *env
	dir   string
	items map[string]*item
	ids   []string
}

type item struct {
	c    *vrun.Case
	text string
}

func (e *env) newBatch() *batch {
	return &batch{e: e, dir: e.dir(), items: map[string]*item{}}
}

// prefix is the Go import prefix of the next schema.
func (b *batch) prefix(i int) string { return fmt.Sprintf("gen.test/s%d/", i) }

// add puts the generated sources and the table of a schema into the module.
func (b *batch) add(c *vrun.Case, i int, s *schema, fl *sg.Flags, src sg.Sources, pkgs map[string]*sg.Pkg, getters, kitex bool) {
	id := fmt.Sprintf("s%d", i)
	for imp, files := range src {
		rel, ok := strings.CutPrefix(imp, "gen.test/")
		if !ok {
			c.FailD(s.all(), "unexpected package %s", imp)
		}
		for n, t := range files {
			p := filepath.Join(b.dir, rel, n)
			if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
				harness("%v", err)
			}
			if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
				harness("%v", err)
			}
		}
	}
	desc, err := proto.Marshal(s.off.Set)
	if err != nil {
		harness("%v", err)
	}
	if err := os.MkdirAll(filepath.Join(b.dir, "desc"), 0o755); err != nil {
		harness("%v", err)
	}
	if err := os.WriteFile(filepath.Join(b.dir, "desc", id), desc, 0o644); err != nil {
		harness("%v", err)
	}
	if err := os.MkdirAll(filepath.Join(b.dir, "main"), 0o755); err != nil {
		harness("%v", err)
	}
	if err := os.WriteFile(filepath.Join(b.dir, "main", id+"_tab.go"), []byte(table(c, id, s, fl, pkgs, getters, kitex)), 0o644); err != nil {
		harness("%v", err)
	}
	b.items[id] = &item{c, s.all()}
	b.ids = append(b.ids, id)
}

// goNames maps the model's declarations to Go names.
func valueName(fl *sg.Flags, mv *sg.Value, v *protogen.EnumValue) string {
	if fl != nil && fl.NoPrefix[mv] {
		return sg.GoCamelCase(mv.Name)
	}
	return v.GoIdent.GoName
}

// table writes the Go file which registers a schema.
func table(c *vrun.Case, id string, s *schema, fl *sg.Flags, pkgs map[string]*sg.Pkg, getters, kitex bool) string {
	var b strings.Builder
	alias := map[string]string{}
	var order []string
	q := func(imp protogen.GoImportPath) string {
		a := alias[string(imp)]
		if a == "" {
			a = fmt.Sprintf("p%d", len(alias))
			alias[string(imp)] = a
			order = append(order, string(imp))
		}
		return a
	}
	msgs, enums := s.set.Index()
	for _, f := range s.off.Plugin.Files {
		if !f.Generate {
			continue
		}
		p := q(f.GoImportPath)
		fmt.Fprintf(&b, "// %s\n", f.Desc.Path())
		for _, m := range sg.Msgs(f) {
			mm := msgs[string(m.Desc.FullName())]
			fmt.Fprintf(&b, "x.Msgs = append(x.Msgs, drv.Msg{Full: %q, Type: (*%s.%s)(nil), Unknown: %v, Fields: []drv.Field{\n", m.Desc.FullName(), p, m.GoIdent.GoName, fl != nil && fl.Unknown[mm])
			for _, fd := range m.Fields {
				fmt.Fprintf(&b, "{Num: %d, Go: %q", fd.Desc.Number(), fd.GoName)
				if o := fd.Oneof; o != nil && !o.Desc.IsSynthetic() {
					fmt.Fprintf(&b, ", Oneof: %q, Wrapper: (*%s.%s)(nil)", o.GoName, p, fd.GoIdent.GoName)
				}
				if fl != nil && fl.NoPtr[mm.FieldByNum(int32(fd.Desc.Number()))] {
					b.WriteString(", NoPtr: true")
				}
				b.WriteString("},\n")
			}
			b.WriteString("}})\n")
		}
		for _, en := range sg.EnumsOf(f) {
			me := enums[string(en.Desc.FullName())]
			mapping := fl == nil || !fl.NoMapping[me]
			fmt.Fprintf(&b, "x.Enums = append(x.Enums, drv.Enum{Full: %q, Zero: %s.%s(0), Mapping: %v, Consts: []drv.Const{\n", en.Desc.FullName(), p, en.GoIdent.GoName, mapping)
			for i, v := range en.Values {
				n := valueName(fl, me.Values[i], v)
				fmt.Fprintf(&b, "{Go: %q, Proto: %q, Val: int64(%s.%s)},\n", n, v.Desc.Name(), p, n)
			}
			b.WriteString("}")
			if mapping {
				fmt.Fprintf(&b, ", Names: %s.%s_name, Values: %s.%s_value", p, en.GoIdent.GoName, p, en.GoIdent.GoName)
			}
			b.WriteString("})\n")
		}
	}
	var h strings.Builder
	h.WriteString("package main\n\nimport (\n\t\"vharness/drv\"\n")
	for _, imp := range order {
		fmt.Fprintf(&h, "\t%s %q\n", alias[imp], imp)
	}
	fmt.Fprintf(&h, ")\n\nfunc init() {\n\tx := &drv.Schema{ID: %q, Getters: %v, Kitex: %v}\n", id, getters, kitex)
	body := b.String()
	out := h.String() + body + "\tdrv.Register(x)\n}\n"
	for _, imp := range order { // packages without messages and enums
		if !strings.Contains(body, alias[imp]+".") {
			out = strings.Replace(out, fmt.Sprintf("\t%s %q\n", alias[imp], imp), fmt.Sprintf("\t_ %q\n", imp), 1)
		}
	}
	return out
}

var errPath = regexp.MustCompile(`(?m)^(?:\./)?(?:main/)?(s\d+)(?:[/.]|_tab)`)

// run builds and runs the driver; failures belong to the cases.
func (b *batch) run(n int) {
	if len(b.ids) == 0 {
		return
	}
	h := b.e.Args["harness"]
	gomod, err := os.ReadFile(filepath.Join(h, "go.mod"))
	if err != nil {
		harness("%v", err)
	}
	gosum, err := os.ReadFile(filepath.Join(h, "go.sum"))
	if err != nil {
		harness("%v", err)
	}
	gomod = bytes.Replace(gomod, []byte("module vharness"), []byte("module gen.test"), 1)
	gomod = append(gomod, []byte("\nrequire vharness v0.0.0\n\nreplace vharness => "+h+"\n")...)
	must := func(err error) {
		if err != nil {
			harness("%v", err)
		}
	}
	must(os.WriteFile(filepath.Join(b.dir, "go.mod"), gomod, 0o644))
	must(os.WriteFile(filepath.Join(b.dir, "go.sum"), gosum, 0o644))
	must(os.WriteFile(filepath.Join(b.dir, "main", "main.go"), []byte("package main\n\nimport \"vharness/drv\"\n\nfunc main() { drv.Main() }\n"), 0o644))
	args := []string{"build", "-p", "3"}
	if b.e.Args["race"] != "" {
		args = append(args, "-race")
	}
	out, code, err := sg.RunT(600, b.dir, "go", append(args, "-o", "driver", "./main")...)
	if err != nil {
		harness("go build: %v\n%s", err, tail(out))
	}
	if code != 0 {
		if m := errPath.FindStringSubmatch(out); m != nil && b.items[m[1]] != nil {
			it := b.items[m[1]]
			it.c.ErrorD(it.text, "the generated code, or a program which uses its declarations, does not compile:\n%s", head(out))
			return
		}
		harness("go build: %s", head(out))
	}
	out, errs, code, err := sg.RunSplit(600, b.dir, "./driver", "-prop", b.e.Prop, "-seed", fmt.Sprint(b.e.Seed), "-desc", "desc", "-n", strconv.Itoa(n))
	if err != nil && code >= 0 {
		harness("driver: %v\n%s", err, tail(errs))
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		var rep drv.Report
		if json.Unmarshal([]byte(l), &rep) != nil || b.items[rep.ID] == nil {
			continue
		}
		seen[rep.ID] = true
		it := b.items[rep.ID]
		for k, v := range rep.Counters {
			it.c.Add(k, v)
		}
		if rep.Fail != "" {
			it.c.ErrorD(it.text, "%s", rep.Fail)
		}
	}
	for _, id := range b.ids {
		if !seen[id] { // the driver died here
			i := strings.LastIndex(errs, "BEGIN ")
			it := b.items[id]
			it.c.ErrorD(it.text, "the program died (status %d, %v): %s", code, err, head(errs[max(i, 0):]))
			break
		}
	}
	os.RemoveAll(b.dir)
}

func head(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// batched makes n schemas and runs the driver on those of this shard.
func (e *env) batched(n, values int, cfg func(r *model.Rng) sg.Config, prep func(*model.Rng, *sg.Set), static func(*vrun.Case, *schema, *sg.Flags, map[string]*sg.Pkg)) {
	const size = 60
	b := e.newBatch()
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("set/%d", i)
		e.Do(id, func(c *vrun.Case) {
			r := model.NewRng(e.Seed, model.HashStr(id))
			conf := cfg(r)
			conf.Prefix = b.prefix(i)
			var p func(*sg.Set)
			if prep != nil {
				p = func(s *sg.Set) { prep(r, s) }
			}
			st := e.style(r)
			s := e.make(c, r, conf, st, p)
			if s == nil {
				return
			}
			defer s.drop()
			folded := map[string]string{}
			for _, f := range s.off.Plugin.Files {
				p := string(f.GoImportPath)
				if f.Generate && strings.Contains("/"+p+"/", "/internal/") {
					return
				}
				if q := folded[strings.ToLower(p)]; q != "" && q != p { // the go command refuses this
					return
				}
				folded[strings.ToLower(p)] = p
			}
			var fl *sg.Flags
			if prep != nil {
				fl = s.set.Flags()
			}
			getters := e.Prop == "G08" || r.P(50)
			var tree map[string]string
			kitex := false
			if e.Prop == "G08" && r.P(50) {
				kitex = r.P(70)
				tree = e.genLib(c, s, getters, kitex, r.P(70))
			} else {
				tree = e.gen(c, s, getters)
			}
			src := sg.GoFiles(tree)
			pkgs, err := e.ck.Check(src)
			if err != nil {
				c.FailD(s.all(), "the generated code does not compile: %v", err)
			}
			if static != nil {
				static(c, s, fl, pkgs)
			}
			b.add(c, i, s, fl, src, pkgs, getters, kitex)
			c.Seen(s.all())
			c.Sample(s.all())
		})
		if len(b.ids) >= size {
			b.run(values)
			b = e.newBatch()
		}
	}
	b.run(values)
}

// consts lists the constants of an enum type.
func consts(p *sg.Pkg, typ string) map[string]string {
	out := map[string]string{}
	t := p.Scope().Lookup(typ)
	for _, n := range p.Scope().Names() {
		if k, ok := p.Scope().Lookup(n).(interface{ Val() constant.Value }); ok && t != nil && p.Scope().Lookup(n).Type() == t.Type() {
			out[n] = k.Val().ExactString()
		}
	}
	return out
}

func sorted(m map[string]string) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}
