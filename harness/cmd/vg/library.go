package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"google.golang.org/protobuf/compiler/protogen"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// logger turns Fatalf, which must not return, into a panic.
type logger struct{}

type fatal string

func (logger) Fatalf(format string, v ...any) { panic(fatal(fmt.Sprintf(format, v...))) }
func (logger) Printf(format string, v ...any) {}

type optRec struct{ name, val string }

// book compares trees returned by loaders with the model.
type book struct {
	c     *vrun.Case
	s     *schema
	in    string
	opts  map[any][]optRec
	msgs  map[string]*protogen.Message
	enums map[string]*protogen.Enum
	count map[string]int
}

// view is one result of LoadProto.
type view struct {
	b     *book
	byMsg map[*sg.Msg]*prutalgen.Message
	byEn  map[*sg.Enum]*prutalgen.Enum
	files map[string]*prutalgen.Proto
}

func newBook(c *vrun.Case, s *schema) *book {
	b := &book{c: c, opts: map[any][]optRec{}, count: map[string]int{}}
	b.of(s)
	return b
}

func (b *book) of(s *schema) {
	b.s, b.in = s, filepath.Join(s.dir, "in")
	b.msgs, b.enums = map[string]*protogen.Message{}, map[string]*protogen.Enum{}
	for _, f := range s.off.Plugin.Files {
		for _, m := range sg.Msgs(f) {
			b.msgs[string(m.Desc.FullName())] = m
		}
		for _, en := range sg.EnumsOf(f) {
			b.enums[string(en.Desc.FullName())] = en
		}
	}
}

func errf(format string, a ...any) error { return fmt.Errorf(format, a...) }

// load calls LoadProto, and tells whether it refuses.
func load(l prutalgen.Loader, file string) (ps []*prutalgen.Proto, err error) {
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(fatal)
			if !ok {
				panic(e)
			}
			err = errf("refused: %s", string(f))
		}
	}()
	return l.LoadProto(file), nil
}

// g12: the library shows what the schema declares.
func g12(e *env) {
	e.cases("set", e.Scale(2000, 60000), func(c *vrun.Case, r *model.Rng) {
		b := &book{c: c, opts: map[any][]optRec{}, count: map[string]int{}}
		cfg, st := e.config(r), e.style(r)
		cfg.Services = r.P(80)
		st.Rec = func(o any, name, val string) { b.opts[o] = append(b.opts[o], optRec{name, val}) }
		s := e.make(c, r, cfg, st, nil)
		if s == nil {
			return
		}
		defer s.drop()
		b.of(s)
		m := map[string]string{}
		for _, o := range s.set.MOpts() {
			k, v, _ := strings.Cut(o[1:], "=")
			m[k] = v
		}
		workers := r.Pick(1, 1, 1, 2, 4)
		errs := make([]error, workers)
		var wg sync.WaitGroup
		var mu sync.Mutex
		for w := 0; w < workers; w++ {
			rr := model.NewRng(r.U64(), uint64(w))
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				errs[w] = b.session(rr, m, &mu)
			}(w)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				c.FailD(s.all(), "%v", err)
			}
		}
		if workers > 1 {
			c.Add("loaders_used_at_once", workers)
		}
		for k, n := range b.count {
			c.Add(k, n)
		}
		c.Seen(s.all())
		c.Sample(s.all())
	})
}

// session loads files of the set with one loader, then compares all results.
func (b *book) session(r *model.Rng, m map[string]string, mu *sync.Mutex) (err error) {
	l := prutalgen.NewLoader([]string{filepath.Join(b.s.dir, "none"), b.in}, m)
	l.SetLogger(logger{})
	paths := b.s.set.Paths()
	type result struct {
		path string
		ps   []*prutalgen.Proto
	}
	var all []result
	for n := 1 + r.N(len(paths)*2); n > 0; n-- {
		p := paths[r.N(len(paths))]
		ps, err := load(l, p)
		if err != nil {
			return errf("LoadProto(%q) with a loader used %d times before: %v", p, len(all), err)
		}
		all = append(all, result{p, ps})
	}
	mu.Lock()
	defer mu.Unlock()
	b.count["loads"] += len(all)
	for i, x := range all {
		if err := b.check(x.path, x.ps); err != nil {
			return errf("LoadProto(%q) (load %d of %d with one loader): %v", x.path, i+1, len(all), err)
		}
	}
	return nil
}

func (b *book) check(path string, ps []*prutalgen.Proto) error {
	v := &view{b: b, byMsg: map[*sg.Msg]*prutalgen.Message{}, byEn: map[*sg.Enum]*prutalgen.Enum{}, files: map[string]*prutalgen.Proto{}}
	pos := map[*prutalgen.Proto]int{}
	for i, p := range ps {
		name := p.ProtoFile
		if filepath.IsAbs(name) {
			rel, err := filepath.Rel(b.in, name)
			if err != nil || strings.HasPrefix(rel, "..") {
				return errf("file %s is not in the include path", name)
			}
			name = rel
		}
		if v.files[name] != nil {
			return errf("file %s is returned twice", name)
		}
		v.files[name] = p
		pos[p] = i
	}
	if len(ps) == 0 || v.files[path] != ps[0] {
		return errf("the file asked for is not the first one returned")
	}
	// exactly the files imported, directly or not; each before what it imports
	seen := map[string]bool{}
	var walk func(p *prutalgen.Proto, name string) error
	walk = func(p *prutalgen.Proto, name string) error {
		if seen[name] {
			return nil
		}
		seen[name] = true
		f := b.s.set.ByPath(name)
		var want []string
		for _, i := range p.Imports {
			if q, ok := pos[i.Proto]; !ok {
				return errf("%s imports %s, which is not returned", name, i.ProtoFile)
			} else if q <= pos[p] {
				return errf("%s is returned after %s which it imports", name, i.ProtoFile)
			}
			n := ""
			for k, x := range v.files {
				if x == i.Proto {
					n = k
				}
			}
			if n != "decor.proto" && n != "gogoproto/gogo.proto" {
				want = append(want, fmt.Sprint(n, i.Public))
			}
			if err := walk(i.Proto, n); err != nil {
				return err
			}
		}
		if f == nil || f.Known != nil {
			return nil
		}
		var have []string
		for _, i := range f.Imports {
			have = append(have, fmt.Sprint(i.F.Path, i.Public))
		}
		if fmt.Sprint(have) != fmt.Sprint(want) {
			return errf("imports of %s are %v, want %v", name, want, have)
		}
		return nil
	}
	if err := walk(ps[0], path); err != nil {
		return err
	}
	for n := range v.files {
		if !seen[n] {
			return errf("%s is returned but not imported", n)
		}
		if f := b.s.set.ByPath(n); f != nil && f.Known == nil {
			v.index(f, v.files[n])
		}
	}
	for n, p := range v.files {
		if f := b.s.set.ByPath(n); f != nil && f.Known == nil {
			if err := v.file(f, p); err != nil {
				return errf("%s: %w", n, err)
			}
			b.count["files_compared"]++
		}
	}
	return nil
}

// index maps declarations by name, where they exist at all.
func (v *view) index(f *sg.File, p *prutalgen.Proto) {
	enums := func(want []*sg.Enum, have []*prutalgen.Enum) {
		for i := range min(len(want), len(have)) {
			v.byEn[want[i]] = have[i]
		}
	}
	var msgs func(want []*sg.Msg, have []*prutalgen.Message)
	msgs = func(want []*sg.Msg, have []*prutalgen.Message) {
		for i := range min(len(want), len(have)) {
			v.byMsg[want[i]] = have[i]
			enums(want[i].Enums, have[i].Enums)
			msgs(want[i].Msgs, have[i].Messages)
		}
	}
	enums(f.Enums, p.Enums)
	msgs(f.Msgs, p.Messages)
}

func (v *view) options(what string, owner any, have prutalgen.Options) error {
	want := v.b.opts[owner]
	if len(want) != len(have) {
		return errf("%s has %d options %v, want %v", what, len(have), have, want)
	}
	for i, w := range want {
		if have[i].Name != w.name || w.val != sg.NoWant && have[i].Value != w.val {
			return errf("option %d of %s is %q = %q, want %q = %q", i, what, have[i].Name, have[i].Value, w.name, w.val)
		}
		v.b.count["options_compared"]++
	}
	return nil
}

func eq[T comparable](what string, have, want T) error {
	if have != want {
		return errf("%s is %v, want %v", what, have, want)
	}
	return nil
}

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func (v *view) file(f *sg.File, p *prutalgen.Proto) error {
	off := v.b.s.off.Files[f.Path]
	if err := first(
		eq("Edition", p.Edition, f.Syntax),
		eq("IsProto2", p.IsProto2(), f.Syntax == "proto2"),
		eq("IsProto3", p.IsProto3(), f.Syntax == "proto3"),
		eq("IsEdition2023", p.IsEdition2023(), f.Syntax == "2023"),
		eq("Package", p.Package, f.Pkg),
		eq("GoImport", p.GoImport, string(off.GoImportPath)),
		eq("GoPackage", p.GoPackage, string(off.GoPackageName)),
		v.options("the file", f, p.Options),
		eq("number of messages", len(p.Messages), len(f.Msgs)),
		eq("number of enums", len(p.Enums), len(f.Enums)),
		eq("number of services", len(p.Services), len(f.Services)),
	); err != nil {
		return err
	}
	for i, m := range f.Msgs {
		if err := v.msg(m, p.Messages[i], p, nil); err != nil {
			return err
		}
	}
	for i, e := range f.Enums {
		if err := v.enum(e, p.Enums[i], p, nil); err != nil {
			return err
		}
	}
	for i, s := range f.Services {
		if err := v.service(s, p.Services[i], p, off.Services[i]); err != nil {
			return errf("service %s: %w", s.Name, err)
		}
	}
	return nil
}

func in(rs []sg.Range, n int64) bool {
	for _, r := range rs {
		if n >= r.Lo && n <= r.Hi {
			return true
		}
	}
	return false
}

// around lists numbers at the edges of ranges.
func around(rs []sg.Range, lo, hi int64) (out []int64) {
	for _, r := range rs {
		for _, n := range []int64{r.Lo - 1, r.Lo, r.Lo + 1, (r.Lo + r.Hi) / 2, r.Hi - 1, r.Hi, r.Hi + 1} {
			if n >= lo && n <= hi {
				out = append(out, n)
			}
		}
	}
	return
}

func (v *view) msg(m *sg.Msg, x *prutalgen.Message, p *prutalgen.Proto, parent *prutalgen.Message) (err error) {
	defer func() {
		if err != nil && !strings.Contains(err.Error(), "message ") {
			err = errf("message %s: %w", m.Full(), err)
		}
	}()
	v.b.count["messages_compared"]++
	off := v.b.msgs[m.Full()]
	if err := first(
		eq("Name", x.Name, m.Name), eq("FullName", x.FullName(), m.Full()), eq("GoName", x.GoName, off.GoIdent.GoName),
		eq("Proto", x.Proto, p), eq("Msg", x.Msg, parent),
		v.options("the message", m, x.Options),
		eq("number of fields", len(x.Fields), len(m.Fields)), eq("number of oneofs", len(x.Oneofs), len(m.Oneofs)),
		eq("number of nested messages", len(x.Messages), len(m.Msgs)), eq("number of nested enums", len(x.Enums), len(m.Enums)),
	); err != nil {
		return err
	}
	for _, n := range append(around(m.Reserved, 1, 1<<29-1), 18999, 19000, 19500, 19999, 20000, int64(m.Fields0())) {
		if n == 0 {
			continue
		}
		want := in(m.Reserved, n) || n >= 19000 && n <= 19999
		if err := eq(fmt.Sprintf("IsReservedField(%d)", n), x.IsReservedField(int32(n)), want); err != nil {
			return err
		}
	}
	oneofs := map[*sg.Oneof]*prutalgen.Oneof{}
	for i, o := range m.Oneofs {
		y := x.Oneofs[i]
		oneofs[o] = y
		if err := first(eq("name of oneof", y.Name, o.Name), eq("Msg of the oneof", y.Msg, x), v.options("oneof "+o.Name, o, y.Options),
			eq("GoName of oneof "+o.Name, y.GoName, off.Oneofs[i].GoName), eq("number of members of "+o.Name, len(y.Fields), len(o.Fields))); err != nil {
			return err
		}
		for j, f := range o.Fields {
			if err := eq("member of "+o.Name, y.Fields[j].Name, f.Name); err != nil {
				return err
			}
		}
	}
	for i, f := range m.Fields {
		y, of := x.Fields[i], off.Fields[i]
		if err := first(
			eq("Name", y.Name, f.Name), eq("GoName", y.GoName, of.GoName), eq("FieldNumber", y.FieldNumber, f.Num),
			eq("Repeated", y.Repeated, f.Label == sg.Repeated), eq("Required", y.Required, f.Label == sg.Required), eq("Optional", y.Optional, f.Label == sg.Optional),
			eq("Msg", y.Msg, x), eq("IsMap", y.IsMap(), f.Map), v.options("the field", f, y.Options),
			v.typ(y.Type, f.Kind, f.Ref, m.File),
			eq("IsEnum", y.IsEnum(), !f.Map && f.Kind == sg.KEnum), eq("IsMessage", y.IsMessage(), !f.Map && f.Kind == sg.KMessage),
		); err != nil {
			return errf("field %s: %w", f.Name, err)
		}
		var e error
		if f.Map {
			e = v.typ(y.Key, f.Key, nil, m.File)
		}
		if of.Desc.IsList() {
			e = first(e, eq("IsPackedEncoding", y.IsPackedEncoding(), of.Desc.IsPacked()))
		}
		if f.Oneof != nil {
			e = first(e, eq("Oneof", y.Oneof, oneofs[f.Oneof]), eq("OneofStructName", y.OneofStructName(), of.GoIdent.GoName))
		} else if y.Oneof != nil {
			e = errf("is a member of %s", y.Oneof.Name)
		}
		if e != nil {
			return errf("field %s: %w", f.Name, e)
		}
		v.b.count["fields_compared"]++
	}
	for i, y := range m.Msgs {
		if err := v.msg(y, x.Messages[i], p, x); err != nil {
			return err
		}
	}
	for i, y := range m.Enums {
		if err := v.enum(y, x.Enums[i], p, x); err != nil {
			return err
		}
	}
	return nil
}

// typ compares a reference.
func (v *view) typ(t *prutalgen.Type, k sg.Kind, ref sg.Decl, from *sg.File) error {
	if t == nil {
		return errf("no type")
	}
	var file *sg.File
	switch d := ref.(type) {
	case nil:
		return first(eq("type name", t.Name, sg.KindName(k)), eq("IsMessage", t.IsMessage(), false), eq("IsEnum", t.IsEnum(), false), eq("IsExternalType", t.IsExternalType(), false))
	case *sg.Msg:
		file = d.File
		if t.Message() == nil || t.IsEnum() || !t.IsMessage() {
			return errf("type %s does not denote a message", t.Name)
		}
		if w := v.byMsg[d]; w != t.Message() && (file.Known == nil || t.Message().FullName() != d.Full()) {
			return errf("type %s denotes %s, want %s", t.Name, t.Message().FullName(), d.Full())
		}
	case *sg.Enum:
		file = d.File
		if t.Enum() == nil || t.IsMessage() || !t.IsEnum() {
			return errf("type %s does not denote an enum", t.Name)
		}
		if w := v.byEn[d]; w != t.Enum() && (file.Known == nil || t.Enum().FullName() != d.Full()) {
			return errf("type %s denotes %s, want %s", t.Name, t.Enum().FullName(), d.Full())
		}
	}
	v.b.count["references_compared"]++
	want, here := string(v.b.s.off.Files[file.Path].GoImportPath), string(v.b.s.off.Files[from.Path].GoImportPath)
	return first(eq("GoImport of type "+t.Name, t.GoImport(), want), eq("IsExternalType of "+t.Name, t.IsExternalType(), want != here))
}

func (v *view) enum(e *sg.Enum, x *prutalgen.Enum, p *prutalgen.Proto, parent *prutalgen.Message) (err error) {
	defer func() {
		if err != nil {
			err = errf("enum %s: %w", e.Full(), err)
		}
	}()
	v.b.count["enums_compared"]++
	off := v.b.enums[e.Full()]
	if err := first(
		eq("Name", x.Name, e.Name), eq("FullName", x.FullName(), e.Full()), eq("GoName", x.GoName, off.GoIdent.GoName),
		eq("Proto", x.Proto, p), eq("Msg", x.Msg, parent),
		v.options("the enum", e, x.Options), eq("number of values", len(x.Fields), len(e.Values)),
	); err != nil {
		return err
	}
	for i, val := range e.Values {
		y := x.Fields[i]
		if err := first(eq("Name", y.Name, val.Name), eq("GoName", y.GoName, off.Values[i].GoIdent.GoName), eq("Value", y.Value, val.Num),
			eq("Enum", y.Enum, x), v.options("the value", val, y.Options)); err != nil {
			return errf("value %s: %w", val.Name, err)
		}
	}
	for _, n := range append(around(e.Reserved, -1<<31, 1<<31-1), -1<<31, 1<<31-1, 19000, 19999) {
		if err := eq(fmt.Sprintf("IsReservedField(%d)", n), x.IsReservedField(int32(n)), in(e.Reserved, n)); err != nil {
			return err
		}
	}
	return nil
}

func (v *view) service(s *sg.Service, x *prutalgen.Service, p *prutalgen.Proto, off *protogen.Service) error {
	v.b.count["services_compared"]++
	if err := first(eq("Name", x.Name, s.Name), eq("GoName", x.GoName, off.GoName), eq("Proto", x.Proto, p), v.options("the service", s, x.Options),
		eq("number of methods", len(x.Methods), len(s.Methods))); err != nil {
		return err
	}
	for i, m := range s.Methods {
		y := x.Methods[i]
		if err := first(eq("Name", y.Name, m.Name), eq("GoName", y.GoName, off.Methods[i].GoName), eq("Service", y.Service, x), v.options("the method", m, y.Options),
			eq("RequestStream", y.RequestStream, m.InS), eq("ReturnStream", y.ReturnStream, m.OutS),
			v.typ(y.Request, sg.KMessage, m.In, s.File), v.typ(y.Return, sg.KMessage, m.Out, s.File)); err != nil {
			return errf("method %s: %w", m.Name, err)
		}
		v.b.count["methods_compared"]++
	}
	return nil
}
