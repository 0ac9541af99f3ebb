package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

func (e *env) cases(what string, n int, fn func(c *vrun.Case, r *model.Rng)) {
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("%s/%d", what, i)
		e.Do(id, func(c *vrun.Case) { fn(c, model.NewRng(e.Seed, model.HashStr(id))) })
	}
}

// G01: what prutalgen writes for a valid set compiles.
func g01(e *env) {
	e.runProbes()
	e.cases("set", e.Scale(2500, 60000), func(c *vrun.Case, r *model.Rng) {
		s := e.make(c, r, e.config(r), e.style(r), nil)
		if s == nil {
			return
		}
		defer s.drop()
		for _, getter := range []bool{false, true} {
			src := sg.GoFiles(e.gen(c, s, getter))
			pkgs, err := e.ck.Check(src)
			if err != nil {
				c.FailD(s.all(), "the generated code does not compile (getter=%v): %v", getter, err)
			}
			for _, f := range s.off.Plugin.Files {
				if f.Generate && pkgs[string(f.GoImportPath)] == nil {
					c.FailD(s.all(), "no package %s for %s", f.GoImportPath, f.Desc.Path())
				}
			}
			c.Add("packages_type_checked", len(pkgs))
		}
		c.Seen(s.all())
		c.Sample(s.all())
	})
}

// G02: types and tags are those the schema prescribes and the official plugin makes.
func g02(e *env) {
	e.cases("set", e.Scale(2500, 60000), func(c *vrun.Case, r *model.Rng) {
		s := e.make(c, r, e.config(r), e.style(r), nil)
		if s == nil {
			return
		}
		defer s.drop()
		pkgs, err := e.ck.Check(sg.GoFiles(e.gen(c, s, r.P(50))))
		if err != nil {
			c.FailD(s.all(), "the generated code does not compile: %v", err)
		}
		for _, f := range s.off.Plugin.Files {
			if f.Generate {
				if err := compareFile(c, f, s.pkgs[string(f.GoImportPath)], pkgs[string(f.GoImportPath)]); err != nil {
					c.FailD(s.all(), "%s: %v", f.Desc.Path(), err)
				}
			}
		}
		c.Seen(s.all())
		c.Sample(s.all())
	})
}

func structOf(p *sg.Pkg, name string) (*types.Struct, error) {
	o, ok := p.Scope().Lookup(name).(*types.TypeName)
	if !ok || o.IsAlias() {
		return nil, fmt.Errorf("no type %s", name)
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("type %s is no struct", name)
	}
	return s, nil
}

func fieldsOf(s *types.Struct) map[string]int {
	out := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			out[s.Field(i).Name()] = i
		}
	}
	return out
}

// compareFile compares the declarations of one file with those of the official plugin.
func compareFile(c *vrun.Case, f *protogen.File, off, got *sg.Pkg) error {
	if got == nil {
		return fmt.Errorf("no package %s", f.GoImportPath)
	}
	if got.Name() != off.Name() {
		return fmt.Errorf("package name %s, want %s", got.Name(), off.Name())
	}
	for _, m := range sg.Msgs(f) {
		if err := compareMsg(c, m, off, got); err != nil {
			return fmt.Errorf("message %s: %w", m.Desc.FullName(), err)
		}
		c.Add("messages_compared", 1)
	}
	for _, en := range sg.EnumsOf(f) {
		name := en.GoIdent.GoName
		o, ok := got.Scope().Lookup(name).(*types.TypeName)
		if !ok || o.IsAlias() {
			return fmt.Errorf("no type %s for enum %s", name, en.Desc.FullName())
		}
		if b, ok := o.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 {
			return fmt.Errorf("enum type %s is %v", name, o.Type().Underlying())
		}
		for _, v := range en.Values {
			k, ok := got.Scope().Lookup(v.GoIdent.GoName).(*types.Const)
			if !ok {
				return fmt.Errorf("enum %s: no constant %s", en.Desc.FullName(), v.GoIdent.GoName)
			}
			if k.Type() != o.Type() || k.Val().ExactString() != fmt.Sprint(v.Desc.Number()) {
				return fmt.Errorf("constant %s is %v = %v", v.GoIdent.GoName, k.Type(), k.Val())
			}
		}
		c.Add("enums_compared", 1)
	}
	return nil
}

func compareMsg(c *vrun.Case, m *protogen.Message, off, got *sg.Pkg) error {
	name := m.GoIdent.GoName
	want, err := structOf(off, name)
	if err != nil {
		harness("official: %v", err)
	}
	have, err := structOf(got, name)
	if err != nil {
		return err
	}
	wf, hf := fieldsOf(want), fieldsOf(have)
	expected := map[string]bool{}
	for _, f := range m.Fields {
		if o := f.Oneof; o != nil && !o.Desc.IsSynthetic() {
			expected[o.GoName] = true
			continue
		}
		expected[f.GoName] = true
		i, ok := hf[f.GoName]
		if !ok {
			return fmt.Errorf("no field %s for %s", f.GoName, f.Desc.Name())
		}
		j, ok := wf[f.GoName]
		if !ok {
			harness("official: no field %s", f.GoName)
		}
		if a, b := sg.TypeString(have.Field(i).Type()), sg.TypeString(want.Field(j).Type()); a != b {
			return fmt.Errorf("field %s has type %s, the official one %s", f.GoName, a, b)
		}
		if err := checkTag(f.Desc, have.Tag(i)); err != nil {
			return fmt.Errorf("field %s: %w", f.GoName, err)
		}
		if a, b := reflect.StructTag(have.Tag(i)).Get("json"), reflect.StructTag(want.Tag(j)).Get("json"); a != b {
			return fmt.Errorf("field %s has the json tag %q, the official one %q", f.GoName, a, b)
		}
		c.Add("fields_compared", 1)
	}
	for _, o := range m.Oneofs {
		if o.Desc.IsSynthetic() {
			continue
		}
		i, ok := hf[o.GoName]
		if !ok {
			return fmt.Errorf("no field %s for oneof %s", o.GoName, o.Desc.Name())
		}
		if t := reflect.StructTag(have.Tag(i)).Get("protobuf_oneof"); t != string(o.Desc.Name()) {
			return fmt.Errorf("oneof %s: tag %q", o.Desc.Name(), have.Tag(i))
		}
		iface, ok := have.Field(i).Type().Underlying().(*types.Interface)
		if !ok {
			return fmt.Errorf("oneof %s: field of type %v", o.Desc.Name(), have.Field(i).Type())
		}
		members := map[string]bool{}
		for _, f := range o.Fields {
			w, err := structOf(got, f.GoIdent.GoName)
			if err != nil {
				return err
			}
			ow, err := structOf(off, f.GoIdent.GoName)
			if err != nil {
				harness("official: %v", err)
			}
			if w.NumFields() != 1 || w.Field(0).Name() != f.GoName {
				return fmt.Errorf("wrapper %s is %v", f.GoIdent.GoName, w)
			}
			if a, b := sg.TypeString(w.Field(0).Type()), sg.TypeString(ow.Field(0).Type()); a != b {
				return fmt.Errorf("wrapper %s has a field of type %s, the official one %s", f.GoIdent.GoName, a, b)
			}
			if err := checkTag(f.Desc, w.Tag(0)); err != nil {
				return fmt.Errorf("wrapper %s: %w", f.GoIdent.GoName, err)
			}
			if !types.Implements(types.NewPointer(got.Scope().Lookup(f.GoIdent.GoName).Type()), iface) {
				return fmt.Errorf("wrapper %s does not fit the oneof", f.GoIdent.GoName)
			}
			members[f.GoIdent.GoName] = true
			c.Add("oneof_members_compared", 1)
		}
		// nothing else fits
		for _, n := range got.Scope().Names() {
			tn, ok := got.Scope().Lookup(n).(*types.TypeName)
			if !ok || members[n] || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(types.NewPointer(tn.Type()), iface) || types.Implements(tn.Type(), iface) {
				return fmt.Errorf("oneof %s accepts %s", o.Desc.Name(), n)
			}
		}
	}
	for n := range hf {
		if !expected[n] {
			return fmt.Errorf("field %s is not in the schema", n)
		}
	}
	return nil
}

// checkTag compares a struct tag with the field's descriptor.
func checkTag(d protoreflect.FieldDescriptor, tag string) error {
	st := reflect.StructTag(tag)
	parts := strings.Split(st.Get("protobuf"), ",")
	if len(parts) < 4 {
		return fmt.Errorf("tag %q", tag)
	}
	enc := sg.WireEncoding(d.Kind())
	if d.IsMap() {
		enc = "bytes"
	}
	if parts[0] != enc {
		return fmt.Errorf("tag %q: encoding %s, want %s", tag, parts[0], enc)
	}
	if parts[1] != strconv.Itoa(int(d.Number())) {
		return fmt.Errorf("tag %q: number, want %d", tag, d.Number())
	}
	label := map[protoreflect.Cardinality]string{protoreflect.Optional: "opt", protoreflect.Required: "req", protoreflect.Repeated: "rep"}[d.Cardinality()]
	if parts[2] != label {
		return fmt.Errorf("tag %q: label %s, want %s", tag, parts[2], label)
	}
	packed, name := false, ""
	for _, p := range parts[3:] {
		if p == "packed" {
			packed = true
		}
		if n, ok := strings.CutPrefix(p, "name="); ok {
			name = n
		}
	}
	if packed != (d.IsPacked() && !d.IsMap()) {
		return fmt.Errorf("tag %q: packed=%v, want %v", tag, packed, d.IsPacked())
	}
	if name != string(d.Name()) {
		return fmt.Errorf("tag %q: name %q, want %q", tag, name, d.Name())
	}
	for _, k := range []struct {
		tag string
		d   protoreflect.FieldDescriptor
		n   string
	}{{"protobuf_key", d.MapKey(), "1"}, {"protobuf_val", d.MapValue(), "2"}} {
		got, ok := st.Lookup(k.tag)
		if k.d == nil {
			if ok {
				return fmt.Errorf("tag %q has %s", tag, k.tag)
			}
			continue
		}
		p := strings.Split(got, ",")
		if len(p) < 3 || p[0] != sg.WireEncoding(k.d.Kind()) || p[1] != k.n || p[2] != "opt" {
			return fmt.Errorf("tag %q: %s, want %s", tag, k.tag, sg.WireEncoding(k.d.Kind()))
		}
	}
	return nil
}
