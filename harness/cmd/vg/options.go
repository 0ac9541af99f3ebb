package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// G09: options and directives change exactly what they name.
func g09(e *env) {
	e.batched(e.Scale(1200, 12000), e.Scale(20, 80), func(r *model.Rng) sg.Config {
		cfg := e.small(r)
		cfg.Enums = r.N(3)
		return cfg
	}, func(r *model.Rng, s *sg.Set) {
		s.Annotate(r)
		s.BreakCycles()
	}, optionsStatic)
}

// distinctNames tells whether names stay apart without the prefixes.
func (s *schema) distinctNames() bool {
	fl := s.set.Flags()
	_, enums := s.set.Index()
	taken := map[string]map[string]bool{}
	for _, f := range s.off.Plugin.Files {
		if !f.Generate || s.set.ByPath(f.Desc.Path()).Known != nil {
			continue
		}
		imp := string(f.GoImportPath)
		if taken[imp] == nil {
			taken[imp] = map[string]bool{}
			for _, n := range s.pkgs[imp].Scope().Names() {
				taken[imp][n] = true
			}
		}
		for _, en := range sg.EnumsOf(f) {
			me := enums[string(en.Desc.FullName())]
			for _, v := range me.Values {
				if !fl.NoPrefix[v] {
					continue
				}
				n := sg.GoCamelCase(v.Name)
				if taken[imp][n] || types.Universe.Lookup(n) != nil {
					return false
				}
				taken[imp][n] = true
			}
		}
	}
	return true
}

// optionsStatic compares types and tags with the official ones, changed as annotated.
func optionsStatic(c *vrun.Case, s *schema, fl *sg.Flags, pkgs map[string]*sg.Pkg) {
	enumStatic(c, s, fl, pkgs)
	msgs, _ := s.set.Index()
	for _, f := range s.off.Plugin.Files {
		if !f.Generate || s.set.ByPath(f.Desc.Path()).Known != nil {
			continue
		}
		off, got := s.pkgs[string(f.GoImportPath)], pkgs[string(f.GoImportPath)]
		for _, m := range sg.Msgs(f) {
			if err := optionsMsg(c, m, msgs[string(m.Desc.FullName())], fl, off, got); err != nil {
				c.FailD(s.all(), "message %s: %v", m.Desc.FullName(), err)
			}
		}
	}
	for _, b := range fl.NoPtr {
		if b {
			c.Add("fields_held_by_value", 1)
		}
	}
	for _, b := range fl.NoPrefix {
		if b {
			c.Add("values_without_prefix", 1)
		}
	}
	for _, b := range fl.NoMapping {
		if b {
			c.Add("enums_without_maps", 1)
		}
	}
	for _, b := range fl.Unknown {
		if b {
			c.Add("messages_keeping_unknown", 1)
		}
	}
}

func optionsMsg(c *vrun.Case, m *protogen.Message, mm *sg.Msg, fl *sg.Flags, off, got *sg.Pkg) error {
	have, err := structOf(got, m.GoIdent.GoName)
	if err != nil {
		return err
	}
	want, err := structOf(off, m.GoIdent.GoName)
	if err != nil {
		harness("official: %v", err)
	}
	hf, wf := fieldsOf(have), fieldsOf(want)
	expected := map[string]bool{}
	for _, f := range m.Fields {
		hs, ws, i, j := have, want, 0, 0
		if o := f.Oneof; o != nil && !o.Desc.IsSynthetic() {
			expected[o.GoName] = true
			if hs, err = structOf(got, f.GoIdent.GoName); err != nil {
				return err
			}
			if ws, err = structOf(off, f.GoIdent.GoName); err != nil {
				harness("official: %v", err)
			}
		} else {
			expected[f.GoName] = true
			var ok bool
			if i, ok = hf[f.GoName]; !ok {
				return fmt.Errorf("no field %s", f.GoName)
			}
			j = wf[f.GoName]
		}
		typ := sg.TypeString(ws.Field(j).Type())
		noptr := fl.NoPtr[mm.FieldByNum(int32(f.Desc.Number()))]
		if noptr { // the pointer at the front, or of the elements
			switch {
			case f.Desc.IsMap():
				typ = strings.Replace(typ, "]*", "]", 1)
			case f.Desc.IsList():
				typ = strings.Replace(typ, "[]*", "[]", 1)
			default:
				typ = strings.TrimPrefix(typ, "*")
			}
		}
		if g := sg.TypeString(hs.Field(i).Type()); g != typ {
			return fmt.Errorf("field %s has type %s, want %s (held by value: %v)", f.GoName, g, typ, noptr)
		}
		if err := checkTag(f.Desc, hs.Tag(i)); err != nil {
			return fmt.Errorf("field %s: %w", f.GoName, err)
		}
		if a, b := reflect.StructTag(hs.Tag(i)).Get("json"), reflect.StructTag(ws.Tag(j)).Get("json"); a != b && (f.Oneof == nil || f.Oneof.Desc.IsSynthetic()) {
			return fmt.Errorf("field %s has the json tag %q, the official one %q", f.GoName, a, b)
		}
		c.Add("fields_compared", 1)
	}
	unknown := false
	for i := 0; i < have.NumFields(); i++ {
		if n := have.Field(i).Name(); n == "unknownFields" {
			unknown = true
		} else if !expected[n] {
			return fmt.Errorf("field %s is not in the schema", n)
		}
	}
	if unknown != fl.Unknown[mm] {
		return fmt.Errorf("keeps unknown fields: %v, want %v", unknown, fl.Unknown[mm])
	}
	return nil
}
