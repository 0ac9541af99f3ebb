package main

import (
	"fmt"
	"go/types"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// small keeps the drivers quick to build.
func (e *env) small(r *model.Rng) sg.Config {
	cfg := e.config(r)
	cfg.Files = 1 + r.N(3)
	cfg.Nasty = r.Pick(0, 10, 30)
	return cfg
}

// G03: generated code and the official runtime exchange values of the schema.
func g03(e *env) {
	e.runRefusals()
	e.batched(e.Scale(1200, 12000), e.Scale(60, 200), e.small, nil, nil)
}

// G07: enums.
func g07(e *env) {
	e.batched(e.Scale(1600, 15000), 1, func(r *model.Rng) sg.Config {
		cfg := e.small(r)
		cfg.Enums = 1 + r.N(5)
		return cfg
	}, nil, func(c *vrun.Case, s *schema, _ *sg.Flags, pkgs map[string]*sg.Pkg) { enumStatic(c, s, nil, pkgs) })
}

// G08: getters and Reset.
func g08(e *env) {
	e.batched(e.Scale(1200, 12000), e.Scale(25, 100), e.small, nil, nil)
}

// enumStatic compares the constants of each enum with those of the model.
func enumStatic(c *vrun.Case, s *schema, fl *sg.Flags, pkgs map[string]*sg.Pkg) {
	_, enums := s.set.Index()
	for _, f := range s.off.Plugin.Files {
		if !f.Generate || s.set.ByPath(f.Desc.Path()).Known != nil {
			continue
		}
		p := pkgs[string(f.GoImportPath)]
		if p == nil {
			c.FailD(s.all(), "no package %s", f.GoImportPath)
		}
		for _, en := range sg.EnumsOf(f) {
			me := enums[string(en.Desc.FullName())]
			want := map[string]string{}
			for i, v := range en.Values {
				want[valueName(fl, me.Values[i], v)] = fmt.Sprint(v.Desc.Number())
			}
			got := consts(p, en.GoIdent.GoName)
			if sorted(got) != sorted(want) {
				c.FailD(s.all(), "enum %s has the constants %s, want %s", en.Desc.FullName(), sorted(got), sorted(want))
			}
			mapping := fl == nil || !fl.NoMapping[me]
			for _, n := range []string{"_name", "_value"} {
				_, ok := p.Scope().Lookup(en.GoIdent.GoName + n).(*types.Var)
				if ok != mapping {
					c.FailD(s.all(), "enum %s: %s%s exists: %v, want %v", en.Desc.FullName(), en.GoIdent.GoName, n, ok, mapping)
				}
			}
			c.Add("enums_compared", 1)
		}
	}
}
