package main

import (
	"go/token"
	"go/types"
	"path"
	"strconv"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// g11: packages of many files, which refer to each other, fit together.
func g11(e *env) {
	e.batched(e.Scale(1600, 16000), e.Scale(20, 60), func(r *model.Rng) sg.Config {
		cfg := e.config(r)
		cfg.Files, cfg.Msgs, cfg.Fields, cfg.Depth = 3+r.N(9), 1+r.N(2), 1+r.N(6), r.N(2)
		cfg.Nasty = r.Pick(0, 0, 20)
		cfg.Odd, cfg.MOpts, cfg.WKT = r.P(75), r.P(60), r.P(60)
		cfg.Lies, cfg.Cross = cfg.MOpts && r.P(60), true
		return cfg
	}, nil, func(c *vrun.Case, s *schema, _ *sg.Flags, pkgs map[string]*sg.Pkg) {
		for _, f := range s.off.Plugin.Files {
			if !f.Generate {
				continue
			}
			got := pkgs[string(f.GoImportPath)]
			if err := compareFile(c, f, s.pkgs[string(f.GoImportPath)], got); err != nil {
				c.FailD(s.all(), "%s: %v", f.Desc.Path(), err)
			}
			if err := imports(c, f, got); err != nil {
				c.FailD(s.all(), "%s: %v", f.Desc.Path(), err)
			}
		}
		for _, f := range s.set.Files {
			if f.LieGoPkg != "" {
				c.Add("go_package_overridden", 1)
			}
		}
		for _, f := range s.set.Known {
			if f.ViaM {
				c.Add("well_known_types_moved", 1)
			}
		}
	})
}

// uses lists the Go packages whose types the fields of a file have.
func uses(f *protogen.File) map[string]bool {
	out := map[string]bool{}
	for _, m := range sg.Msgs(f) {
		fs := append([]*protogen.Field(nil), m.Fields...)
		for _, fd := range m.Fields {
			if fd.Desc.IsMap() {
				fs = append(fs, fd.Message.Fields[1])
			}
		}
		for _, fd := range fs {
			switch {
			case fd.Desc.IsMap():
			case fd.Message != nil:
				out[string(fd.Message.GoIdent.GoImportPath)] = true
			case fd.Enum != nil:
				out[string(fd.Enum.GoIdent.GoImportPath)] = true
			}
		}
	}
	delete(out, string(f.GoImportPath))
	return out
}

// imports compares the imports of the generated code with those it needs.
func imports(c *vrun.Case, f *protogen.File, got *sg.Pkg) error {
	name := strings.TrimSuffix(path.Base(f.Desc.Path()), ".proto") + ".pb.go"
	file := got.Files[name]
	if file == nil {
		return errf("no file %s", name)
	}
	want := uses(f)
	seen := map[string]bool{}
	names := map[string]string{}
	for _, i := range file.Imports {
		p, err := strconv.Unquote(i.Path.Value)
		if err != nil {
			return err
		}
		if seen[p] {
			return errf("%s is imported twice", p)
		}
		seen[p] = true
		if i.Name != nil {
			n := i.Name.Name
			if names[n] != "" || n == "_" || n == "." || token.IsKeyword(n) || types.Universe.Lookup(n) != nil {
				return errf("%s is imported as %s", p, n)
			}
			names[n] = p
			c.Add("imports_renamed", 1)
		}
		switch p {
		case "strconv", "github.com/cloudwego/prutal":
			continue
		}
		if !want[p] {
			return errf("%s is imported, but none of its types are used", p)
		}
		c.Add("imports_compared", 1)
	}
	for p := range want {
		if !seen[p] {
			return errf("%s is not imported", p)
		}
	}
	return nil
}

