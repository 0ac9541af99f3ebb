package sg

import (
	"sort"
	"strings"
)

type symKind int

const (
	symType symKind = iota // message or enum
	symAggregate
	symPackage
	symOther
)

type sym struct {
	kind symKind
	decl Decl
}

// Scope knows every name visible in a file.
type Scope struct {
	f    *File
	syms map[string]sym
}

func NewScope(f *File) *Scope {
	s := &Scope{f: f, syms: map[string]sym{}}
	for _, x := range f.Visible() {
		parts := strings.Split(x.Pkg, ".")
		for i := range parts {
			if p := strings.Join(parts[:i+1], "."); p != "" {
				s.syms[p] = sym{symPackage, nil}
			}
		}
		for _, m := range x.AllMsgs() {
			full := m.Full()
			s.syms[full] = sym{symType, m}
			for _, f := range m.Fields {
				s.syms[full+"."+f.Name] = sym{symOther, nil}
				if f.Map {
					s.syms[full+"."+mapEntryName(f.Name)] = sym{symType, nil}
				}
			}
			for _, o := range m.Oneofs {
				s.syms[full+"."+o.Name] = sym{symOther, nil}
			}
		}
		for _, e := range x.AllEnums() {
			full := e.Full()
			s.syms[full] = sym{symType, e}
			scope := full[:len(full)-len(e.Name)]
			for _, v := range e.Values {
				s.syms[scope+v.Name] = sym{symOther, nil}
			}
		}
		for _, v := range x.Services {
			s.syms[v.Full()] = sym{symAggregate, nil}
			for _, m := range v.Methods {
				s.syms[v.Full()+"."+m.Name] = sym{symOther, nil}
			}
		}
	}
	return s
}

// Resolve finds what name means for a declaration in the scope, as protoc does.
// typesOnly says that other declarations of that name are passed over.
func (s *Scope) Resolve(scope, name string, typesOnly bool) Decl {
	d, _ := s.ResolveWhy(scope, name, typesOnly)
	return d
}

// ResolveWhy also tells what ends the search where it finds nothing: "" (nothing to be
// found at all, or in a message, enum or package), "service", "map-entry", "hidden"
// by a declaration which is no type, or "entry": the name is that of a map entry.
func (s *Scope) ResolveWhy(scope, name string, typesOnly bool) (d Decl, why string) {
	if strings.HasPrefix(name, ".") {
		name, scope = name[1:], ""
	}
	first, _, compound := strings.Cut(name, ".")
	for scope != "" {
		x, ok := s.syms[scope+"."+first]
		if ok {
			if compound {
				if x.kind != symOther {
					switch {
					case x.kind == symAggregate:
						why = "service"
					case x.kind == symType && x.decl == nil:
						why = "map-entry"
					}
					if d, ok := s.syms[scope+"."+name]; ok && d.kind == symType && d.decl == nil {
						why = "entry"
					}
					return s.typ(scope + "." + name), why
				}
			} else if x.kind == symType || !typesOnly {
				switch {
				case x.decl == nil && x.kind == symType:
					why = "entry"
				case x.decl == nil:
					why = "hidden"
				}
				return x.decl, why
			}
		}
		i := strings.LastIndexByte(scope, '.')
		if i < 0 {
			break
		}
		scope = scope[:i]
	}
	if d, ok := s.syms[name]; ok && d.kind == symType && d.decl == nil {
		why = "entry"
	}
	return s.typ(name), why
}

// Names lists all names of all visible declarations, packages included.
func (s *Scope) Names() (out []string) {
	for n := range s.syms {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

// Keyword tells whether a type name cannot start with the word.
func Keyword(w string) bool { return firstKeyword[w] }

func (s *Scope) typ(full string) Decl {
	if x, ok := s.syms[full]; ok && x.kind == symType {
		return x.decl
	}
	return nil
}

// Spellings lists names which might denote d.
func Spellings(d Decl) []string {
	full := d.base().Full()
	out := []string{"." + full, full}
	for {
		_, rest, ok := strings.Cut(full, ".")
		if !ok {
			return out
		}
		out = append(out, rest)
		full = rest
	}
}
