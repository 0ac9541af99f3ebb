package sg

import (
	"strings"

	"vharness/model"
)

// Flags tell what directives and options change.
type Flags struct {
	NoPtr     map[*Field]bool
	NoPrefix  map[*Value]bool
	NoMapping map[*Enum]bool
	Unknown   map[*Msg]bool
}

// directives reads those of an annotation the way the documentation says: comment lines
// which start with //prutalgen: hold a list of them.
func (a *Annot) directives() (out []string) {
	if a == nil {
		return nil
	}
	for _, l := range append(append([]string{}, a.Head...), a.Inline) {
		if s, ok := strings.CutPrefix(strings.TrimSpace(l), "//prutalgen:"); ok {
			for _, d := range strings.Split(s, ",") {
				out = append(out, strings.TrimSpace(d))
			}
		}
	}
	return
}

func (a *Annot) has(d string) bool {
	for _, x := range a.directives() {
		if x == d {
			return true
		}
	}
	return false
}

// set tells what d and its negation say.
func (a *Annot) set(d string) (v, ok bool) {
	for _, x := range a.directives() {
		if x == d {
			return true, true
		}
		if x == "no_"+d {
			return false, true
		}
	}
	return
}

func (a *Annot) opt(name string) (v, ok bool) {
	if a == nil {
		return
	}
	s, ok := a.Opts[name]
	return s == "true", ok
}

// Flags of the set's annotations.
func (s *Set) Flags() *Flags {
	fl := &Flags{map[*Field]bool{}, map[*Value]bool{}, map[*Enum]bool{}, map[*Msg]bool{}}
	for _, f := range s.Files {
		for _, m := range f.AllMsgs() {
			for _, x := range m.Fields {
				if m.Annot.has("no_pointer") || x.Annot.has("no_pointer") {
					fl.NoPtr[x] = true
				} else if v, ok := x.Annot.opt("(gogoproto.nullable)"); ok && !v {
					fl.NoPtr[x] = true
				}
			}
			if v, ok := m.Annot.set("unknown_fields"); ok {
				fl.Unknown[m] = v
			} else if v, ok := f.Annot.set("unknown_fields"); ok {
				fl.Unknown[m] = v
			} else if v, ok := m.Annot.opt("(gogoproto.goproto_unrecognized)"); ok {
				fl.Unknown[m] = v
			} else if v, ok := f.Annot.opt("(gogoproto.goproto_unrecognized_all)"); ok {
				fl.Unknown[m] = v
			}
		}
		for _, e := range f.AllEnums() {
			fl.NoMapping[e] = e.Annot.has("no_enum_mapping") || f.Annot.has("no_enum_mapping")
			all := e.Annot.has("no_enum_prefix") || f.Annot.has("no_enum_prefix")
			if !all {
				if v, ok := e.Annot.opt("(gogoproto.goproto_enum_prefix)"); ok {
					all = !v
				} else if v, ok := f.Annot.opt("(gogoproto.goproto_enum_prefix_all)"); ok {
					all = !v
				}
			}
			for _, v := range e.Values {
				fl.NoPrefix[v] = all || v.Annot.has("no_enum_prefix")
			}
		}
	}
	return fl
}

// Annotate adds directives and options at random.
func (s *Set) Annotate(r *model.Rng) {
	pct := r.Pick(5, 20, 50)
	for _, f := range s.Files {
		if f.Known != nil {
			continue
		}
		f.Gogo = r.P(60)
		f.Annot = &Annot{Opts: map[string]string{}}
		if r.P(40) {
			annotate(r, f.Annot, false, pct, "no_enum_prefix", "no_enum_mapping", "unknown_fields", "no_unknown_fields", "no_pointer")
			if f.Gogo {
				options(r, f.Annot, pct, "(gogoproto.goproto_enum_prefix_all)", "(gogoproto.goproto_unrecognized_all)")
			}
		}
		if len(f.Annot.Head) == 0 && len(f.Annot.Opts) == 0 {
			f.Annot = nil
		}
		for _, m := range f.AllMsgs() {
			annotate(r, &m.Annot, true, pct/2, "no_pointer", "unknown_fields", "no_unknown_fields", "no_enum_prefix", "no_enum_mapping")
			if f.Gogo {
				options(r, &m.Annot, pct/2, "(gogoproto.goproto_unrecognized)")
			}
			for _, x := range m.Fields {
				annotate(r, &x.Annot, true, pct, "no_pointer", "no_pointer", "unknown_fields", "no_enum_prefix")
				if f.Gogo {
					options(r, &x.Annot, pct, "(gogoproto.nullable)")
				}
			}
		}
		for _, e := range f.AllEnums() {
			annotate(r, &e.Annot, true, pct, "no_enum_prefix", "no_enum_mapping", "no_pointer")
			if f.Gogo {
				options(r, &e.Annot, pct, "(gogoproto.goproto_enum_prefix)")
			}
			for _, v := range e.Values {
				annotate(r, &v.Annot, true, pct/2, "no_enum_prefix", "no_enum_mapping")
			}
		}
	}
}

func options(r *model.Rng, a *Annot, pct int, names ...string) {
	for _, n := range names {
		if r.P(pct) {
			if a.Opts == nil {
				a.Opts = map[string]string{}
			}
			a.Opts[n] = []string{"true", "false"}[r.N(2)]
		}
	}
}

// annotate writes directives above or after a declaration, in one or several comments,
// between other comments; or comments which only look like directives.
func annotate(r *model.Rng, a *Annot, inline bool, pct int, names ...string) {
	if !r.P(pct) {
		if r.P(10) {
			decoy := []string{"// prutalgen:" + names[0], "//prutalgen " + names[0], "// //prutalgen:" + names[0], "//prutalgen:" + names[0] + "_x", "//prutalgen:", "/* //prutalgen:" + names[0] + " */",
				"//protogen:" + names[0]}[r.N(7)]
			if inline && r.P(40) {
				a.Inline = decoy
			} else {
				a.Head = append(a.Head, decoy)
			}
		}
		return
	}
	var ds []string
	for i := 1 + r.N(2); i > 0; i-- {
		d := names[r.N(len(names))]
		neg := "no_" + d
		if s, ok := strings.CutPrefix(d, "no_"); ok {
			neg = s
		}
		clash := false
		for _, x := range ds {
			clash = clash || x == d || x == neg
		}
		if !clash {
			ds = append(ds, d)
		}
	}
	note := []string{"// about this", "//", "/* a note */", "/* two\n   lines */", "// unknown_fields"}
	var lines []string
	if r.P(50) {
		lines = append(lines, "//prutalgen:"+strings.Join(ds, []string{",", ", ", " ,"}[r.N(3)])+[]string{"", " ", "\t"}[r.N(3)])
	} else {
		for _, d := range ds {
			lines = append(lines, "//prutalgen:"+d)
		}
	}
	if inline && r.P(40) {
		a.Inline = lines[len(lines)-1]
		lines = lines[:len(lines)-1]
	}
	for r.P(25) {
		i := r.N(len(lines) + 1)
		lines = append(lines[:i:i], append([]string{note[r.N(len(note))]}, lines[i:]...)...)
	}
	a.Head = lines
}

// Cyclic tells whether the fields held by value make a Go type contain itself.
func (s *Set) Cyclic(fl *Flags) bool {
	state := map[*Msg]int{}
	var visit func(m *Msg) bool
	visit = func(m *Msg) bool {
		switch state[m] {
		case 1:
			return true
		case 2:
			return false
		}
		state[m] = 1
		for _, f := range m.Fields {
			if r, ok := f.Ref.(*Msg); ok && fl.NoPtr[f] && !f.Map && f.Label != Repeated && f.Oneof == nil && visit(r) {
				return true
			}
		}
		state[m] = 2
		return false
	}
	for _, f := range s.Files {
		for _, m := range f.AllMsgs() {
			if visit(m) {
				return true
			}
		}
	}
	return false
}

// BreakCycles removes annotations until no Go type contains itself.
func (s *Set) BreakCycles() {
	for s.Cyclic(s.Flags()) {
		for _, f := range s.Files {
			for _, m := range f.AllMsgs() {
				for _, x := range m.Fields {
					if _, ok := x.Ref.(*Msg); ok && !x.Map && x.Label != Repeated && x.Oneof == nil && (len(x.Annot.Head) > 0 || x.Annot.Inline != "" || len(x.Annot.Opts) > 0) {
						x.Annot = Annot{}
						if !s.Cyclic(s.Flags()) {
							return
						}
					}
				}
			}
		}
		for _, f := range s.Files {
			for _, m := range f.AllMsgs() {
				if m.Annot.has("no_pointer") {
					m.Annot = Annot{}
					if !s.Cyclic(s.Flags()) {
						return
					}
				}
			}
		}
	}
}
