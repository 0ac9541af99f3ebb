package main

import (
	"path/filepath"
	"sort"
	"strings"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// goName is the key under which sg.CommentsOf has the declaration.
func (b *book) goName(owner any, enumOf map[*sg.Value]*sg.Enum) (file *sg.File, key string) {
	switch d := owner.(type) {
	case *sg.Msg:
		return d.File, b.msgs[d.Full()].GoIdent.GoName
	case *sg.Enum:
		return d.File, b.enums[d.Full()].GoIdent.GoName
	case *sg.Field:
		m := b.msgs[d.Parent.Full()]
		for i, f := range d.Parent.Fields {
			if f == d {
				of := m.Fields[i]
				if d.Oneof != nil {
					return d.File, of.GoIdent.GoName + "." + of.GoName
				}
				return d.File, m.GoIdent.GoName + "." + of.GoName
			}
		}
	case *sg.Value:
		e := enumOf[d]
		for i, v := range e.Values {
			if v == d {
				return e.File, "const " + b.enums[e.Full()].Values[i].GoIdent.GoName
			}
		}
	}
	panic("unknown declaration")
}

// g10: comments change nothing, and those of declarations are kept next to them.
func g10(e *env) {
	e.cases("set", e.Scale(2000, 60000), func(c *vrun.Case, r *model.Rng) {
		st := e.style(r)
		st.Wild = r.P(85)
		st.Comments = r.Pick(0, 3, 10, 30, 60)
		st.Hostile = r.P(70)
		var marks []sg.Mark
		cfg := e.config(r)
		cfg.Files = 1 + r.N(3)
		s := e.make(c, r, cfg, st, func(s *sg.Set) { marks = s.MarkComments(r, st.Hostile) })
		if s == nil {
			return
		}
		defer s.drop()
		getter := r.P(30)
		// the same files without comments
		bare := &schema{set: s.set, texts: map[string]string{}, dir: e.dir()}
		defer bare.drop()
		crlf := r.P(15)
		for n, t := range s.texts {
			bare.texts[n] = sg.StripComments(t)
			if n := strings.Count(t, "//") + strings.Count(t, "/*"); n > 0 {
				c.Add("files_with_comments", 1)
			}
			if crlf {
				s.texts[n] = strings.ReplaceAll(strings.ReplaceAll(t, "\r\n", "\n"), "\n", "\r\n")
			}
		}
		if crlf {
			c.Add("sets_with_crlf", 1)
			if err := sg.Write(filepath.Join(s.dir, "in"), s.texts); err != nil {
				harness("%v", err)
			}
		}
		if err := sg.Write(filepath.Join(bare.dir, "in"), bare.texts); err != nil {
			harness("%v", err)
		}
		got := e.gen(c, s, getter)
		want := e.gen(c, bare, getter)
		if a, b := names(got), names(want); a != b {
			c.FailD(s.all(), "files generated with comments: %s\nwithout: %s", a, b)
		}
		if _, err := e.ck.Check(sg.GoFiles(got)); err != nil {
			c.FailD(s.all(), "the generated code does not compile: %v", err)
		}
		all := map[string]*sg.GoComments{}
		for n := range got {
			a, err1 := sg.GoTokens(got[n])
			b, err2 := sg.GoTokens(want[n])
			if err1 != nil || err2 != nil {
				c.FailD(s.all(), "%s: %v %v", n, err1, err2)
			}
			if a != b {
				c.FailD(s.all()+"\n"+got[n], "%s differs from what is generated without comments: %s", n, diff(a, b))
			}
			g, err := sg.CommentsOf(got[n])
			if err != nil {
				c.FailD(s.all()+"\n"+got[n], "%s: %v", n, err)
			}
			all[n] = g
		}
		c.Add("files_compared", len(got))
		b := newBook(c, s)
		enumOf := map[*sg.Value]*sg.Enum{}
		for _, f := range s.set.Files {
			for _, en := range f.AllEnums() {
				for _, v := range en.Values {
					enumOf[v] = en
				}
			}
		}
		for _, m := range marks {
			f, key := b.goName(m.Owner, enumOf)
			out := s.off.Files[f.Path].GeneratedFilenamePrefix + ".pb.go"
			g := all[out]
			if g == nil {
				harness("no file %s, there are %v", out, names(got))
			}
			where := "after"
			if m.Head {
				where = "above"
			}
			if m.Away {
				for n, g := range all {
					if g.Count[m.Word] > 0 {
						c.FailD(s.all()+"\n--- "+n+"\n"+got[n], "the comment %s, which stands above %s with an empty line between them, is in %s", m.Word, key, n)
					}
				}
				c.Add("detached_comments_left_out", 1)
				continue
			}
			if !strings.Contains(g.Of[key], m.Word) {
				c.FailD(s.all()+"\n--- "+out+"\n"+got[out], "the comment %s %s (%s) is not next to it in %s; the comments there are %q", where, key, m.Word, out, g.Of[key])
			}
			n := 0
			for _, g := range all {
				n += g.Count[m.Word]
			}
			if n != 1 {
				c.FailD(s.all()+"\n--- "+out+"\n"+got[out], "the comment %s %s (%s) appears %d times", where, key, m.Word, n)
			}
			c.Add("comments_found_"+where, 1)
		}
		c.Seen(s.all())
		c.Sample(s.all())
	})
}

func names(m map[string]string) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// diff shows where two texts differ first.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range min(len(x), len(y)) {
		if x[i] != y[i] {
			lo := max(0, i-4)
			return "after " + strings.Join(x[lo:i], " ") + " there is " + strings.Join(x[i:min(i+4, len(x))], " ") + ", want " + strings.Join(y[i:min(i+4, len(y))], " ")
		}
	}
	return "one is longer"
}
