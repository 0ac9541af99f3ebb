package sg

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"regexp"
	"strings"

	"vharness/model"
)

// StripComments removes the comments of a .proto text; line ends stay.
func StripComments(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		switch {
		case s[i] == '"' || s[i] == '\'':
			j := i + 1
			for j < len(s) && s[j] != s[i] && s[j] != '\n' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(s))
			b.WriteString(s[i:j])
			i = j
		case strings.HasPrefix(s[i:], "//"):
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				return b.String()
			}
			i += j
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return b.String()
			}
			b.WriteByte(' ')
			i += j + 4
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String()
}

// Mark is a comment put next to a declaration.
type Mark struct {
	Word  string
	Owner any // *Msg, *Field, *Enum, *Value
	Head  bool
	Away  bool // an empty line is between the comment and the declaration
}

// MarkComments puts comments with unique words above and after declarations.
func (s *Set) MarkComments(r *model.Rng, hostile bool) (out []Mark) {
	pct := r.Pick(20, 50, 90)
	comment := func(owner any, head, block bool) string {
		w := fmt.Sprintf("MARK%dEND", len(out))
		out = append(out, Mark{Word: w, Owner: owner, Head: head})
		c := Comment(r, hostile, block)
		if !block {
			return c + " " + w
		}
		if r.P(50) {
			return "/*" + w + " " + c[2:]
		}
		return c[:len(c)-2] + " " + w + "*/"
	}
	annot := func(owner any, a *Annot) {
		if r.P(pct) {
			if r.P(30) { // a detached one
				for n := 1 + r.N(2); n > 0; n-- {
					a.Head = append(a.Head, comment(owner, true, r.P(50)))
					out[len(out)-1].Away = true
				}
				a.Head = append(a.Head, []string{"", " ", "\t", "\r", "  \t ", "\f"}[r.N(6)])
				if r.P(30) {
					a.Head = append(a.Head, "")
				}
			}
			for n := 1 + r.N(3); n > 0; n-- {
				if r.P(25) {
					a.Head = append(a.Head, Comment(r, hostile, r.P(50)))
				}
				a.Head = append(a.Head, comment(owner, true, r.P(35)))
			}
		}
		if r.P(pct) {
			a.Inline = comment(owner, false, r.P(35))
		}
	}
	for _, f := range s.Files {
		if f.Known != nil {
			continue
		}
		for _, e := range f.AllEnums() {
			annot(e, &e.Annot)
			for _, v := range e.Values {
				annot(v, &v.Annot)
			}
		}
		for _, m := range f.AllMsgs() {
			annot(m, &m.Annot)
			for _, x := range m.Fields {
				annot(x, &x.Annot)
			}
		}
	}
	return
}

// GoTokens is the text without comments and layout.
func GoTokens(text string) (string, error) {
	fs := token.NewFileSet()
	var sc scanner.Scanner
	var err error
	sc.Init(fs.AddFile("x.go", -1, len(text)), []byte(text), func(p token.Position, msg string) { err = fmt.Errorf("%v: %s", p, msg) }, 0)
	var b strings.Builder
	for {
		_, t, lit := sc.Scan()
		if t == token.EOF {
			return b.String(), err
		}
		if t == token.SEMICOLON {
			lit = ""
		}
		b.WriteString(t.String() + " " + lit + "\n")
	}
}

// GoComments maps each declaration ("T", "T.F", "const C") to the text of the comments
// which belong to it; loose is the text of all others.
type GoComments struct {
	Of    map[string]string
	Count map[string]int // word to number of times it appears at all
}

var markRe = regexp.MustCompile(`MARK\d+END`)

// Words lists the marks in a text.
func Words(s string) []string { return markRe.FindAllString(s, -1) }

// CommentsOf reads the comments of one generated file.
func CommentsOf(text string) (*GoComments, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", text, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	g := &GoComments{Of: map[string]string{}, Count: map[string]int{}}
	for _, c := range f.Comments {
		for _, x := range c.List {
			for _, w := range Words(x.Text) {
				g.Count[w]++
			}
		}
	}
	add := func(k string, gs ...*ast.CommentGroup) {
		for _, c := range gs {
			if c != nil {
				for _, x := range c.List {
					g.Of[k] += x.Text + "\n"
				}
			}
		}
	}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, sp := range gd.Specs {
			switch sp := sp.(type) {
			case *ast.TypeSpec:
				add(sp.Name.Name, sp.Doc, sp.Comment)
				if len(gd.Specs) == 1 {
					add(sp.Name.Name, gd.Doc)
				}
				if st, ok := sp.Type.(*ast.StructType); ok {
					for _, fd := range st.Fields.List {
						for _, n := range fd.Names {
							add(sp.Name.Name+"."+n.Name, fd.Doc, fd.Comment)
						}
					}
				}
			case *ast.ValueSpec:
				for _, n := range sp.Names {
					add("const "+n.Name, sp.Doc, sp.Comment)
				}
				if len(gd.Specs) == 1 {
					add("const "+sp.Names[0].Name, gd.Doc)
				}
			}
		}
	}
	return g, nil
}
