package sg

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path"
	"sort"
	"strings"

	"google.golang.org/protobuf/cmd/protoc-gen-go/internal_gengo"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Official is what the official Go plugin makes of a set.
type Official struct {
	Plugin  *protogen.Plugin
	Sources Sources
	Files   map[string]*protogen.File
	Set     *descriptorpb.FileDescriptorSet
	Reg     *protoregistry.Files
}

// Sources maps Go import path to file name to text.
type Sources map[string]map[string]string

func (s Sources) Add(imp, name, text string) {
	if s[imp] == nil {
		s[imp] = map[string]string{}
	}
	s[imp][name] = text
}

// DescriptorSet has all files in dependency order.
func (s *Set) DescriptorSet() *descriptorpb.FileDescriptorSet {
	out := &descriptorpb.FileDescriptorSet{}
	seen := map[*File]bool{}
	var add func(f *File)
	add = func(f *File) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, i := range f.Imports {
			add(i.F)
		}
		out.File = append(out.File, f.Descriptor())
	}
	for _, f := range s.Files {
		add(f)
	}
	for _, f := range s.Known {
		if f.ViaM {
			add(f)
		}
	}
	return out
}

// MOpts are the M options of the set.
func (s *Set) MOpts() (out []string) {
	for _, f := range append(s.Known[:len(s.Known):len(s.Known)], s.Files...) {
		if f.ViaM {
			out = append(out, "M"+f.Path+"="+f.GoPackageOption())
		}
	}
	return
}

// RunOfficial runs the official plugin in this process.
func RunOfficial(s *Set) (o *Official, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	o = &Official{Sources: Sources{}, Files: map[string]*protogen.File{}, Set: s.DescriptorSet()}
	o.Reg, err = protodesc.NewFiles(o.Set)
	if err != nil {
		return nil, err
	}
	req := &pluginpb.CodeGeneratorRequest{}
	// the official plugin expects json names, which protoc fills in
	req.ProtoFile = proto.Clone(o.Set).(*descriptorpb.FileDescriptorSet).File
	for _, p := range s.GenPaths() {
		req.FileToGenerate = append(req.FileToGenerate, p)
	}
	if m := s.MOpts(); len(m) > 0 {
		req.Parameter = proto.String(strings.Join(m, ","))
	}
	o.Plugin, err = protogen.Options{}.New(req)
	if err != nil {
		return nil, err
	}
	for _, f := range o.Plugin.Files {
		o.Files[f.Desc.Path()] = f
		if f.Generate {
			internal_gengo.GenerateFile(o.Plugin, f)
		}
	}
	resp := o.Plugin.Response()
	if resp.Error != nil {
		return nil, fmt.Errorf("%s", resp.GetError())
	}
	for _, f := range resp.File {
		o.Sources.Add(path.Dir(f.GetName()), path.Base(f.GetName()), f.GetContent())
	}
	return o, nil
}

// Msgs lists all messages of the file, map entries excluded.
func Msgs(f *protogen.File) (out []*protogen.Message) {
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if !m.Desc.IsMapEntry() {
				out = append(out, m)
				walk(m.Messages)
			}
		}
	}
	walk(f.Messages)
	return
}

func EnumsOf(f *protogen.File) (out []*protogen.Enum) {
	out = append(out, f.Enums...)
	for _, m := range Msgs(f) {
		out = append(out, m.Enums...)
	}
	return
}

// --- type checking

// Checker type-checks generated packages.
type Checker struct {
	exports map[string]string
	ext     map[string]*types.Package
	fset    *token.FileSet
	gc      types.Importer
}

// NewChecker reads a list of "import path, export file" lines.
func NewChecker(list string) (*Checker, error) {
	b, err := os.ReadFile(list)
	if err != nil {
		return nil, err
	}
	c := &Checker{exports: map[string]string{}, fset: token.NewFileSet()}
	for _, l := range strings.Split(string(b), "\n") {
		if p, f, ok := strings.Cut(l, " "); ok && f != "" {
			c.exports[p] = f
		}
	}
	c.gc = importer.ForCompiler(c.fset, "gc", func(p string) (io.ReadCloser, error) {
		f := c.exports[p]
		if f == "" {
			return nil, fmt.Errorf("no export data for %q", p)
		}
		return os.Open(f)
	})
	return c, nil
}

// Pkg is a type-checked package.
type Pkg struct {
	*types.Package
	Files map[string]*ast.File
	Info  *types.Info
	Fset  *token.FileSet
}

// Check type-checks the packages. The error names the first problem.
func (c *Checker) Check(src Sources) (map[string]*Pkg, error) {
	out := map[string]*Pkg{}
	busy := map[string]bool{}
	fset := token.NewFileSet()
	var check func(p string) (*Pkg, error)
	check = func(p string) (*Pkg, error) {
		if x := out[p]; x != nil {
			return x, nil
		}
		if busy[p] {
			return nil, fmt.Errorf("import cycle through %q", p)
		}
		busy[p] = true
		defer delete(busy, p)
		x := &Pkg{Files: map[string]*ast.File{}, Fset: fset, Info: &types.Info{Defs: map[*ast.Ident]types.Object{}}}
		var names []string
		for n := range src[p] {
			names = append(names, n)
		}
		sort.Strings(names)
		var files []*ast.File
		for _, n := range names {
			f, err := parser.ParseFile(fset, p+"/"+n, src[p][n], parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			x.Files[n] = f
			files = append(files, f)
		}
		var nested error
		conf := types.Config{Importer: importFunc(func(q string) (*types.Package, error) {
			if src[q] != nil {
				y, err := check(q)
				if err != nil {
					nested = err
					return nil, err
				}
				return y.Package, nil
			}
			return c.gc.Import(q)
		})}
		tp, err := conf.Check(p, fset, files, x.Info)
		if nested != nil {
			return nil, nested
		}
		if err != nil {
			return nil, err
		}
		x.Package = tp
		out[p] = x
		return x, nil
	}
	var paths []string
	for p := range src {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if _, err := check(p); err != nil {
			return nil, err
		}
	}
	return out, nil
}

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(p string) (*types.Package, error) { return f(p) }

// TypeString prints a type with full package paths.
func TypeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

// WireEncoding is the encoding part of a struct tag.
func WireEncoding(k protoreflect.Kind) string {
	switch k {
	case protoreflect.BoolKind, protoreflect.EnumKind, protoreflect.Int32Kind, protoreflect.Int64Kind, protoreflect.Uint32Kind, protoreflect.Uint64Kind:
		return "varint"
	case protoreflect.Sint32Kind:
		return "zigzag32"
	case protoreflect.Sint64Kind:
		return "zigzag64"
	case protoreflect.Fixed32Kind, protoreflect.Sfixed32Kind, protoreflect.FloatKind:
		return "fixed32"
	case protoreflect.Fixed64Kind, protoreflect.Sfixed64Kind, protoreflect.DoubleKind:
		return "fixed64"
	case protoreflect.GroupKind:
		return "group"
	}
	return "bytes"
}
