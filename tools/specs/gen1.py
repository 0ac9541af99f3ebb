P = "prutalgen/pkg/prutalgen/"
HELP = '''package prutalgen

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

type demoLogger struct{}

func (demoLogger) Fatalf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func (demoLogger) Printf(f string, a ...any) {}

var demoOut string

// demoGen generates the Go code of a file, with single spaces.
func demoGen(t *testing.T, getter bool, main string, opts map[string]string, files map[string]string) string {
	dir := t.TempDir()
	for n, s := range files {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755)
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	l := NewLoader([]string{dir}, opts)
	l.SetLogger(demoLogger{})
	p := l.LoadProto(main)[0]
	g := NewGoCodeGen()
	g.Getter = getter
	out := demoOut
	if out == "" {
		out = filepath.Join(dir, "out")
	}
	if err := g.Gen(p, GenByImport, out); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(g.SourcePath(p, GenByImport, out, ".pb.go"))
	if err != nil {
		t.Fatal(err)
	}
	return strings.Join(strings.Fields(string(b)), " ")
}

// demoRefused tells whether the file is refused.
func demoRefused(t *testing.T, main string, files map[string]string) (refused bool) {
	defer func() {
		if e := recover(); e != nil {
			refused = true
		}
	}()
	demoGen(t, false, main, nil, files)
	return false
}

func demoHas(t *testing.T, text string, wants ...string) {
	for _, w := range wants {
		if !strings.Contains(text, w) {
			t.Errorf("%q is missing in\\n%s", w, text)
		}
	}
}
'''

def spec(id, prop, edits, test, needs, breaks, **kw):
    return dict(id=id, prop=prop, edits=edits, demo=HELP + "\nfunc TestDemo(t *testing.T) {\n" + test + "\n}\n",
                needs=needs, breaks=breaks, pkg="prutalgen/pkg/prutalgen", **kw)

def gen1(text, *wants, getter="false", main="m.proto", opts="nil", **files):
    fs = ", ".join('%s: `%s`' % ('"%s"' % k, v) for k, v in [("m.proto", text)] + [(k.replace("__", "/") + ".proto", v) for k, v in files.items()])
    return 'x := demoGen(t, %s, "%s", %s, map[string]string{%s})\n' % (getter, main, opts, fs) + "demoHas(t, x, %s)" % ", ".join("`%s`" % w if "`" not in w else '"%s"' % w.replace('"', '\\"') for w in wants)

P3 = 'syntax = "proto3"; '
def f(body, go="x.test/m", pkg="", syn=P3):
    return syn + (f"package {pkg}; " if pkg else "") + f'option go_package = "{go}"; ' + body

SPECS = [
 spec("G01-map-value-import", "G01", [(P+"code.go", "	if f.Type.IsExternalType() {", "	if f.Type.IsExternalType() && !f.IsMap() {")],
  gen1(f('import "o.proto"; message M { map<int32, o.O> m = 1; }'), '"x.test/o"', o=f("message O {}", "x.test/o", "o")),
  "a file whose only use of an imported package is as the value of a map", "the import is left out, so that the generated code does not compile"),
 spec("G01-wrapper-name", "G01", [(P+"code.go", "		structname := f.OneofStructName()", "		structname := o.Msg.GoName + \"_\" + f.GoName")],
  gen1(f("message M { oneof o { int32 foo = 1; } message Foo {} }"), "type M_Foo_ struct", "type M_Foo struct"),
  "a oneof member and a nested message of the same Go name", "two types get the same name"),
 spec("G02-feature-order", "G02", [(P+"field.go", '''		if s, ok := f.Options.Get(f_repeated_field_encoding); ok {
			v = s
		} else if s, ok = p.Options.Get(f_repeated_field_encoding); ok {''', '''		if s, ok := p.Options.Get(f_repeated_field_encoding); ok {
			v = s
		} else if s, ok = f.Options.Get(f_repeated_field_encoding); ok {''')],
  gen1(f('option features.repeated_field_encoding = EXPANDED; message M { repeated int32 a = 1 [features.repeated_field_encoding = PACKED]; }', syn='edition = "2023"; '), 'protobuf:"varint,1,rep,packed,name=a"'),
  "an edition 2023 file which sets repeated_field_encoding, and a field which sets it to the opposite", "the field's own feature is ignored"),
 spec("G02-legacy-required", "G02", [(P+"field.go", '			return s != "IMPLICIT" // EXPLICIT or LEGACY_REQUIRED', '			return s == "EXPLICIT"')],
  gen1(f('message M { int32 a = 1 [features.field_presence = LEGACY_REQUIRED]; }', syn='edition = "2023"; '), "A *int32"),
  "an edition 2023 field with LEGACY_REQUIRED presence", "the field is no pointer, so that its presence is lost"),
 spec("G02-packed-imported-enum", "G02", [(P+"field.go", "	if !(scalarPackedTypes[f.Type.Name] || f.Type.IsEnum()) {", "	if !(scalarPackedTypes[f.Type.Name] || f.Type.IsEnum() && !f.Type.IsExternalType()) {")],
  gen1(f('import "o.proto"; message M { repeated o.E e = 1; }'), 'protobuf:"varint,1,rep,packed,name=e"', o=f("enum E { Z = 0; }", "x.test/o", "o")),
  "a repeated field of an enum of another Go package", "the field is not packed"),
 spec("G03-map-key-encoding", "G03", [(P+"code.go", "		b = append(b, f.Key.EncodingType()...)", "		b = append(b, scalar2encodingType[f.Key.GoName()]...)")],
  gen1(f('message M { map<sint32, bool> m = 1; map<fixed64, bool> n = 2; }'), 'protobuf_key:"zigzag32,1,opt,name=key"', 'protobuf_key:"fixed64,1,opt,name=key"'),
  "map keys of the types sint, fixed and sfixed", "the keys are encoded as plain varints, which other implementations misread"),
 spec("G04-prefix-twice", "G04", [(P+"utils.go", '''	if hasPathPrefix(a, b) {
		return a[len(b)+1:], true
	}
	return a, false''', '''	ok := false
	for hasPathPrefix(a, b) {
		a, ok = a[len(b)+1:], true
	}
	return a, ok''')],
  gen1(f('message T {} message a { message T {} } message M { .a.a.T f = 1; }', "x.test/m", "a"), "F *A_T"),
  "a package with a message of the package's name", "the name refers to another type of the package"),
 spec("G11-same-base-file", "G11", [(P+"prutalgen.go", '''		for _, p := range x.protos {
			if p.ProtoFile == fn {''', '''		for _, p := range x.protos {
			if filepath.Base(p.ProtoFile) == filepath.Base(fn) && filepath.Base(fn) != filepath.Base(x.protos[0].ProtoFile) {''')],
  gen1(f('import "a/f.proto"; import "b/f.proto"; message M { a.T x = 1; b.T y = 2; }'), "X *a.T", "Y *b.T",
       a__f=f("message T {}", "x.test/a", "a"), b__f=f("message T {}", "x.test/b", "b")),
  "two imported files with the same base name", "the second import is taken for the first"),
 spec("G11-alias-suffix", "G11", [(P+"codewriter.go", "	if path.Base(p) == a {", "	if strings.HasSuffix(p, a) {"), (P+"codewriter.go", '	"path"\n', "")],
  gen1(f('import "o.proto"; import "p.proto"; message M { o.T x = 1; p.T y = 2; }'), "Y *foo1.T", 'foo1 "x.test/b/xfoo1"',
       o=f("message T {}", "x.test/a/foo", "o"), p=f("message T {}", "x.test/b/xfoo1;foo", "p")),
  "two packages of the same name, one of them in a directory whose name ends with the alias made for it", "the alias is dropped, and the package cannot be referred to"),
 spec("G05-enum-max", "G05", [(P+"reserved.go", "			v.to = math.MaxInt32", "			v.to = protobufFieldNumberMax"), (P+"reserved.go", '''import (
	"math"

	"github''', '''import (
	"github''')],
  'if !demoRefused(t, "m.proto", map[string]string{"m.proto": `%s`}) { t.Error("accepted") }' % f("enum E { Z = 0; A = 536870912; reserved 5 to max; }"),
  "an enum with `reserved ... to max` and a value above the highest field number", "the reserved value is accepted"),
 spec("G05-oneof-duplicate", "G05", [(P+"message.go", "		exists[x.FieldNumber] = true", "		exists[x.FieldNumber] = x.Oneof == nil")],
  'if !demoRefused(t, "m.proto", map[string]string{"m.proto": `%s`}) { t.Error("accepted") }' % f("message M { oneof o { int32 a = 1; } int32 b = 1; }"),
  "a field number used in a oneof and again later", "the duplicate is accepted"),
 spec("G05-number-max", "G05", [(P+"reserved.go", "	protobufFieldNumberMax = 1<<29 - 1", "	protobufFieldNumberMax = 1 << 29")],
  'if !demoRefused(t, "m.proto", map[string]string{"m.proto": `%s`}) { t.Error("accepted") }' % f("message M { int32 a = 536870912; }"),
  "a field number just above the highest one", "it is accepted"),
 spec("G06-value-map-order", "G06", [(P+"code.go", '''		for _, f := range e.Fields {
			w.F("%q: %d,", f.Name, f.Value)
		}''', '''		values := make(map[string]int32, len(e.Fields))
		for _, f := range e.Fields {
			values[f.Name] = f.Value
		}
		for name, v := range values {
			w.F("%q: %d,", name, v)
		}''')],
  'for i := 0; i < 60; i++ {\n' + gen1(f("enum E { Z = 0; A = 1; B = 2; }"), 'map[string]int32{ "Z": 0, "A": 1, "B": 2, }') + '\n}',
  "several runs", "the order of the entries of the value map changes from run to run"),
 spec("G06-no-truncate", "G06", [(P+"code.go", "	err = os.WriteFile(fn, b, 0644)", "	err = writeOut(fn, b)"), (P+"code.go", "			err := os.WriteFile(fn, newb, 0644)", "			err := writeOut(fn, newb)"),
   (P+"code.go", "func (g *GoCodeGen) Gen(", '''func writeOut(fn string, b []byte) error {
	f, err := os.OpenFile(fn, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	if _, err = f.Write(b); err != nil {
		f.Close()
		return err
	}
	return f.Close()
}

func (g *GoCodeGen) Gen(''')],
  '''demoOut = t.TempDir()
long := demoGen(t, false, "m.proto", nil, map[string]string{"m.proto": `%s`})
short := demoGen(t, false, "m.proto", nil, map[string]string{"m.proto": `%s`})
if len(short) >= len(long) || strings.Contains(short, "type B struct") { t.Error(short) }''' % (f("message A {} message B { int32 a = 1; int32 b = 2; int32 c = 3; }"), f("message A {}")),
  "an output file which exists and is longer than the new one", "the rest of the old file stays"),
 dict(id="G06-mopt-clean", prop="G06", edits=[("prutalgen/pkg/utils/args/go_opts.go", "			ret[filepath.Clean(a)] = b", "			ret[a] = b"),
   ("prutalgen/pkg/utils/args/go_opts.go", '''	"path/filepath"
''', "")], pkg="prutalgen/pkg/utils/args",
  demo='''package args

import "testing"

func TestDemo(t *testing.T) {
	o := &GoOpts{}
	o.Set("M./a/f.proto=x.test/m")
	if o.Proto2pkg()["a/f.proto"] != "x.test/m" {
		t.Error(o.Proto2pkg())
	}
}
''', needs="an M option with another spelling of the path (./f.proto)", breaks="the option is ignored"),
 spec("G07-octal", "G07", [("prutalgen/internal/protobuf/text/decode_number.go", '''	d := NewDecoder([]byte(s))
	t, ok := d.parseNumberValue()
	if ok {
		return t.Int32()''', '''	if n, err := strconv.ParseInt(s, 10, 32); err == nil {
		return int32(n), true
	}
	d := NewDecoder([]byte(s))
	t, ok := d.parseNumberValue()
	if ok {
		return t.Int32()'''), ("prutalgen/internal/protobuf/text/decode_number.go", "package text\n", "package text\n\nimport \"strconv\"\n")],
  gen1(f("enum E { Z = 0; A = 010; B = -017; C = 0x10; }"), "E_A E = 8", "E_B E = -15", "E_C E = 16"),
  "a number in octal", "it is read as decimal"),
 spec("G07-nested-prefix", "G07", [(P+"enum.go", '			f.GoName = e.Msg.GoName + "_" + f.Name', '			f.GoName = strs.GoCamelCase(e.Msg.Name) + "_" + f.Name')],
  gen1(f("message A { message B { enum E { Z = 0; } } }"), "A_B_Z A_B_E = 0"), "an enum nested two levels deep", "its constants lack a part of their names"),
 spec("G08-nil-oneof", "G08", [(P+"code.go", '''			w.F("if p, ok := x.Get%s().(*%s); ok {", o.FieldName(), f.OneofStructName())''', '''			w.F("if p, ok := x.%s.(*%s); ok {", o.FieldName(), f.OneofStructName())''')],
  gen1(f("message M { oneof o { int32 a = 1; } }"), "func (x *M) GetA() int32 { if p, ok := x.GetO().(*M_A); ok {", getter="true"),
  "the getter of a oneof member on a nil message", "it panics"),
 spec("G09-unrecognized-precedence", "G09", [(P+"message.go", '''	if v, ok := m.Options.Get(gogoproto_goproto_unrecognized); ok {
		return istrue(v)
	} else if v''', '''	if v, ok := m.Options.Get(gogoproto_goproto_unrecognized); ok && istrue(v) {
		return true
	} else if v''')],
  'x := ' + gen1(f('option (gogoproto.goproto_unrecognized_all) = true; message M { option (gogoproto.goproto_unrecognized) = false; }'), "type M struct")[5:] + '\nif strings.Contains(x, "unknownFields") { t.Error(x) }',
  "a file option which turns on unknown fields, and a message which turns them off", "the message's option is ignored"),
 spec("G09-nopointer-inherited", "G09", [(P+"field.go", '''	if f.Msg != nil && f.Msg.Directives.Has(prutalNoPointer) {
		return true
	}''', '''	for m := f.Msg; m != nil; m = m.Msg {
		if m.Directives.Has(prutalNoPointer) {
			return true
		}
	}''')],
  gen1(f('//prutalgen:no_pointer\nmessage M { int32 a = 1; message N { optional int32 b = 1; } }'), "B *int32"),
  "no_pointer on a message with nested messages", "it applies to the nested ones as well"),
 spec("G10-blank-line", "G10", [(P+"comment.go", '			if strings.Count(s, "\\n") > 1 {', '			if strings.Contains(s, "\\n\\n") {')],
  'x := ' + gen1(f('message M { // open\n  \n// apart\n  \n int32 a = 1; }'), "type M struct")[5:] + '\nif strings.Contains(x, "apart") { t.Error(x) }',
  "a comment separated from what follows by a line of spaces", "it is taken for the comment of the declaration"),
 spec("G12-public-order", "G12", [(P+"utils.go", '''			deps[p] = append(deps[p], imp.Proto)
''', '''			if imp.Public {
				continue
			}
			deps[p] = append(deps[p], imp.Proto)
''')],
  '''dir := t.TempDir()
for n, s := range map[string]string{"m.proto": `%s`, "a.proto": `%s`, "b.proto": `%s`} {
	os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644)
}
l := NewLoader([]string{dir}, nil)
l.SetLogger(demoLogger{})
pos := map[string]int{}
for i, p := range l.LoadProto("m.proto") {
	pos[filepath.Base(p.ProtoFile)] = i
}
if !(pos["m.proto"] < pos["b.proto"] && pos["b.proto"] < pos["a.proto"]) { t.Error(pos) }''' % (
   f('import "a.proto"; import "b.proto";'), f("", "x.test/a"), f('import public "a.proto";', "x.test/b")),
  "a public import of a file which was loaded before", "the files are not in topological order"),
 spec("G11-wkt-mopt", "G11", [(P+"prutalgen.go", "	x.parseInput(is, x.proto2gopkg[file])", '	x.parseInput(is, "")')],
  gen1(f('import "google/protobuf/any.proto"; message M { google.protobuf.Any a = 1; }'), '"x.test/any/anypb"',
   opts='map[string]string{"google/protobuf/any.proto": "x.test/any/anypb"}'),
  "an M option for a well-known file", "the option is ignored"),
]
