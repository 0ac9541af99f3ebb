import sys; sys.path.insert(0, "tools/specs")
from gen1 import P, HELP, spec, gen1, f

def refused(text, **kw):
    return 'if !demoRefused(t, "m.proto", map[string]string{"m.proto": `%s`}) { t.Error("accepted") }' % f(text, **kw)

def hasnot(pre, *no):
    return 'x := ' + pre[5:] + "".join('\nif strings.Contains(x, "%s") { t.Error(x) }' % n for n in no)

E23 = 'edition = "2023"; '
E2 = 'syntax = "proto2"; '

SPECS = [
 spec("G08-zero-external", "G08", [(P+"field.go", "			if f.Value != 0 {\n				continue", "			if f.Value != 0 && !tp.IsExternalType() {\n				continue")],
  gen1(f('import "o.proto"; message M { optional o.E e = 1; }', syn=E2), "return o.E_ZERO", getter="true", o=f("enum E { ONE = 1; ZERO = 0; }", "x.test/o", "o", syn=E2)),
  "a field of an enum of another Go package whose constant 0 is not the first", "the getter returns the first constant on a nil message"),
 spec("G08-kitex-prefix", "G08", [(P+"code.go", "return prutal.MarshalAppend(in, x) }", "return prutal.MarshalAppend(in[:0], x) }")],
  'dir := t.TempDir()\nos.WriteFile(filepath.Join(dir, "m.proto"), []byte(`%s`), 0o644)\nl := NewLoader([]string{dir}, nil)\nl.SetLogger(demoLogger{})\np := l.LoadProto("m.proto")[0]\ng := NewGoCodeGen()\ng.Marshaler = MarshalerKitexProtobuf\nw := NewCodeWriter("", "m")\ng.ProtoGen(p, w)\ndemoHas(t, string(w.Bytes()), "return prutal.MarshalAppend(in, x)")' % f("message M {}"),
  "the Kitex marshaler called with bytes to append to", "the bytes are overwritten"),
 spec("G04-path-prefix", "G04", [(P+"utils.go", '''	return len(a) >= len(b)+1 &&
		a[:len(b)] == b && a[len(b)] == '.\'''', '''	return len(a) >= len(b)+1 &&
		a[:len(b)] == b && (a[len(b)] == '.' || a[len(b)] == '_')''')],
  gen1(f('import "o.proto"; message b { message T {} } message M { .a_b.T y = 2; }', "x.test/m", "a"), "Y *o.T", o=f("message T {}", "x.test/o", "a_b")),
  "two packages a and a_b, a message b in the first, and a name with a leading dot", "the name refers to the message of the wrong package"),
 spec("G10-inline-next-line", "G10", [(P+"comment.go", '			if strings.Contains(s, "\\n") {\n				return ""', '			if strings.HasPrefix(strings.TrimLeft(s, " "), "\\n") {\n				return ""')],
  hasnot(gen1(f("message M { int32 a = 1;\t\n //prutalgen:no_pointer\n\n optional int32 b = 2; int32 c = 3; }").replace("int32 a = 1", "optional int32 a = 1"), "A *int32"), "no_pointer"),
  "a tab at the end of the line, and a comment in the next", "the comment becomes the inline comment of the line before, with its directives"),
 spec("G12-reset-protos", "G12", [(P+"prutalgen.go", "	x.protos = nil\n", "	x.protos = x.protos[:0]\n")],
  '''dir := t.TempDir()
for n, s := range map[string]string{"m.proto": `%s`, "a.proto": `%s`} {
	os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644)
}
l := NewLoader([]string{dir}, nil)
l.SetLogger(demoLogger{})
a := l.LoadProto("m.proto")
names := func() (ret string) {
	for _, p := range a {
		ret += filepath.Base(p.ProtoFile) + " "
	}
	return
}
before := names()
l.LoadProto("a.proto")
if names() != before { t.Error(before, names()) }''' % (f(""), f("", "x.test/a")),
  "a loader used again while the files of an earlier call are held", "the earlier result is overwritten"),
 spec("G12-oneof-options", "G12", [(P+"option.go", '''		of := x.currentOneof()
''', '''		of := x.currentMsg().Oneofs[0]
''')],
  '''dir := t.TempDir()
os.WriteFile(filepath.Join(dir, "m.proto"), []byte(`%s`), 0o644)
l := NewLoader([]string{dir}, nil)
l.SetLogger(demoLogger{})
oo := l.LoadProto("m.proto")[0].Messages[0].Oneofs
if len(oo[0].Options) != 0 || len(oo[1].Options) != 1 { t.Error(oo[0].Options, oo[1].Options) }''' % f("message M { oneof a { int32 x = 1; } oneof b { option (my) = 1; int32 y = 2; } }"),
  "a message with two oneofs, the second of which has options", "the options are those of the first"),
 spec("G05-alias-false", "G05", [(P+"enum.go", "	return ok && istrue(v)", '	return ok && v != ""')],
  refused("enum E { option allow_alias = false; Z = 0; A = 0; }"),
  "allow_alias = false", "it allows duplicates as true does"),
 spec("G05-nested-enum", "G05", [(P+"message.go", "	for _, x := range m.Enums {\n		if err := x.verify(); err != nil {", "	for _, x := range m.Enums {\n		if err := x.verify(); err != nil && x.Msg.Msg == nil {")],
  refused("message A { message B { enum E { Z = 0; A = 0; } } }"),
  "an enum two levels deep", "it is not verified"),
 spec("G09-enum-option-order", "G09", [(P+"enum.go", '''	} else if v, ok := e.Options.Get(gogoproto_enum_prefix); ok {
		return isfalse(v)
	} else if v, ok := e.Proto.Options.Get(gogoproto_enum_prefix_all); ok {
		return isfalse(v)''', '''	} else if v, ok := e.Proto.Options.Get(gogoproto_enum_prefix_all); ok && isfalse(v) {
		return true
	} else if v, ok := e.Options.Get(gogoproto_enum_prefix); ok {
		return isfalse(v)''')],
  gen1(f('option (gogoproto.goproto_enum_prefix_all) = false; enum E { option (gogoproto.goproto_enum_prefix) = true; Z = 0; }'), "E_Z E = 0"),
  "a file which turns enum prefixes off and an enum which turns them on again", "the enum's option is ignored"),
 spec("G09-directive-first-line", "G09", [(P+"directive.go", '''		if !strings.HasPrefix(s, prutalDirectivePrefix) {
			continue''', '''		if !strings.HasPrefix(s, prutalDirectivePrefix) {
			if len(*dd) > 0 {
				break
			}
			continue''')],
  gen1(f("//prutalgen:no_pointer\n// some words\n//prutalgen:unknown_fields\nmessage M { optional int32 a = 1; }"), "A int32", "unknownFields"),
  "two directives with an ordinary comment between them", "the second one is ignored"),
 spec("G09-map-nullable", "G09", [(P+"field.go", "		vt := goTypeName(f.Type, noptr)", '		vt := goTypeName(f.Type, noptr && f.Key.Name == "string")')],
  gen1(f('message N {} message M { map<int32, N> m = 1 [(gogoproto.nullable) = false]; map<string, N> n = 2 [(gogoproto.nullable) = false]; }'), "M map[int32]N", "N map[string]N"),
  "nullable = false for a map whose keys are no strings", "its values are pointers nevertheless"),
 spec("G09-message-over-file", "G09", [(P+"message.go", '''	if v, ok := m.Directives.IsSet(prutalUnknownFields); ok {
		return v
	}
	if v, ok := m.Proto.Directives.IsSet(prutalUnknownFields); ok {
		return v
	}''', '''	if v, ok := m.Proto.Directives.IsSet(prutalUnknownFields); ok {
		return v
	}
	if v, ok := m.Directives.IsSet(prutalUnknownFields); ok {
		return v
	}''')],
  hasnot(gen1("//prutalgen:unknown_fields\n" + f("//prutalgen:no_unknown_fields\nmessage M {}"), "type M struct"), "unknownFields"),
  "a file and a message with opposite directives about unknown fields", "the message's directive is ignored"),
 spec("G06-cwd-first", "G06", [(P+"prutalgen.go", '	includes = append(includes, "")', '	includes = append([]string{""}, includes...)')],
  '''cwd, _ := os.Getwd()
dir, other := t.TempDir(), t.TempDir()
os.WriteFile(filepath.Join(dir, "m.proto"), []byte(`%s`), 0o644)
os.WriteFile(filepath.Join(other, "m.proto"), []byte(`%s`), 0o644)
os.Chdir(other)
defer os.Chdir(cwd)
l := NewLoader([]string{dir}, nil)
l.SetLogger(demoLogger{})
if p := l.LoadProto("m.proto")[0]; p.GoImport != "x.test/in" { t.Error(p.GoImport) }''' % (f("", "x.test/in"), f("", "x.test/cwd")),
  "a file of the same name in the current directory and in an include", "the one in the current directory is taken"),
 spec("G06-import-order", "G06", [(P+"codewriter.go", "		return a.p < b.p", "		return path.Base(a.p) < path.Base(b.p)")],
  '''var first string
for i := 0; i < 60; i++ {
	w := NewCodeWriter("", "m")
	for _, p := range []string{"a/z", "b/z", "c/z", "d/z", "e/z"} {
		w.UsePkg(p, "")
	}
	s := string(w.Bytes())
	if first == "" { first = s }
	if s != first { t.Fatal(first, s) }
}''',
  "imports with the same base name, and output which is not formatted", "their order changes from run to run"),
 spec("G01-getter-name", "G01", [(P+"message.go", '		for usedNames[f.GoName] || usedNames["Get"+f.GoName] {', '		for usedNames[f.GoName] || f.Oneof == nil && usedNames["Get"+f.GoName] {')],
  gen1(f("message M { int32 get_x = 1; oneof o { int32 x = 2; } }"), "X_ int32", getter="true"),
  "a field get_x, and a member x of a oneof", "a field and a method get the same name"),
 spec("G01-oneof-name", "G01", [(P+"message.go", '		if f.Oneof != nil && f.Oneof.Fields[0] == f {\n			o := f.Oneof\n			for usedNames[o.GoName] {', '		if f.Oneof != nil && f.Oneof.Fields[0] == f {\n			o := f.Oneof\n			if usedNames[o.GoName] {')],
  gen1(f("message M { int32 o = 1; int32 O_ = 3; oneof O { int32 x = 2; } }"), "O_ int32", "O__ isM_O__"),
  "a oneof whose name and the name with one underscore are both in use", "two fields get the same name"),
 spec("G07-alias-name", "G07", [(P+"code.go", '''			seen[f.Value] = true
''', '''			seen[f.Value] = f.Value >= 0
''')],
  gen1(f("enum E { option allow_alias = true; Z = 0; A = -1; B = -1; }"), '_name = map[int32]string{ 0: "Z", -1: "A", }'.replace("_name", "E_name")),
  "aliases of a negative number", "the map has the number twice, which does not compile"),
 spec("G02-feature-default", "G02", [(P+"field.go", '			return s == "EXPLICIT"', '			return s == "EXPLICIT" || f.Type.IsEnum()')],
  gen1(f('option features.field_presence = IMPLICIT; enum E { Z = 0; } message M { E e = 1; }', syn=E23), "E E "),
  "an edition 2023 file with implicit presence and a field of an enum type", "the field is a pointer"),
 spec("G01-oneof-type", "G01", [(P+"oneof.go", '	return "is" + o.Msg.GoName + "_" + o.FieldName()', '	return "is" + o.Msg.GoName + "_" + strs.GoCamelCase(o.Name)')],
  gen1(f("message M { oneof o { int32 x = 1; } oneof O { int32 y = 2; } }"), "O isM_O ", "O_ isM_O_ "),
  "two oneofs of a message with the same Go name", "their types get the same name"),
]
