import sys; sys.path.insert(0, "tools/specs")
from gen1 import P, HELP, spec, gen1, f
from gen2 import refused, hasnot, E23, E2

HELP3 = """
// demoMessage wants a file to be refused with a message.
func demoMessage(t *testing.T, text string) {
	defer func() {
		if e := recover(); e == nil {
			t.Errorf("%q is accepted", text)
		} else if _, ok := e.(string); !ok {
			t.Errorf("%q ends with %v", text, e)
		}
	}()
	demoGen(t, false, "m.proto", nil, map[string]string{"m.proto": text})
}
"""

SPECS = [
 spec("G05-required-edition", "G05", [(P+"field.go", "if x.currentProto().Edition != editionProto2 {", "if x.currentProto().Edition == editionProto3 {")],
  refused("message M { required int32 a = 1; }", syn=E23),
  "the keyword required in a file of edition 2023", "the file is accepted"),
 spec("G05-package-twice", "G05", [(P+"proto.go", 'if p.Package != "" {\n		x.Fatalf("%s - Multiple', 'if s := c.FullIdent().GetText(); p.Package != "" && p.Package != s {\n		x.Fatalf("%s - Multiple')],
  refused("package a.b; message M { optional int32 a = 1; }", pkg="a.b", syn=E2),
  "a package statement repeated with the same name", "the file is accepted"),
 spec("G05-true-case", "G05", [(P+"option.go", 'func verifyTrueOrFalse(v string) bool {\n	switch v {', 'func verifyTrueOrFalse(v string) bool {\n	switch strings.ToLower(v) {')],
  refused("enum E { option allow_alias = True; Z = 0; A = 1; }"),
  "True instead of true", "the file is accepted, and the option has no effect"),

 spec("G13-equal-prefix", "G13", [(P+"utils.go", "	return len(a) >= len(b)+1 &&", "	return len(a) >= len(b) &&")],
  'demoMessage(t, `syntax = "proto3"; package a.b; option go_package = "x.test/m"; message M { a.b c = 1; }`)\n',
  "a field whose type is the name of a package", "prutalgen panics instead of refusing the type with a message", ),
 spec("G01-nested-extend", "G01", [(P+"field.go", "	case parser.ProtobufParserRULE_extendDef: // only for protoc\n		return\n", "	case parser.ProtobufParserRULE_extendDef: // only for protoc\n		if len(x.msgstack) == 0 {\n			return\n		}\n")],
  gen1('syntax = "proto2"; option go_package = "x.test/m"; message B { extensions 100 to 200; } message M { extend B { optional int32 ext = 100; } optional int32 a = 1; }', "type M struct { A *int32") ,
  "an extension declared in a message", "the extension becomes a field of the message it's declared in"),
 spec("G13-import-cycle", "G13", [(P+"prutalgen.go", "	for _, p := range x.protostack {\n		if p.ProtoFile == fn {\n			return p\n		}\n	}", "	if n := len(x.protostack); n > 0 && x.protostack[n-1].ProtoFile == fn {\n		return x.protostack[n-1]\n	}"),
   (P+"prutalgen.go", "	push(&x.protostack, p)\n	defer pop(&x.protostack)\n	x.protos = append(x.protos, p)\n\n	x.Infof(\"parsing\")", "	push(&x.protostack, p)\n	defer pop(&x.protostack)\n	defer func() { x.protos = append(x.protos, p) }()\n\n	x.Infof(\"parsing\")")],
  """if os.Getenv("DEMO_CHILD") != "" {
		demoGen(t, false, "a.proto", nil, map[string]string{
			"a.proto": `syntax = "proto3"; option go_package = "x.test/a"; import "b.proto"; message A {}`,
			"b.proto": `syntax = "proto3"; option go_package = "x.test/b"; import "a.proto"; message B {}`,
		})
		return
	}
	c := exec.Command(os.Args[0], "-test.run", "TestDemo", "-test.timeout", "30s")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	b, _ := c.CombinedOutput()
	if !strings.Contains(string(b), "cyclic import is NOT allowed") || len(b) > 100000 {
		t.Fatalf("%d bytes: %.2000s", len(b), b)
	}
""",
  "an import cycle of two or more files", "prutalgen loads the files again and again until its stack overflows"),
 spec("G13-write-error", "G13", [(P+"code.go", "			err := os.WriteFile(fn, newb, 0644)\n			if err != nil {\n				return err\n			}", "			_ = os.WriteFile(fn, newb, 0644)"),
   (P+"code.go", "	err = os.WriteFile(fn, b, 0644)\n	if err != nil {\n		return err\n	}\n	if g.Format {", "	if !g.Format {\n		return os.WriteFile(fn, b, 0644)\n	} else {")],
  """dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "m.proto"), []byte(`syntax = "proto3"; option go_package = "x.test/m"; message M {}`), 0o644)
	l := NewLoader([]string{dir}, nil)
	l.SetLogger(demoLogger{})
	p := l.LoadProto("m.proto")[0]
	g := NewGoCodeGen()
	out := filepath.Join(dir, "out")
	os.MkdirAll(g.SourcePath(p, GenByImport, out, ".pb.go"), 0o755) // nothing can be written there
	if err := g.Gen(p, GenByImport, out); err == nil {
		t.Fatal("success without a file")
	}
""",
  "a Go file which can't be written: no space, no permission, a directory in its place", "prutalgen ends with success though the code isn't there"),
 spec("G13-plus-comment", "G13", [(P+"code.go", '	w.F("} %s", m.InlineComment)', '	w.F("}%s", strings.TrimPrefix(m.InlineComment, "//"))')],
  'demoParses(t, `syntax = "proto3"; option go_package = "x.test/m"; message M {} // a comment`)\n',
  "a comment behind a message", "the Go file can't be parsed"),
]

for s in SPECS:
    if "demoMessage" in s["demo"]:
        s["demo"] += HELP3
    if "exec." in s["demo"]:
        s["demo"] = s["demo"].replace('"os"\n', '"os"\n\t"os/exec"\n', 1)
SPECS = [s for s in SPECS if s["id"] != "G13-plus-comment"]
