package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"vharness/model"
	"vharness/sg"
	"vharness/vrun"
)

// probe is a fixed valid file. If known is set and listed among the known findings, the
// generator is allowed to refuse it.
type probe struct {
	name, known, text string
	edition           bool              // protoc is too old for it
	files             map[string]string // other files to generate
}

const decorTypes = `import "google/protobuf/descriptor.proto";
message Opt { optional int32 i = 1; repeated int32 l = 2; optional Opt m = 3; repeated Opt ml = 4; optional string s = 5; extensions 100 to 200; }
extend google.protobuf.FieldOptions { optional Opt fo = 50001; optional string fs = 50002; optional double fd = 50003; repeated int32 fl = 50004; }
extend google.protobuf.FileOptions { optional Opt xo = 50001; }
extend Opt { optional int32 ext = 100; optional Opt extm = 101; }
`

func probes() (out []probe) {
	head := func(syntax string) string {
		return `syntax = "` + syntax + `"; package p; option go_package = "gen.test/p"; `
	}
	// words of the language as names, wherever a name may stand
	for _, w := range strings.Fields(`message enum option import syntax package public weak repeated optional required oneof map reserved to max
 double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes extend extensions service rpc
 returns stream true false inf nan group edition export local infinity go func type range string error nil len int uint8 init main _ __ a1 _1`) {
		known := map[string]string{"required": "name-required", "inf": "name-inf", "nan": "name-nan"}[w]
		for _, syn := range []string{"proto2", "proto3"} {
			l := ""
			if syn == "proto2" {
				l = "optional "
			}
			add := func(at, text string) {
				out = append(out, probe{name: "name/" + syn + "/" + at + "/" + w, known: known, text: strings.NewReplacer("$", w, "@", l).Replace(text)})
			}
			h := head(syn)
			add("field", h+"message M { @int32 $ = 1; }")
			add("message", h+"message $ { }")
			add("enum", h+"enum $ { Z = 0; }")
			if w != "option" && w != "reserved" { // protoc takes them for statements
				add("value", h+"enum E { $ = 0; }")
			}
			add("type", h+"message $ { } message M { @p.$ x = 1; message X { repeated .p.$ y = 2; map<int32, p.$> z = 3; } }")
			add("nested", h+"message $ { message $ { enum $ { Z = 0; } } }")
			add("oneof", h+"message M { oneof $ { int32 a = 1; } }")
			add("member", h+"message M { oneof o { int32 $ = 1; } }")
			add("map", h+"message M { map<int32, int32> $ = 1; }")
			add("service", h+"service $ { }")
			add("rpc", h+"message M { } service S { rpc $(M) returns (.p.M); }")
			add("package", `syntax = "`+syn+`"; package a.$.b; option go_package = "gen.test/p"; message M { @M a = 1; @a.$.b.M b = 2; }`)
			add("package1", `syntax = "`+syn+`"; package $; option go_package = "gen.test/p"; message M { @.$.M a = 1; }`)
		}
	}
	for _, syn := range []string{"proto2", "proto3"} {
		l := ""
		if syn == "proto2" {
			l = "optional "
		}
		add := func(name, known, body string) {
			out = append(out, probe{name: syn + "/" + name, known: known, text: head(syn) + strings.ReplaceAll(body, "@", l)})
		}
		add("enum-reserved-negative-range", "enum-reserved-negative", "enum E { Z = 0; reserved -5 to -1; }")
		add("enum-reserved-negative", "enum-reserved-negative", "enum E { Z = 0; reserved -5; }")
		add("enum-reserved-max", "", "enum E { Z = 0; reserved 5 to max, 3; reserved 4; reserved 'A', \"B\"; }")
		add("message-reserved", "", "message M { reserved 5 to max, 3; reserved 1 to 1; reserved \"a\", 'b'; }")
		for e, known := range map[string]string{`\?`: "escape-question", `\u0041`: "escape-unicode", `\U00000041`: "escape-unicode", `\1`: "escape-short-octal", `\12`: "escape-short-octal",
			`\x1`: "escape-short-hex", `\x41`: "", `\101`: "", `\a`: "", `\b`: "", `\f`: "", `\n`: "", `\r`: "", `\t`: "", `\v`: "", `\\`: "", `\'`: "", `\"`: ""} {
			add("escape "+e, known, "option java_package = \"a"+e+"\"; message M { @string s = 1 [json_name = 'b"+e+"']; }")
		}
		add("empty-statements", "", ";; message M { ;; }; enum E { Z = 0; ; }; service S { ; };")
		add("white-space", "", "message\fM\r{\t}\r\n")
		add("vertical-tab", "vertical-tab", "message\vM { }")
		add("cr-in-comment", "cr-in-line-comment", "// a\rb\nmessage M { }")
		add("imports", "", "import public 'google/protobuf/any.proto'; import weak \"google/protobuf/empty.proto\"; import 'google/protobuf/' \"api.proto\";")
		add("rpc-bodies", "", "message M { } service S { rpc A(M) returns (M) { } rpc B(M) returns (M) { option deprecated = true; } rpc C(stream M) returns (stream .p.M) { ; }; }")
		add("stream-type", "", "message stream { message X { } } service S { rpc A(stream stream.X) returns (stream .p.stream); rpc stream(.p.stream) returns (.p.stream); }")
		add("options", "", "enum E { option deprecated = true; Z = 0 [deprecated = true]; } message M { option deprecated = true; oneof o { int32 a = 1 [deprecated = true]; } map<string, E> m = 2 [deprecated = true, json_name = 'x']; @string s = 3 [ctype = CORD]; @int64 t = 4 [jstype = JS_STRING, lazy = false]; }")
		add("numbers", "", "enum E { option allow_alias = true; Z = 0; A = 0x10; B = -0x10; C = 010; D = 2147483647; F = -2147483648; G = 00; } message M { @int32 a = 0x10; @int32 b = 010; @int32 c = 536870911; @int32 d = 1; @int32 e = 0X1f; @int32 f = 18999; @int32 g = 20000; }")
		add("comments", "", "/**/ message M { } //\n/* a // b */ // é 中 /* \n//x\\\nenum E { Z = 0; } /***/ // end")
	}
	for name, v := range map[string]string{"int": "5", "negative": "-5", "hex": "0x1F", "octal": "017", "float": "1.5", "exponent": "1.5e3", "negative float": "-1.5", "inf": "inf", "-inf": "-inf", "nan": "nan", "-nan": "-nan",
		".5": ".5", "5.": "5.", "1e5": "1e5", "1E-5": "1E-5", "1E+5": "1E+5"} {
		out = append(out, probe{name: "default/" + name, text: head("proto2") + "message M { optional double a = 1 [default = " + v + "]; }"})
	}
	for o, known := range map[string]string{"(fo) = { i: 1 }": "", "(fo) = { i: 1; }": "", "(fo) = { i: 1, s: 'x' }": "", "(fo) = { }": "", "(fo) = { m: { i: 1 } }": "", "(fo) = { s: 'a' \"b\" }": "", "(fo) = { i: -1 }": "",
		"(fo).i = 1": "", "(fo).m.i = 1": "", "(.p.fo).i = 1": "option-name-leading-dot", "(p.fo).i = 1": "", "(fl) = 1, (fl) = 2": "", "(fs) = 'a' 'b'": "", "(fd) = 1e5": "", "(fd) = -0.5": "", "(fd) = .5": "",
		"(fo) = { l: [1, 2] }": "aggregate-list", "(fo) = { l: [] }": "aggregate-list", "(fo) = { ml: [{ i: 1 }, { i: 2 }] }": "aggregate-list", "(fo) = { m { i: 1 } }": "aggregate-nested-no-colon",
		"(fo) = { m: < i: 1 > }": "aggregate-angle-brackets", "(fo) = { [p.ext]: 1 }": "aggregate-extension", "(fo).(ext) = 1": "option-name-two-extensions", "(fo).(p.ext) = 1": "option-name-two-extensions",
		"(fo).(extm).i = 1": "option-name-two-extensions", "(fo) = { # c\n i: 1 }": "aggregate-hash-comment"} {
		out = append(out, probe{name: "option/" + o, known: known, text: head("proto2") + decorTypes + "message M { optional int32 a = 1 [" + o + "]; }"})
	}
	p2 := func(name, body string) { out = append(out, probe{name: "proto2/" + name, text: head("proto2") + body}) }
	p2("no syntax", "")
	out[len(out)-1].text = `option go_package = "gen.test/p"; message M { optional int32 a = 1; required M m = 2; }`
	p2("extensions", "message M { extensions 4, 20 to 30; extensions 100 to max; extend M { optional int32 x = 4; } } extend .p.M { repeated p.M y = 20; }")
	p2("defaults", "message M { optional string a = 1 [default = 'x\\'y']; optional bytes b = 2 [default = '\\001\\xff']; optional bool c = 3 [default = true]; optional E e = 4 [default = B]; optional int64 f = 5 [default = -9223372036854775808]; optional uint64 g = 6 [default = 0xffffffffffffffff]; } enum E { A = 1; B = 2; }")
	// packages with the names of what the generated code declares
	for _, n := range strings.Fields(`M E M_A isM_O E_Z E_name E_value M_N Z x s ok p in strconv prutal init Type Func type Int Foo FOO String _x É fooBar`) {
		for i, pkg := range []string{"gen.test/" + n, "gen.test/q;" + n, "gen.test/" + strings.ToLower(n) + ";" + n, "gen.test/" + n + ";q"} {
			if n == "É" && i != 1 {
				continue // not allowed in an import path
			}
			out = append(out, probe{name: fmt.Sprintf("import/%d/%s", i, n), files: map[string]string{
				"q.proto": `syntax = "proto3"; package q; option go_package = "` + pkg + `"; message M { } enum E { Z = 0; }`,
				"r.proto": `syntax = "proto3"; package r; option go_package = "gen.test/r;` + n + `"; message M { } enum E { Z = 0; }`,
			}, text: strings.Replace(head("proto3"), "gen.test/p", "gen.test/own", 1) + `import "q.proto"; import "r.proto"; enum E { Z = 0; } //prutalgen:no_enum_prefix
			message M { enum N { Z = 0; } oneof O { q.M a = 1; r.E b = 2; N i = 10; } q.E c = 3; r.M d = 4; map<int32, q.E> f = 5; map<string, r.M> g = 6; repeated r.E h = 7; optional q.E j = 8; } message Foo { q.M m = 1; //prutalgen:no_pointer
 }`})
		}
	}
	ed := func(name, known, body string) {
		out = append(out, probe{name: "2023/" + name, known: known, edition: true, text: `edition = "2023"; package p; option go_package = "gen.test/p"; ` + body})
	}
	ed("reserved identifiers", "reserved-identifiers", "message M { reserved foo, bar; } enum E { Z = 0; reserved A; }")
	ed("language features", "option-name-two-extensions", "import \"google/protobuf/go_features.proto\"; option features.(pb.go).api_level = API_OPEN; message M { }")
	ed("block", "", "option features = { field_presence: IMPLICIT repeated_field_encoding: EXPANDED, enum_type: CLOSED; utf8_validation: NONE }; message M { int32 a = 1 [features = { field_presence: EXPLICIT }]; repeated M m = 2 [features.message_encoding = LENGTH_PREFIXED]; }")
	return
}

// runProbes gives fixed files to the generator.
func (e *env) runProbes() {
	all := probes()
	sort.Slice(all, func(i, j int) bool { return all[i].name < all[j].name }) // shards count them
	for _, p := range all {
		p := p
		e.Do("probe/"+p.name, func(c *vrun.Case) {
			dir := e.dir()
			defer os.RemoveAll(dir)
			files := map[string]string{"t.proto": p.text}
			for n, t := range p.files {
				files[n] = t
			}
			if err := sg.Write(filepath.Join(dir, "in"), files); err != nil {
				harness("%v", err)
			}
			if !p.edition {
				if _, ok, msg, err := sg.Protoc(filepath.Join(dir, "in"), strings.Fields(names(files))); err != nil || !ok {
					harness("probe %s: %v %s\n%s", p.name, err, msg, p.text)
				}
				c.Add("probes_confirmed_by_protoc", 1)
			}
			msg, code, err := sg.Prutalgen(sg.GenOpts{Bin: e.bin, Dir: dir, Includes: []string{"in"}, Out: "out", Getter: len(p.files) > 0 || model.HashStr(p.name)%2 == 0, Files: strings.Fields(names(files))})
			if err != nil {
				c.FailD(p.text, "prutalgen: %v: %s", err, tail(msg))
			}
			if code != 0 {
				if p.known == "" {
					c.FailD(p.text, "prutalgen refuses a valid file: %s", tail(msg))
				}
				c.Known(p.known, "valid but refused (%s): %s", p.name, tail(msg))
				return
			}
			tree, err := sg.ReadTree(filepath.Join(dir, "out"))
			if err != nil {
				harness("%v", err)
			}
			if len(tree) != len(files) {
				c.FailD(p.text, "%d files were written: %v", len(tree), names(tree))
			}
			if _, err := e.ck.Check(sg.GoFiles(tree)); err != nil {
				c.FailD(p.text+fmt.Sprint(p.files, tree), "the generated code does not compile: %v", err)
			}
			c.Add("probes_type_checked", 1)
			c.Seen(p.text)
		})
	}
}

// runRefusals gives the generator files which ask for an encoding the runtime does not have.
func (e *env) runRefusals() {
	ed := `edition = "2023"; package p; option go_package = "gen.test/p"; `
	p2 := `syntax = "proto2"; package p; option go_package = "gen.test/p"; `
	for i, t := range []string{
		ed + "option features.message_encoding = DELIMITED; message M { M m = 1; }",
		ed + "option features = { message_encoding: DELIMITED }; message M { repeated M m = 1; }",
		ed + "option features = { field_presence: IMPLICIT, message_encoding: DELIMITED; utf8_validation: NONE }; message M { M m = 1; }",
		ed + "message M { M m = 1 [features.message_encoding = DELIMITED]; }",
		ed + "message M { repeated M m = 1 [deprecated = true, features.message_encoding = DELIMITED]; }",
		ed + "message M { M m = 1 [features = { message_encoding: DELIMITED }]; }",
		ed + "message M { oneof o { M m = 1 [features = { message_encoding: DELIMITED }]; } }",
		ed + "message M { message N { oneof o { int32 i = 1; M m = 2 [features.message_encoding = DELIMITED]; } } }",
		p2 + "message M { optional group G = 1 { optional int32 a = 1; } }",
		p2 + "message M { repeated group G = 1 { } }",
		p2 + "message M { required group G = 1 { } }",
		p2 + "message M { oneof o { group G = 1 { } } }",
	} {
		t := t
		e.Do(fmt.Sprintf("refusal/%d", i), func(c *vrun.Case) {
			dir := e.dir()
			defer os.RemoveAll(dir)
			if err := sg.Write(filepath.Join(dir, "in"), map[string]string{"t.proto": t}); err != nil {
				harness("%v", err)
			}
			msg, code, err := sg.Prutalgen(sg.GenOpts{Bin: e.bin, Dir: dir, Includes: []string{"in"}, Out: "out", Files: []string{"t.proto"}})
			if err != nil {
				c.FailD(t, "prutalgen: %v: %s", err, tail(msg))
			}
			tree, err := sg.ReadTree(filepath.Join(dir, "out"))
			if err != nil {
				harness("%v", err)
			}
			if code == 0 || len(tree) > 0 {
				c.FailD(t, "delimited messages are accepted: exit status %d, files %v", code, names(tree))
			}
			c.Add("delimited_refused", 1)
			c.Seen(t)
		})
	}
}
