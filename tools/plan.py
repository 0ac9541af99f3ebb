"""What each check runs."""
import os

VH = dict(pkg="cmd/vh", as_gb=12)


def vh(name="plain", **kw):
    j = dict(VH, name=name)
    j.update(kw)
    return j


VALUES = ("a case is one value of one type (a fixed matrix of ~70 static types covering every kind, label, map and oneof "
          "form, plus struct types built at run time from the seed); non-trivial: it has at least one set field; distinct by "
          "type and value")

NOTE = "Held on the executions run (see the counts in the evidence); nothing is claimed beyond the types and values generated."

WELLKNOWN = "anypb apipb durationpb emptypb fieldmaskpb sourcecontextpb structpb timestamppb typepb wrapperspb".split()
EXPORTS = (["strconv", "github.com/cloudwego/prutal", "google.golang.org/protobuf/runtime/protoimpl", "google.golang.org/protobuf/types/descriptorpb",
            "google.golang.org/protobuf/reflect/protoreflect"] + ["google.golang.org/protobuf/types/known/" + p for p in WELLKNOWN])


def prutalgen(check):
    """Builds the generator's command from /repo's working tree."""
    out = os.path.join(check.scratch, "prutalgen")
    check.go(["go", "build", "-mod=readonly", "-o", out, "./prutalgen"], check.repo, GOFLAGS="")
    return out


def harness(check):
    """The copy of the harness, for modules built from what was generated."""
    return check.copy("harness")


def exports(check):
    """Export data of what generated code imports, for the type checker."""
    out = os.path.join(check.scratch, "exports.txt")
    with open(out, "w") as f:
        f.write(check.go(["go", "list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}"] + EXPORTS, check.copy("harness")))
    return out


GEN = dict(prutalgen=prutalgen, exports=exports, harness=harness)
SETS = ("a case is one schema: a set of .proto files with random syntax, packages, imports, names, declarations, options, "
        "comments and spelling, whose validity is settled by the official descriptor library (and by protoc where it is able to); "
        "non-trivial: valid and generated; distinct by text")


def vg(name="plain", **kw):
    j = dict(pkg="cmd/vg", name=name, procs=2, env={"CGO_ENABLED": "0"})
    j.update(kw)
    return j


def gen(technique, rule=SETS, **kw):
    return dict(technique=technique, note=NOTE_GEN, rule=rule, extra=GEN, jobs=[vg(**kw)])


NOTE_GEN = "Held on the schemas generated (see the counts in the evidence); nothing is claimed beyond them."

PLAN = {
    "C01": dict(technique="runtime monitor: differential oracle (official runtime, form checker) over generated values",
                note=NOTE, rule=VALUES, jobs=[vh()]),
    "C03": dict(technique="runtime monitor: round-trip oracle over generated values", note=NOTE, rule=VALUES, jobs=[vh()]),
    "C04": dict(technique="runtime monitor: Size/Marshal agreement and mutation snapshot", note=NOTE, rule=VALUES + "; plus every scalar at every varint and length boundary in every position", jobs=[vh()]),
    "C17": dict(technique="runtime monitor: allocation meter over single calls, identity of the destination", note=NOTE, rule=VALUES, jobs=[vh()]),
    "C05": dict(technique="runtime monitor: canaries around the destination, mutation snapshot, memory overlap", note=NOTE, rule=VALUES + " and prefix length and capacity of the destination", jobs=[vh()]),
    "C02": dict(technique="runtime monitor: differential oracle (reference decoder, official runtime) over generated valid encodings",
                note=NOTE, rule="a case is one valid encoding (random order, splits, over-long varints, unknown parts) of one value of one type; distinct by type and bytes", jobs=[vh()]),
    "C06": dict(technique="runtime monitor and sanitizers: guard pages, canaries, allocation meter, checkptr, AddressSanitizer",
                note=NOTE, rule="a case is one byte string given to Unmarshal for one type: hostile but valid encodings, damaged ones, length bombs, long repetitions, short strings, random bytes; distinct by type and input",
                jobs=[vh(), vh("checkptr", build=["-gcflags=all=-d=checkptr"], args={"types": "static", "measure": "no", "div": "2"}, as_gb=0),
                      vh("asan", build=["-asan"], cgo=True, as_gb=0, args={"types": "static", "measure": "no", "div": "4"},
                         env={"ASAN_OPTIONS": "detect_leaks=0"})]),
    "C07": dict(technique="runtime monitor: reference validator decides which inputs must be refused", note=NOTE,
                rule="a case is one damaged input for one type; distinct by type and input", jobs=[vh()]),
    "C09": dict(technique="runtime monitor: reference decoder and relay oracle for unknown fields", note=NOTE,
                rule="a case is one input with unknown fields at several levels for one type; distinct by type and input", jobs=[vh()]),
    "C16": dict(technique="runtime monitor: reference model of decoding into used values, memory snapshots of shared parts", note=NOTE,
                rule="a case is one used destination and one input of one type; distinct by type, destination and input", jobs=[vh()]),
    "C08": dict(technique="runtime monitor: memory overlap of all live values, content of retained parts, under constant garbage collection with freed memory overwritten",
                note=NOTE, rule="a case is one decode whose result stays under watch while others are decoded, written to, appended to and dropped; distinct by type and input",
                jobs=[vh("gc", env={"GOGC": "5", "GODEBUG": "clobberfree=1,gccheckmark=1"}, procs=4)]),
    "C10": dict(technique="race detector; runtime monitor: results of concurrent calls against a sequential reference, in many fresh processes",
                note=NOTE, rule="a case is one storm: up to 16 goroutines released at once onto types never used before in the process (or known ones), shared values and inputs; distinct by process and storm",
                jobs=[vh(procs=6, shards=24), vh("race", build=["-race", "-gcflags=all=-d=checkptr=0"], cgo=True, as_gb=0, procs=6, shards=24,
                                                  env={"GORACE": "halt_on_error=1"})]),
    "C11": dict(technique="runtime monitor: verdict of every entry point against an independent predicate on tags and Go types, snapshots of refused values, round trips of accepted types",
                note=NOTE, rule="a case is one struct type (every encoding, label and option with 374 Go types; map keys and values; oneof members; field numbers; nested combinations used in random orders); distinct by type",
                jobs=[vh()]),
    "C12": dict(technique="runtime monitor: agreement of Marshal, Size, MarshalAppend and Unmarshal around the limit under a small stack limit",
                note=NOTE, rule="a case is one nesting: a number of levels (1 to 3 million) through one or a random mixture of 19 kinds of links, a cyclic value, or nested groups; distinct by number of levels and links",
                jobs=[vh()]),
    "C14": dict(technique="runtime monitor: differential oracle (official runtime on official generated code), race detector",
                note=NOTE, rule="a case is one message of one of 387 message types generated by the official plugin (own proto2, proto3 and edition 2023 schemas, well-known types, descriptors, gRPC's), handled by both libraries; distinct by type and bytes",
                jobs=[dict(VH, pkg="cmd/vo", name="plain"), dict(pkg="cmd/vo", name="race", build=["-race", "-gcflags=all=-d=checkptr=0"], cgo=True, procs=6, args={"div": "20"}, env={"GORACE": "halt_on_error=1"})]),
    "C15": dict(technique="runtime monitor: both ends of real gRPC traffic check every message against what was sent; race detector",
                note=NOTE, rule="a case is one storm of concurrent unary calls and streams between a client and a server with one of 9 codec pairings over a connection with split and delayed reads and writes, one direct call of the codec, one set of retained encodings, or malformed messages beside good ones; distinct by seed",
                jobs=[dict(VH, pkg="cmd/vgrpc", name="plain"), dict(pkg="cmd/vgrpc", name="race", build=["-race", "-gcflags=all=-d=checkptr=0"], cgo=True, procs=4, args={"div": "10"}, env={"GORACE": "halt_on_error=1"})]),
    "C13": dict(technique="runtime monitor: recorded outcomes of calls in random histories against the same call alone in a fresh process",
                note=NOTE, rule="a case is one call (type, operation, arguments) whose outcome, partial results included, is recorded in a fresh process and after random others; distinct by call",
                jobs=[vh()]),
    "G01": gen("runtime monitor: the Go type checker and import resolution over generated code of generated schemas"),
    "G02": gen("runtime monitor: declared types of generated code against those of the official plugin for the same schema"),
    "G03": gen("runtime monitor: generated code linked and run, every message exchanged with the official dynamic runtime",
               rule=SETS + "; each message type of it exchanges random values in both directions"),
    "G04": gen("runtime monitor: what type names in random spellings denote, against protoc and an independent resolver",
               rule=SETS + "; then one type name at a time is replaced by another, which denotes something else or nothing; distinct by texts and name"),
    "G05": gen("runtime monitor: exit status and files written for file sets with one mistake, confirmed as such by protoc where it is able to",
               rule=SETS + "; then one mistake is put into it: a fault of a rule at a random place, or a damaged token; distinct by text"),
    "G06": gen("runtime monitor: bytes and set of files written by repeated, partial, combined and differently spelt runs",
               rule=SETS + "; each file is generated alone several times, then all in 10 random ways (working directory, includes, spellings, subsets, order, output which exists, environment), then by one loader in a process"),
    "G07": gen("runtime monitor: generated code linked and run, enum tables and String called for members and others, against the schema"),
    "G08": gen("runtime monitor: generated code linked and run, every getter and Reset called on random, empty and nil values, against the official runtime"),
    "G09": gen("runtime monitor: types, tags and behaviour of generated code under random directives and options against what these ask for"),
    "G10": gen("runtime monitor: tokens of the code generated with and without comments; unique words traced from comments to declarations",
               rule=SETS + "; it is generated with and without its comments"),
    "G11": gen("runtime monitor: packages of generated code with the types and imports of the official plugin for the same schema, linked and exchanging messages",
               rule=SETS + " of up to 12 files which share Go packages, refer to each other, and whose Go packages M options override"),
    "G12": dict(technique="runtime monitor: trees returned by loaders under random histories of loads, compared node by node with the schema; race detector",
                note=NOTE_GEN, rule=SETS + "; its files are loaded in random sequences by one or several loaders at once", extra=GEN,
                jobs=[vg(), vg("race", build=["-race"], cgo=True, args={"div": "8"}, env={"GORACE": "halt_on_error=1"}, shards=16)]),
    "G13": gen("runtime monitor: exit status, messages, time, memory limit and files of prutalgen under hostile file sets and command lines, as an unprivileged user",
               rule="a case is one run of prutalgen: on a valid set damaged in up to ten places (tokens, bytes, transplanted parts), on a soup of words, on a well-formed text of random meaning, on one large or deep construct, or with a random command line; distinct by text"),
}

# How many times the counts in the harness the quick tier does.
MUL = dict(C01=10, C02=6, C03=10, C04=6, C05=8, C06=2, C07=6, C08=5, C09=8, C10=2, C12=3, C13=3, C14=3, C15=2, C16=6, C17=20,
           G01=3, G02=4, G03=3, G04=3, G05=2, G06=2, G07=3, G08=4, G09=3, G10=4, G11=3, G12=2, G13=2)
for _p, _m in MUL.items():
    for _j in PLAN[_p]["jobs"]:
        _j["args"] = dict(_j.get("args", {}), mul=os.environ.get("VDEV_MUL") or str(_m))
