import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

enc='internal/prutal/encoder.go'; dec='internal/prutal/decoder.go'; siz='internal/prutal/sizer.go'
top='internal/prutal/prutal.go'; spn='internal/prutal/span.go'
D='internal/desc/desc.go'; T='internal/desc/type.go'; TG='internal/desc/tag.go'; FN='internal/desc/funcs.go'; MP='internal/desc/map.go'; UT='internal/desc/utils.go'
W='internal/wire/'

p('C01','Marshal emits exactly the protobuf encoding of the value',
 'For every supported struct type and every value of it, Marshal succeeds and its output, parsed by any conforming protobuf parser against the schema declared by the struct tags, yields exactly that value: every set field (explicit-presence fields and oneof members even when zero, nil list elements and nil map values as empty messages), nothing else. Scalars without presence that are zero are omitted, repeated scalars use the packed or expanded form the tag declares, and retained unknown fields are emitted verbatim.',
 ['programs','inputs'],'all struct types the library accepts (15 scalar kinds x singular/pointer/oneof/repeated/packed/map, nested by pointer or by value, any field number) and all their values',
 'The suite samples a handful of structs; the encoder picks among ~300 specialised list/map/packed functions and zero checks by (tag, kind, size), and each combination has its own extreme values.',
 [enc,W+'encoder.go',W+'encoder_list.go',W+'encoder_packed.go',W+'encoder_map.go',FN,TG],
 [('AppendStruct field loop and zero-value skipping',enc),('per (key,value) map encoders',W+'encoder_map.go'),('function selection by tag type and kind',FN)],
 ['bytes returned by prutal.Marshal','official proto.Unmarshal into dynamicpb of the same schema'])

p('C02','Unmarshal accepts every valid encoding and yields the value it denotes',
 'For every supported struct type and every valid wire encoding of a message of its schema, Unmarshal into a zero value succeeds and stores exactly the denoted value. This holds for any field order and interleaving, packed, expanded or split repeated scalars, non-minimal varints, over-wide varints truncated as protobuf prescribes, last-one-wins for repeated singular scalars and oneof members, and map entries with reordered, missing, repeated or unknown parts.',
 ['programs','inputs'],'all accepted struct types and all valid encodings of all their values (every singular message field occurring at most once per message)',
 'Valid encodings of one value are unboundedly many and tests mostly decode what the same library encoded; fast paths (packed decoders, primitive map decoders, last-field cache) only differ on shapes other encoders produce.',
 [dec,W+'decoder_packed.go',W+'decoder_map.go','internal/protowire/wire.go',T],
 [('DecodeStruct, last-field cache, repeated growth',dec),('packed decoders',W+'decoder_packed.go'),('primitive map entry decoders and generic fallback',W+'decoder_map.go'),('temporary key/value vars of maps',T)],
 ['Go struct after prutal.Unmarshal','official proto.Unmarshal of the same bytes'])

p('C03','Marshal then Unmarshal gives back the same value',
 'For every supported struct type and value, Unmarshal(Marshal(v)) into a zero value reproduces v, including bit patterns of floats, presence of pointer and oneof fields that hold zero, and unknown bytes (nil and empty lists, maps and presence-less bytes are the same value). Marshalling the result again denotes the same message with the same length.',
 ['programs','inputs'],'all accepted struct types and all their values',
 'Round trips must hold for every type/value pair; tests hold a few dozen fixed values of a few structs.',
 [enc,dec,W+'encoder_map.go',W+'decoder_map.go',W+'decoder_packed.go'],
 [('encode and decode tables chosen from the same descriptor',FN),('oneof interface construction','internal/hack/hack.go')],
 ['value before Marshal and after Unmarshal'])

p('C04','Size equals the length of what Marshal produces',
 'For every non-nil pointer to a supported struct, Size returns exactly the number of bytes Marshal produces, and fails if and only if Marshal fails. Size never changes the value.',
 ['programs','inputs'],'all accepted struct types and all their values, including nested, by-value, map, oneof, unknown-field and too-deep ones',
 'Size duplicates the whole encoder (zero checks, presence, list/map/packed fast paths, varint length boundaries); each combination can drift on its own.',
 [siz,W+'size.go',W+'size_map.go',enc],
 [('SizeStruct mirrors AppendStruct',siz),('typed map sizers',W+'size_map.go'),('length prefixes are reserved and packed with variable size',W+'wire.go')],
 ['prutal.Size result','len of prutal.Marshal result'])

p('C05','MarshalAppend appends only, and never touches or aliases anything else',
 'MarshalAppend(b, v) returns b\'s bytes unchanged followed by an encoding of v, whatever the length and capacity of b. It writes nothing outside the bytes it returns or the spare capacity of b, does not modify v, and the result shares no memory with v.',
 ['programs','inputs'],'all accepted struct types and values, all destination slices (nil, empty, any length/capacity relation to the output)',
 'The encoder reserves and later moves length prefixes in place; errors appear only for particular sizes of nested data and particular spare capacities.',
 [enc,W+'wire.go',W+'encoder.go',top],
 [('LenReserve / LenPack in-place moves',W+'wire.go'),('appending unknown bytes',enc)],
 ['returned slice and its backing array','deep comparison of v before and after','memory ranges of v and of the result'])

p('C06','Hostile input never crashes, over-reads or over-allocates',
 'For every byte string and every supported struct type, Unmarshal terminates, without panic, runtime fault, read outside the input or write outside the destination, and either succeeds or returns an error. The memory it allocates is bounded by a constant plus the input length times the in-memory size of the declared types, never by lengths or counts claimed in the input, and whatever the outcome the destination stays a well-formed value that can be read, measured, marshalled and decoded into again.',
 ['inputs','programs'],'all byte strings (truncated, mutated, spliced, crafted lengths/tags/groups) against all accepted struct types, with fresh and used destinations',
 'Tests hold a few malformed samples; an unsafe-pointer decoder fails only on particular lengths, offsets and types, and corruption may surface only later.',
 [dec,spn,'internal/protowire/wire.go',W+'decoder_packed.go',W+'decoder_map.go',T],
 [('length checks before slicing','internal/protowire/wire.go'),('span allocator',spn),('slice growth and element construction',dec),('unsafe interface and map updates','internal/hack/hack.go')],
 ['outcome of Unmarshal','guard pages after the input, canaries around the destination','race/checkptr/asan reports, heap growth counters','use of the destination afterwards'])

p('C07','Malformed input is rejected with an error',
 'Unmarshal returns an error for every byte string that is not a well-formed encoding at any level it has to interpret: truncated tags, values or lengths, varints over 64 bits, field number 0 or above 2^29-1, reserved wire types, unbalanced groups, and packed records or map entries with malformed content. A known field whose wire type cannot be its own is never stored into that field: it is rejected or treated as unknown.',
 ['inputs','programs'],'all malformed byte strings against all accepted struct types',
 'Silent acceptance looks like success, so only checking against an independent strict parser over many mutated inputs reveals it.',
 [dec,'internal/protowire/wire.go',W+'decoder_packed.go',W+'decoder_map.go'],
 [('ConsumeTag/ConsumeVarint/ConsumeFieldValue','internal/protowire/wire.go'),('fast path failure falls back to the generic map entry decoder',dec),('wire type checks',dec)],
 ['error returned by prutal.Unmarshal','independent strict validator and official proto.Unmarshal on the same bytes'])

p('C08','Decoded values own their memory and stay intact',
 'A decoded value never shares memory with the input buffer, with another decoded value, or between two of its own fields, and everything it refers to stays valid and unchanged for as long as it is reachable, under any garbage collection activity, whatever is decoded later and whatever is later appended to or written through its own slices.',
 ['inputs','histories','schedules'],'all accepted types and valid inputs, any sequence of later decodes, buffer reuse, appends to decoded slices and GC cycles',
 'Decoded strings and slices are carved out of pooled untyped spans; overlap, misalignment or a pointer hidden from the GC corrupts unrelated data much later, never in a test that decodes once and compares.',
 [spn,dec,T],
 [('span.Malloc carve-out',spn),('MallocAbiType decides what the GC scans',T),('slice growth copies raw bytes',dec)],
 ['address ranges of all strings/slices/pointers reachable from decoded values','value fingerprints before and after GC stress with clobberfree'],
 [('span','current block and offset of a pooled decoder',spn)])

p('C09','Unknown fields are preserved exactly where the message can hold them',
 'If a message type has an unknown-fields slot (unknownFields or XXX_unrecognized, []byte or *[]byte), every field that Unmarshal does not know is kept byte for byte in arrival order, at every nesting level, and Marshal writes it back, so that relaying through an older schema loses nothing. Types without a slot skip such fields; decoding again replaces old unknown bytes and never keeps or shares stale ones.',
 ['inputs','programs','histories'],'all inputs with unknown fields of any number and wire type (groups included) at any position and depth, all slot kinds',
 'Loss is invisible to the relaying program; it depends on positions, neighbours (field caches) and nesting that samples do not cover.',
 [dec,enc,siz,D],
 [('appendToUnknownFields / resetUnknownFields',dec),('appendUnknownFields',enc),('slot discovery',D)],
 ['unknown bytes stored at each level','bytes after relaying, decoded with the full schema'])

p('C10','All entry points are safe and correct under concurrency',
 'Any number of goroutines may call Marshal, MarshalAppend, Size and Unmarshal at once, on any types including types never seen before, on shared read-only values and inputs, and every call returns what it would return alone, without data races.',
 ['schedules','histories'],'all interleavings of calls over all types, including the very first use of a type and of types that refer to each other or fail to parse',
 'Tests run mostly sequentially; type-descriptor publication, lazily finalised shared descriptors and pooled scratch state only break under contention.',
 [D,MP,T,top,enc,dec],
 [('GetOrParse under lock, lock-free cache read',D),('copy-on-write bucket publication',MP),('sync.Pool of encoders, decoders and map temporaries',T)],
 ['race detector reports','results of concurrent calls vs. their single-threaded values'])

p('C11','Unsupported types are refused with an error, supported ones accepted',
 'Every struct type whose protobuf tags and Go field types cannot be represented faithfully (mismatching kinds, nested slices, slices or maps of unsupported elements, multi-level pointers, bad, missing or duplicate field numbers, groups, packed on wrong types) makes Marshal, Size and Unmarshal return an error without panicking and without touching memory. Every combination protobuf-generated code uses is accepted, and the verdict of a type does not depend on what was used before.',
 ['programs','histories'],'all struct types built from any Go field types and any tags, in any order of first use',
 'The space of tag x Go type combinations is combinatorial and a wrong acceptance is memory corruption, not a test failure.',
 [D,TG,T,UT],
 [('checkTypeMatch',D),('parseStructTag',TG),('parseType with cycle-breaking caches',T),('IsFieldTypeMatchReflectKind',UT)],
 ['error or success of Marshal/Size/Unmarshal for each type','round trip of accepted types'])

p('C12','Recursion is bounded and the three entry points agree on the bound',
 'Nesting deeper than the limit (1000 levels of messages) makes Marshal, Size and Unmarshal return an error instead of overflowing the stack, cyclic values included; anything nested up to the limit works, and a value that Marshal accepts is accepted by Size and its bytes by Unmarshal, through whatever mix of fields, lists, maps, oneofs and by-value messages the nesting goes. Nested groups in unknown fields are bounded as well.',
 ['inputs','programs'],'all nesting depths and all paths of nested fields, cyclic pointers, adversarially deep inputs',
 'Each nesting construct decrements the budget in its own code path in three separate implementations; tests check one.',
 [enc,dec,siz,'internal/protowire/wire.go'],
 [('maxdepth parameter',enc),('maxdepth parameter',dec),('maxdepth parameter',siz),('group recursion limit','internal/protowire/wire.go')],
 ['accept/reject of each entry point at each depth around the limit'])

p('C13','Results do not depend on the history of earlier calls',
 'The outcome of a call depends only on its arguments: after any sequence of other calls on any types, including failing, truncated or partially applied ones, a call gives the same result as in a fresh process. Order of first use of mutually referring types does not matter either.',
 ['histories'],'all sequences of Marshal/Size/Unmarshal calls over related types, successes and failures mixed',
 'Pooled decoders, encoders and map temporaries, cached descriptors and reused slices carry state between calls; tests start fresh each time.',
 [T,D,dec,enc],
 [('TmpMapVars pool',T),('type caches and finalisation',D),('decoder/encoder pools',dec)],
 ['result of each call compared with a reference model that has no history'])

p('C14','Works with code generated by the official protobuf Go plugin',
 'For messages generated by protoc-gen-go (proto2, proto3, optional, oneof, maps, enums, nested and well-known types), prutal and google.golang.org/protobuf are interchangeable: each decodes what the other encodes to an equal message, unknown fields included, and sizes agree with what is written. Using prutal on such a message does not disturb later use by the official runtime.',
 ['inputs','programs'],'all values of all official generated message types (no groups, extensions or message sets)',
 'The official layout (state, sizeCache, weak oneof metadata found by reflection) is only matched by heuristics; tests cover one small file.',
 [UT,D,enc,dec],
 [('searchOneofWrappers via ProtoReflect',UT),('unknownFields slot',D)],
 ['proto.Equal between the two runtimes\' results'])

p('C15','The gRPC codec is interchangeable with the standard proto codec',
 'PrutalCodec is named "proto", its Marshal and Unmarshal behave exactly like prutal.Marshal and prutal.Unmarshal, and a client or server using it interoperates with a peer using gRPC\'s standard codec for unary and streaming calls of any messages, concurrently, each message arriving exactly once, in order and unchanged.',
 ['inputs','schedules','configurations'],'all messages, all four client/server codec pairings, concurrent calls and streams',
 'The single unit test calls the two methods once; buffer ownership and reuse by the gRPC stack only show with real traffic.',
 ['pkg/grpccodec/grpccodec.go',top],
 [('codec methods','pkg/grpccodec/grpccodec.go')],
 ['messages sent and received at both ends of loopback connections'])

p('C16','Unmarshal into a used value follows protobuf merge rules',
 'Decoding into a value that already holds data appends to lists, adds to or overwrites entries of maps, overwrites singular scalars and the oneof member, replaces unknown bytes, and leaves fields absent from the input untouched. It never writes through memory the old value shared with other values, except the destination\'s own maps and list capacity.',
 ['inputs','histories','programs'],'all pairs of an existing value and a valid input, spare list capacity with stale content included',
 'Decoding into reused structs is a common optimisation whose corner cases (stale spare capacity, nil vs. empty maps, shared backing arrays) no fixed test enumerates.',
 [dec,T],
 [('in-place appends to existing slices',dec),('map updates',T),('reset of unknown bytes',dec)],
 ['destination after Unmarshal vs. the reference merge'])

p('C17','Size needs no memory and MarshalAppend uses the room it is given',
 'For every supported type already in use and every value of it, Size makes no heap objects at all, and MarshalAppend into a slice with room for Size bytes writes there and returns the same memory instead of moving to another.',
 ['inputs','programs'],'all supported values of all supported types, once their type is known to the library; destinations with any length and any room of Size bytes or more',
 'The README promises a Size with zero allocation, and callers size pooled buffers with it. One field kind, map shape or entry size which falls off the fast path breaks this for the messages which have it; benchmarks look at a handful.',
 [siz,enc,W+'encoder.go'],
 [('SizeStruct',siz),('lenPackSlow',W+'encoder.go')],
 ['heap objects made during a call, address of the result'])

G='prutalgen/pkg/prutalgen/'
gfiles=lambda *a:[G+x for x in a]

p('G01','prutalgen output always compiles',
 'For every valid proto2, proto3 or edition 2023 file set within the supported language (messages, nested types, enums, maps, oneofs, imports, services, comments, options), prutalgen exits successfully and the Go packages it writes compile together, with and without getters. This holds for any legal identifiers, including Go keywords and predeclared names and field names that collide with generated methods, as the official plugin resolves them.',
 ['programs','configurations'],'all valid schemas of the supported subset and all generator options',
 'The input language is infinite; tests compile two small files.',
 gfiles('code.go','codewriter.go','proto.go','message.go','enum.go','field.go','oneof.go'),
 [('Go code writer',G+'code.go'),('naming and conflict resolution',G+'message.go'),('camel-casing','prutalgen/internal/protobuf/strs/strings.go')],
 ['exit code of prutalgen','go build / go vet result of its output'])

p('G02','Generated Go types mirror the schema',
 'For every valid schema each message becomes one Go struct with exactly its fields, each with the Go name and type, field number, wire encoding (varint, zigzag, fixed, bytes), label (optional, required, repeated, packed) and map key/value encodings the schema and its edition\'s defaults and features prescribe; oneofs become interfaces with one wrapper per member, presence becomes pointers, and enums become int32 types. Names, types and json tags agree with those the official Go plugin generates for the same file.',
 ['programs'],'all valid proto2, proto3 and edition 2023 schemas of the supported subset, file- and field-level features and options included',
 'A wrong encoding or label still compiles and round-trips with itself; only comparison with an independent reading of the schema shows it.',
 gfiles('code.go','field.go','type.go','consts.go','oneof.go','option.go'),
 [('FieldStructTag',G+'code.go'),('IsPackedEncoding / IsPointer',G+'field.go'),('scalar tables',G+'consts.go')],
 ['reflect view of the compiled generated types','ground-truth schema and protoc-gen-go output'])

p('G03','Generated code speaks the same wire format as the schema says',
 'For every valid schema, values of the generated types marshalled by prutal are decoded to the same values by the official runtime using that schema, and the other way round, for all fields, enums, maps, oneofs, nested and imported messages. Schemas which ask for encodings prutal lacks (groups, delimited messages) are refused.',
 ['programs','inputs'],'all valid schemas of the supported subset and all values of their messages',
 'Needs schema, generator, compiler and both runtimes in one loop over many schemas; tests use fixed ones.',
 gfiles('code.go','field.go')+[enc,dec],
 [('FieldStructTag',G+'code.go'),('tag parsing',TG)],
 ['bytes exchanged between generated types and dynamicpb of the same schema'])

p('G04','Type names resolve by protobuf scoping rules',
 'Every type reference in a field, map or rpc denotes the declaration protobuf\'s rules select: innermost enclosing scope first, partially qualified and leading-dot names, nested types, packages sharing prefixes, names visible through direct and public imports only. A name that protobuf does not resolve is refused.',
 ['programs'],'all schemas and all reference spellings, with shadowing at any nesting and package level',
 'Picking a same-named wrong type yields code that compiles; scoping corner cases are combinatorial.',
 gfiles('type.go','proto.go','message.go'),
 [('Type.resolve',G+'type.go'),('searchFullName / visible',G+'proto.go')],
 ['Go type of each generated field','exit code for unresolvable names'])

p('G05','Invalid schemas are refused',
 'A file set that is syntactically wrong (by the grammar, which is one for all versions of the language and leaves labels, empty oneofs and the types of option values free) or breaks a rule prutalgen checks (unknown syntax, a second package statement, missing or cyclic import, unresolved type, rpc types which are not messages, map keys of other types than integers, bool and string, duplicate, zero or out-of-range field numbers, reserved numbers or names, duplicate enum values without allow_alias, enum values out of int32, required outside proto2, unsupported values of packed, allow_alias and the features, invalid escapes in strings, missing go_package) makes prutalgen exit with a non-zero status and write no Go file for it.',
 ['programs'],'all single-fault mutations of valid schemas in those classes',
 'Each rule has numeric and nesting edge cases (range ends, max, nested types, imported files) that fixed tests do not cover.',
 gfiles('message.go','enum.go','reserved.go','proto.go','prutalgen.go','type.go'),
 [('verify',G+'message.go'),('reservedRanges',G+'reserved.go'),('error listener',G+'prutalgen.go')],
 ['exit status and output files of prutalgen'])

p('G06','Generation is deterministic and independent of context',
 'The same file set and options always give byte-identical output (the header line quotes the command line and is left aside where that differs), whatever the process, the order of files on the command line, the files generated in the same run, the include path spelling or pre-existing output, and only the Go files of the requested protos are written, at the path go_package and the options prescribe.',
 ['programs','configurations','histories'],'all schemas, repeated and combined runs, all supported options',
 'Go map iteration and shared loader state leak only in some runs and file combinations.',
 gfiles('prutalgen.go','code.go','codewriter.go','utils.go'),
 [('loader state reset between files',G+'prutalgen.go'),('import ordering',G+'codewriter.go'),('topological sort',G+'utils.go')],
 ['bytes and set of files written by repeated runs'])

p('G07','Generated enums expose exactly the declared values',
 'For every enum, top-level or nested, with aliases, negative and extreme values, the constants have the declared numbers and official names, the _name map holds every number with its first name, the _value map every name, and String gives that name or the decimal number. Prefix and mapping options change only what they say.',
 ['programs'],'all valid enums and option combinations',
 'Alias order, negative and extreme values and nesting combine; a wrong map entry is silent.',
 gfiles('enum.go','code.go','directive.go','option.go'),
 [('EnumGen',G+'code.go'),('Enum.resolve',G+'enum.go')],
 ['constants, maps and String() of compiled enums'])

p('G08','Generated methods behave',
 'For every generated message, getters on nil and on empty messages return the zero value (the enum constant numbered 0, nil, empty) without panicking and otherwise the field\'s value, oneof getters return the value only of the member that is set, and Reset makes the message equal to a new one. The methods of the library\'s Kitex marshaler do what the runtime does: Marshal appends the message\'s encoding to its argument, Unmarshal is prutal.Unmarshal.',
 ['programs','inputs'],'all generated messages with getters enabled and all their values',
 'Getter shape depends on type, presence, oneof membership, no_pointer and naming conflicts; a wrong one compiles.',
 gfiles('code.go','field.go'),
 [('getter generation',G+'code.go'),('GoZero',G+'field.go')],
 ['results of calling every getter and Reset by reflection'])

p('G09','Options and directives change exactly what they name',
 'gogoproto.nullable, goproto_enum_prefix(_all), goproto_unrecognized(_all) and //prutalgen: directives (no_pointer, no_enum_prefix, no_enum_mapping, unknown_fields) at file, message, field and enum level have the documented effect on precisely their target and never change wire format or other declarations. A directive takes precedence over an option; among directives, and among options, the narrower level wins. The directives for a whole file stand in the comment directly above its syntax or edition.',
 ['programs','configurations'],'all placements and combinations of the supported options and directives',
 'Interactions of levels and placements (head vs. inline comments, nested declarations) are combinatorial.',
 gfiles('directive.go','option.go','field.go','message.go','enum.go','comment.go'),
 [('Directives.Parse',G+'directive.go'),('genNoPointer',G+'field.go'),('genUnknownFields',G+'message.go'),('genNoPrefix/genMapping',G+'enum.go')],
 ['compiled types and their wire behaviour'])

p('G10','Comments never alter the generated code',
 'Comments of any content and placement (line, block, multi-line, quotes, backticks, percent signs, comment terminators split over lines, control characters, Go build constraints; not prutalgen directives, nor directives of the Go compiler such as //go:embed) leave declarations, tags and behaviour of the generated code as without them, and head and inline comments of messages, fields, enums and enum values appear in the output next to their declaration, which comments that an empty line separates from a declaration do not.',
 ['programs'],'all comment texts at all positions of all schemas',
 'Comment text flows through format strings and code writers; odd content corrupts code only for particular inputs.',
 gfiles('comment.go','codewriter.go','code.go'),
 [('consumeHeadComment / consumeInlineComment',G+'comment.go'),('CodeWriter.F',G+'codewriter.go')],
 ['generated declarations with and without comments','comment text found in the output'])

p('G11','Cross-file schemas generate packages that fit together',
 'For file sets with regular and public imports, shared and distinct Go packages, M options, import paths whose base names collide or are not Go identifiers, and well-known types, each generated package imports exactly what it needs under usable names, refers to the right types, and all of them compile and interoperate together.',
 ['programs','configurations'],'all acyclic import graphs and go_package assignments',
 'Import naming and package identity only fail for particular combinations of paths and names.',
 gfiles('proto.go','codewriter.go','embed.go','type.go')+['prutalgen/pkg/utils/args/go_opts.go'],
 [('importName',G+'proto.go'),('UsePkg',G+'codewriter.go'),('embedded well-known protos',G+'embed.go')],
 ['compilation of all packages together','Go types of imported fields, wire interop'])

p('G12','The generator library exposes schemas faithfully',
 'Through the prutalgen Go package (NewLoader, LoadProto), the tree returned for a valid file set contains exactly the declared messages, fields, enums, oneofs, options, services and methods, with resolved request and response types and client/server streaming flags, for any number of loads with one loader and for independent loaders used at the same time.',
 ['programs','histories'],'all valid schemas, services with any streaming combination, repeated loads',
 'Downstream generators build stubs from this tree; a wrong flag or type yields code that compiles but talks wrongly.',
 gfiles('service.go','prutalgen.go','proto.go','message.go','option.go'),
 [('ExitRpc',G+'service.go'),('LoadProto',G+'prutalgen.go')],
 ['the *Proto tree compared with the ground-truth schema'])

p('G13','The generator ends with success or a message whatever it is given',
 'For every content of the .proto files (damaged, random bytes, well-formed but meaningless, deeply nested or large) and every command line, the prutalgen command ends by itself within a time fit for the size, without panic or runtime error, with exit status 0, or 1 and a message which says what is wrong (2 and the usage for wrong flags); every Go file it leaves behind is syntactically valid Go, and with status 0 the Go file of every file named is there, complete, even when a file or directory can not be read or written.',
 ['programs'],'any bytes as .proto files, any command line, input and output files which are missing, unreadable, unwritable, full or of the wrong kind; nesting up to 400 levels, files up to a megabyte',
 'Schemas come from editors half typed and from other teams; crashes hide in combinations of constructs no test has, behind a parser generated by a tool and a tree walk which trusts it.',
 gfiles('prutalgen.go','proto.go','message.go','field.go','code.go')+['prutalgen/main.go'],
 [('parseInput',G+'prutalgen.go'),('main','prutalgen/main.go')],
 ['exit status, output, time and files of prutalgen'])

json_out=open('/verif/properties.jsonl','w')
for x in P: json_out.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
