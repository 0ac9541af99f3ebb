#!/usr/bin/env python3
"""Writes proto/p2.proto and proto/p3.proto, the schemas behind the committed official Go code."""
KINDS = "double float int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool string bytes".split()
KEYS = [k for k in KINDS if k not in ("double", "float", "bytes")]


def p3():
    o = ['syntax = "proto3";', 'package vh.p3;', 'option go_package = "vharness/pb/p3";',
         'import "google/protobuf/any.proto";', 'import "google/protobuf/timestamp.proto";', 'import "google/protobuf/duration.proto";',
         'import "google/protobuf/struct.proto";', 'import "google/protobuf/field_mask.proto";', 'import "google/protobuf/wrappers.proto";', 'import "google/protobuf/empty.proto";', '']
    o.append('enum Color { COLOR_ZERO = 0; COLOR_RED = 1; COLOR_NEG = -3; COLOR_MAX = 2147483647; COLOR_MIN = -2147483648; }')
    o.append('enum Alias { option allow_alias = true; A_ZERO = 0; A_NIL = 0; A_ONE = 1; }')
    def msg(name, fields, extra=""):
        o.append('message %s {%s' % (name, extra))
        for i, f in enumerate(fields):
            num = f[1] if isinstance(f, tuple) else i + 1
            f = f[0] if isinstance(f, tuple) else f
            o.append('  ' + f.replace('@', str(num)))
        o.append('}')
    types = KINDS + ['Color', 'Leaf']
    msg('Leaf', ['int32 a = @;', 'string b = @;', 'bytes c = @;'])
    msg('Empty', [])
    msg('Scalars', [('%s f_%s = @;' % (k, k.lower()), 1 + 3 * i) for i, k in enumerate(KINDS + ['Color'])])
    msg('Opt', [('optional %s f_%s = @;' % (k, k.lower()), [1, 15, 16, 2047, 2048, 262143, 262144, 536870911, 19, 20, 21, 22, 23, 24, 25, 26, 27][i]) for i, k in enumerate(types)])
    msg('Rep', ['repeated %s f_%s = @;' % (k, k.lower()) for k in types])
    msg('RepUnpacked', ['repeated %s f_%s = @%s;' % (k, k.lower(), ' [packed = false]' if k not in ('string', 'bytes', 'Leaf') else '') for k in types])
    msg('One', [], extra='\n  oneof u {' + ''.join('\n    %s u_%s = %d;' % (k, k.lower(), i + 1) for i, k in enumerate(types)) + '\n  }\n  string between = 40;\n  oneof second_one { One rec = 41; google.protobuf.Timestamp ts = 42; string s2 = 43; Alias al = 44; }')
    msg('MapKeys', ['map<%s, int64> a_%s = @;' % (k, k) for k in KEYS] + ['map<%s, Leaf> b_%s = @;' % (k, k) for k in KEYS] + ['map<%s, string> c_%s = @;' % (k, k) for k in KEYS])
    msg('MapVals', ['map<string, %s> a_%s = @;' % (k, k.lower()) for k in types] + ['map<int32, %s> b_%s = @;' % (k, k.lower()) for k in types] + ['map<bool, %s> c_%s = @;' % (k, k.lower()) for k in types])
    msg('Tree', ['Tree left = @;', 'repeated Tree kids = @;', 'map<int32, Tree> by_id = @;', 'oneof u { Tree child = 4; Inner inner = 5; }', ('string name = @;', 6), ('optional int64 weight = @;', 7)],
        extra='\n  message Inner { message Deep { Color c = 1; repeated Inner back = 2; } Deep deep = 1; repeated Deep deeps = 2; enum E { Z = 0; Y = 5; } E e = 3; repeated E es = 4; Tree tree = 5; }')
    msg('WKT', ['google.protobuf.Any any = @;', 'repeated google.protobuf.Any anys = @;', 'google.protobuf.Timestamp ts = @;', 'google.protobuf.Duration dur = @;',
                'google.protobuf.Struct st = @;', 'google.protobuf.Value val = @;', 'google.protobuf.ListValue lv = @;', 'google.protobuf.FieldMask fm = @;', 'google.protobuf.Empty em = @;',
                'google.protobuf.DoubleValue w1 = @;', 'google.protobuf.FloatValue w2 = @;', 'google.protobuf.Int64Value w3 = @;', 'google.protobuf.UInt64Value w4 = @;',
                'google.protobuf.Int32Value w5 = @;', 'google.protobuf.UInt32Value w6 = @;', 'google.protobuf.BoolValue w7 = @;', 'google.protobuf.StringValue w8 = @;', 'google.protobuf.BytesValue w9 = @;',
                'map<string, google.protobuf.Value> vals = @;', 'repeated google.protobuf.Timestamp tss = @;', 'map<int64, google.protobuf.Struct> sts = @;', 'google.protobuf.NullValue nv = @;', 'repeated google.protobuf.StringValue svs = @;'])
    # same fields as Opt/Scalars but fewer: an older schema, to see unknown fields
    msg('Old', [('string between = @;', 40), ('repeated int32 f = @;', 3)])
    msg('State', ['string state = @;', 'int32 size_cache = @;', 'bytes unknown_fields = @;', 'repeated string reset = @;', 'map<string,bytes> proto_message = @;', 'int32 x_x_x = @;', 'optional bool string = @;', 'int32 descriptor = @;'])
    open('proto/p3.proto', 'w').write('\n'.join(o) + '\n')


def p2():
    o = ['syntax = "proto2";', 'package vh.p2;', 'option go_package = "vharness/pb/p2";', 'import "google/protobuf/timestamp.proto";', 'import "google/protobuf/struct.proto";', '']
    o.append('enum Color { COLOR_ZERO = 0; COLOR_RED = 1; COLOR_NEG = -3; COLOR_MAX = 2147483647; COLOR_MIN = -2147483648; }')
    o.append('enum NoZero { NZ_SEVEN = 7; NZ_ONE = 1; }')
    types = KINDS + ['Color', 'Leaf', 'NoZero']
    dflt = {'double': 'inf', 'float': '-1.5', 'int32': '-7', 'int64': '9223372036854775807', 'uint32': '4294967295', 'uint64': '18446744073709551615', 'sint32': '-2147483648', 'sint64': '5',
            'fixed32': '9', 'fixed64': '10', 'sfixed32': '-11', 'sfixed64': '-12', 'bool': 'true', 'string': '"a,b=c\\"d"', 'bytes': '"x\\000y,oneof"', 'Color': 'COLOR_NEG', 'NoZero': 'NZ_ONE'}
    def msg(name, lab, opt=lambda k: '', step=1, extra=''):
        o.append('message %s {%s' % (name, extra))
        for i, k in enumerate(types):
            o.append('  %s %s f_%s = %d%s;' % (lab, k, k.lower(), 1 + step * i, opt(k)))
        o.append('}')
    o.append('message Leaf { optional int32 a = 1; optional string b = 2; optional bytes c = 3; required bool d = 4; }')
    msg('Opt', 'optional', step=7)
    msg('Def', 'optional', lambda k: ' [default = %s]' % dflt[k] if k in dflt else '')
    msg('Req', 'required')
    msg('Rep', 'repeated')
    msg('Packed', 'repeated', lambda k: '' if k in ('string', 'bytes', 'Leaf') else ' [packed = true]', step=3)
    o.append('message One {\n  oneof u {' + ''.join('\n    %s u_%s = %d;' % (k, k.lower(), i + 1) for i, k in enumerate(types)) + '\n  }\n  required string between = 40; oneof v { One rec = 41; google.protobuf.Value val = 42; bytes b2 = 43 [default="q"]; }\n}')
    o.append('message Maps {')
    n = 1
    for k in KEYS:
        for v in ['int32', 'string', 'Leaf', 'Color', 'bytes']:
            o.append('  map<%s, %s> m_%s_%s = %d;' % (k, v, k, v.lower(), n)); n += 1
    o.append('}')
    o.append('message Tree { optional Tree left = 1; repeated Tree kids = 2; map<string, Tree> by_id = 3; message Inner { required Tree t = 1; enum E { A = 2; B = 3; } optional E e = 2 [default = B]; repeated E es = 3 [packed = true]; } optional Inner inner = 4; oneof o { Inner oi = 5; Inner.E oe = 6; } optional google.protobuf.Timestamp ts = 7; }')
    open('proto/p2.proto', 'w').write('\n'.join(o) + '\n')


p3()
p2()
