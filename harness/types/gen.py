#!/usr/bin/env python3
"""Writes types_gen.go: the static type matrix (committed)."""
K=[('bool','bool','varint'),('int32','int32','varint'),('sint32','int32','zigzag32'),('uint32','uint32','varint'),
('int64','int64','varint'),('sint64','int64','zigzag64'),('uint64','uint64','varint'),('sfixed32','int32','fixed32'),
('fixed32','uint32','fixed32'),('float','float32','fixed32'),('sfixed64','int64','fixed64'),('fixed64','uint64','fixed64'),
('double','float64','fixed64'),('string','string','bytes'),('bytes','[]byte','bytes')]
KEYS=[k for k in K if k[0] not in('float','double','bytes')]
out=['// Code generated by gen.py. DO NOT EDIT.','','package types','']
names=[]
def tag(enc,num,label,extra='',kv=''):
    return '`protobuf:"%s,%d,%s,name=f%d%s"%s`'%(enc,num,label,num,extra,kv)
def struct(name,lines,top=True):
    out.append('type %s struct {'%name); out.extend('\t'+l for l in lines); out.append('}'); out.append('')
    if top: names.append(name)
def C(s): return s.capitalize()
struct('Leaf',['A int32 '+tag('varint',1,'opt',',proto3'),'B string '+tag('bytes',2,'opt',',proto3'),'C []uint32 '+tag('varint',3,'rep',',packed,proto3')])
struct('LeafU',['A int32 '+tag('varint',1,'opt',',proto3'),'unknownFields []byte'])
struct('EmptyMsg',[])
def shuf(l): # a fixed odd order, so that offsets and numbers disagree
    return l[1::2]+l[0::2][::-1]
nums=[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15]
alt=[16,17,2047,2048,999,1000,1001,1002,536870911,536870910,20000,262143,262144,18999,33554431]
for suf,ns in(('',nums),('Num',alt)):
    struct('Implicit'+suf,shuf(['F%s %s %s'%(C(k),g,tag(e,n,'opt',',proto3')) for (k,g,e),n in zip(K,ns)])+['unknownFields []byte'])
    struct('Explicit'+suf,shuf(['F%s %s %s'%(C(k),('*'+g if k!='bytes' else g),tag(e,n,'opt',',proto3,oneof' if suf or k=='bytes' else '')) for (k,g,e),n in zip(K,ns)]))
    struct('Rep'+suf,shuf(['F%s []%s %s'%(C(k),g,tag(e,n,'rep')) for (k,g,e),n in zip(K,ns)])+['unknownFields []byte'])
    struct('Packed'+suf,shuf(['F%s []%s %s'%(C(k),g,tag(e,n,'rep',',packed,proto3')) for (k,g,e),n in zip(K,ns) if e!='bytes']))
struct('Required',shuf(['F%s %s %s'%(C(k),('*'+g if k!='bytes' else g),tag(e,n,'req')) for (k,g,e),n in zip(K,nums)]))
struct('ReqVal',shuf(['F%s %s %s'%(C(k),g,tag(e,n,'req' if k!='bytes' else 'opt',',proto3')) for (k,g,e),n in zip(K,nums)])+['PB *[]byte '+tag('bytes',16,'opt')])
for kk,kg,ke in KEYS:
    lines=[]
    for i,(vk,vg,ve) in enumerate(K):
        n=(i*7)%17+1
        lines.append('V%s map[%s]%s %s'%(C(vk),kg,vg,tag('bytes',n,'rep','',' protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"'%(ke,ve))))
    for vn,vt,n in(('VMsg','*Leaf',30),('VMsgVal','Leaf',31),('VEmpty','*EmptyMsg',1900),('VEmptyVal','EmptyMsg',1901),('VSelf','*Map%s'%C(kk),1902),('VU','*LeafU',1903)):
        lines.append('%s map[%s]%s %s'%(vn,kg,vt,tag('bytes',n,'rep','',' protobuf_key:"%s,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'%ke)))
    struct('Map'+C(kk),lines)
# oneofs
def oneof(msg,group,members):
    """members: (Name, gotype, tag)"""
    iface='is%s_%s'%(msg,group)
    out.append('type %s interface{ %s() }'%(iface,iface)); out.append('')
    ws=[]
    for nm,gt,tg in members:
        w='%s_%s'%(msg,nm); ws.append(w)
        out.append('type %s struct{ %s %s %s }'%(w,nm,gt,tg)); out.append('func (*%s) %s() {}'%(w,iface)); out.append('')
    return '%s %s `protobuf_oneof:"%s"`'%(group,iface,group.lower()),ws
def wrappers(msg,ws):
    out.append('func (*%s) XXX_OneofWrappers() []interface{} {'%msg); out.append('\treturn []interface{}{%s}'%', '.join('(*%s)(nil)'%w for w in ws)); out.append('}'); out.append('')
for name,base,unk in(('OneofAll',1,'unknownFields []byte'),('OneofHigh',2040,None)):
    m1=[('A'+C(k),g,tag(e,base+i,'opt',',proto3,oneof')) for i,(k,g,e) in enumerate(K)]
    m1+= [('AMsg','*Leaf',tag('bytes',base+20,'opt',',proto3,oneof')),('ASelf','*'+name,tag('bytes',base+21,'opt',',proto3,oneof')),('AEmpty','*EmptyMsg',tag('bytes',base+22,'opt',',proto3,oneof'))]
    l1,w1=oneof(name,'One',m1)
    m2=[('B'+C(k),g,tag(e,base+100+i,'opt',',proto3,oneof')) for i,(k,g,e) in enumerate(K) if k in('bool','int64','bytes','float')]+[('BMsg','*LeafU',tag('bytes',base+130,'opt',',proto3,oneof')),('BVal','Leaf',tag('bytes',base+131,'opt',',proto3,oneof'))]
    l2,w2=oneof(name,'Two',m2)
    struct(name,['X int32 '+tag('varint',base+30,'opt',',proto3'),l1,'S string '+tag('bytes',base+31,'opt',',proto3'),'R []int64 '+tag('varint',base+32,'rep',',packed'),l2,'M *Leaf '+tag('bytes',base+33,'opt',',proto3')]+([unk] if unk else []))
    wrappers(name,w1+w2)
l,w=oneof('OneofSingle','Only',[('V','uint32',tag('fixed32',5,'opt',',oneof'))])
struct('OneofSingle',[l]); wrappers('OneofSingle',w)
# unknown slots
for nm,slot in(('UBytes','unknownFields []byte'),('UPtr','unknownFields *[]byte'),('UOld','XXX_unrecognized []byte'),('UOldPtr','XXX_unrecognized *[]byte'),('UNone',None)):
    struct(nm,['A int32 '+tag('varint',3,'opt',',proto3'),'S string '+tag('bytes',4,'opt',',proto3'),'L []int32 '+tag('varint',5,'rep',',packed'),'Sub *%s '%nm+tag('bytes',6,'opt'),
      'Subs []*UBytes '+tag('bytes',7,'rep'),'Vals []UPtr '+tag('bytes',8,'rep'),'M map[int32]*UOld '+tag('bytes',9,'rep','',' protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
      'MS map[string]*UNone '+tag('bytes',10,'rep','',' protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
      'Val UBytesLeaf '+tag('bytes',11,'opt')]+([slot] if slot else []))
struct('UBytesLeaf',['Z uint64 '+tag('varint',2,'opt'),'unknownFields []byte'])
# recursion
struct('Tree',['V int64 '+tag('zigzag64',1,'opt',',proto3'),'Left *Tree '+tag('bytes',2,'opt'),'Right *Tree '+tag('bytes',3,'opt'),'Kids []*Tree '+tag('bytes',4,'rep'),'Vals []Tree '+tag('bytes',12,'rep'),
 'ByI32 map[int32]*Tree '+tag('bytes',5,'rep','',' protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
 'ByU64 map[uint64]*Tree '+tag('bytes',6,'rep','',' protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
 'ByStr map[string]*Tree '+tag('bytes',7,'rep','',' protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
 'ByBool map[bool]*Tree '+tag('bytes',8,'rep','',' protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
 'ByStrV map[string]Tree '+tag('bytes',13,'rep','',' protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
 'ByI64V map[int64]Tree '+tag('bytes',14,'rep','',' protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
 'Mut *MutualA '+tag('bytes',9,'opt')])
l,w=oneof('MutualA','Kind',[('OTree','*Tree',tag('bytes',1,'opt',',oneof')),('OB','*MutualB',tag('bytes',2,'opt',',oneof')),('ON','int32',tag('varint',3,'opt',',oneof'))])
struct('MutualA',[l,'B *MutualB '+tag('bytes',4,'opt'),'Wrap ByValWrap '+tag('bytes',5,'opt')]); wrappers('MutualA',w)
struct('MutualB',['A *MutualA '+tag('bytes',1,'opt'),'As []MutualA '+tag('bytes',2,'rep'),'T map[uint32]*MutualA '+tag('bytes',3,'rep','',' protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"')])
struct('ByValWrap',['T *Tree '+tag('bytes',1,'opt'),'N int32 '+tag('varint',2,'opt')])
# by value
struct('V1',['B bool '+tag('varint',1,'opt')]); struct('V4',['I int32 '+tag('varint',1,'opt')]); struct('V8',['I int64 '+tag('fixed64',1,'opt')])
struct('V8p',['P *int32 '+tag('varint',1,'opt')]); struct('V8m',['M map[int32]int32 '+tag('bytes',1,'rep','',' protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"')])
struct('V8two',['A int32 '+tag('varint',1,'opt'),'B int32 '+tag('varint',2,'opt')])
struct('V16',['S string '+tag('bytes',1,'opt')]); struct('V24',['L []byte '+tag('bytes',1,'opt',',proto3')]); struct('V3',['A bool '+tag('varint',1,'opt'),'B bool '+tag('varint',2,'opt'),'C bool '+tag('varint',3,'opt')])
VS=['EmptyMsg','V1','V3','V4','V8','V8p','V8m','V8two','V16','V24','Leaf','Implicit','ByValNest']
struct('ByVal',['F%d %s %s'%(i,v,tag('bytes',i+1,'opt')) for i,v in enumerate(VS)]+['unknownFields []byte'])
struct('ByValList',['F%d []%s %s'%(i,v,tag('bytes',i+1,'rep')) for i,v in enumerate(VS)])
struct('ByValMap',['F%d map[uint32]%s %s'%(i,v,tag('bytes',i+1,'rep','',' protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"')) for i,v in enumerate(VS)]+['G%d map[string]%s %s'%(i,v,tag('bytes',i+40,'rep','',' protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"')) for i,v in enumerate(VS)])
struct('ByPtr',['F%d *%s %s'%(i,v,tag('bytes',i+1,'opt')) for i,v in enumerate(VS)]+['G%d []*%s %s'%(i,v,tag('bytes',i+31,'rep')) for i,v in enumerate(VS)])
struct('ByValNest',['A V8 '+tag('bytes',1,'opt'),'B V16 '+tag('bytes',2,'opt'),'C []V4 '+tag('bytes',3,'rep')])
# layout: non-proto fields in between, in the style of official code
struct('Layout',['state [3]uint64','sizeCache int32','B1 bool '+tag('varint',1,'opt'),'pad1 [3]byte','I *int32 '+tag('varint',2,'opt'),'b2 bool','U uint64 '+tag('varint',3,'opt'),'S string '+tag('bytes',4,'opt'),'ignored map[string]any','L []string '+tag('bytes',5,'rep'),'fn func()','Sub *Layout '+tag('bytes',6,'opt'),'unknownFields []byte','tail uint16'])
# everything together
struct('Kitchen',['Id *uint64 '+tag('varint',1,'req'),'Name string '+tag('bytes',2,'opt',',proto3'),'Tags []string '+tag('bytes',3,'rep'),'Scores []float64 '+tag('fixed64',4,'rep',',packed'),'Data []byte '+tag('bytes',5,'opt',',proto3,oneof'),
 'Kids []*Kitchen '+tag('bytes',6,'rep'),'Attr map[string]string '+tag('bytes',7,'rep','',' protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),
 'Sub *Leaf '+tag('bytes',8,'opt'),'Val V16 '+tag('bytes',9,'opt'),'One *OneofAll '+tag('bytes',10,'opt'),'Blobs [][]byte '+tag('bytes',11,'rep'),'Flags []bool '+tag('varint',12,'rep',',packed'),'Z []int32 '+tag('zigzag32',13,'rep'),
 'ByKey map[int64]*Kitchen '+tag('bytes',14,'rep','',' protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"'),'Opt *string '+tag('bytes',15,'opt',',proto3,oneof'),'F *float32 '+tag('fixed32',16,'opt',',def=1.5'),'XXX_unrecognized []byte `json:"-"`'])
out.append('// All holds a nil pointer of every type.'); out.append('var All = []any{')
for n in names: out.append('\t(*%s)(nil),'%n)
out.append('}')
open('types_gen.go','w').write('\n'.join(out)+'\n')
