W='pkg/serialization/protobuf/event.pb.go'
PK='pkg/serialization/protobuf'
HDR='''
package protobuf

import (
	"bytes"
	"testing"
)

'''
def dec(body, imports='"testing"'):
    return '\npackage protobuf\n\nimport (\n'+''.join('\t%s\n'%i for i in imports.split())+')\n\n'+body
src=open('/repo/'+W).read()
def within(start, old, new):
    i=src.index(start); j=src.find('\nfunc ',i+1); f=src[i:j]
    assert old in f,(start,old)
    return (W,f,f.replace(old,new,1))
def within2(start, reps):
    i=src.index(start); j=src.find('\nfunc ',i+1); f=g=src[i:j]
    for a,b in reps:
        assert a in g
        g=g.replace(a,b,1)
    return (W,f,g)
ITEMS=[
dict(id='c34-empty-string', property='C34', pkg=PK,
 edits=[within('func (m *Value_String_) MarshalToSizedBuffer(','if m.String_ != nil {','if len(m.String_) != 0 {'),
        within('func (m *Value_String_) Size(','if m.String_ != nil {','if len(m.String_) != 0 {')],
 needs='a value that is the empty string, encoded and decoded',
 breaks='the empty string is encoded to nothing and comes back as a value without a kind (null)',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	v := &Value{Kind: &Value_String_{String_: []byte{}}}
	b, err := v.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	var w Value
	if err := w.Unmarshal(b); err != nil {
		t.Fatal(err)
	}
	if _, ok := w.Kind.(*Value_String_); !ok {
		t.Errorf("got %T", w.Kind)
	}
}
''')),
dict(id='c34-bool-size', property='C34', pkg=PK,
 edits=[within('func (m *Value_Integer) Size(','n += 1 + sovEvent(uint64(m.Integer))','n += 1 + sovEvent(uint64(uint32(m.Integer)))')],
 needs='an integer that does not fit in 32 bits',
 breaks='the size is smaller than what is written, so encoding panics',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	v := &Value{Kind: &Value_Integer{Integer: -1}}
	b, err := v.Marshal()
	if err != nil || len(b) != 11 {
		t.Errorf("%d bytes, %v", len(b), err)
	}
}
''')),
dict(id='c34-list-bound', property='C34', pkg=PK,
 edits=[within('func (m *ValueArray) Unmarshal(','''			if postIndex > l {
				return io.ErrUnexpectedEOF
			}
''','''			if iNdEx > l {
				return io.ErrUnexpectedEOF
			}
''')],
 needs='a list whose element says that it is longer than the input',
 breaks='decoding reads beyond the input (panics)',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("panic: %v", r)
		}
	}()
	b := make([]byte, 2, 2)
	b[0], b[1] = 0x0a, 0x7f
	var a ValueArray
	if err := a.Unmarshal(b); err == nil {
		t.Error("no error")
	}
}
''')),
dict(id='c34-merge-object', property='C34', pkg=PK,
 edits=[within('func (m *ValueObject) Unmarshal(','''			if m.Fields == nil {
				m.Fields = make(map[string]*Value)
			}
''','''			if len(m.Fields) < 2 {
				f := make(map[string]*Value, 2)
				for k, v := range m.Fields {
					if len(k) > 0 {
						f[k] = v
					}
				}
				m.Fields = f
			}
''')],
 needs='an object with an empty member name that is decoded before another member',
 breaks='the member with the empty name is lost',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	var o ValueObject
	if err := o.Unmarshal([]byte{0x0a, 2, 0x0a, 0, 0x0a, 3, 0x0a, 1, 'a'}); err != nil {
		t.Fatal(err)
	}
	if len(o.Fields) != 2 {
		t.Errorf("%d members", len(o.Fields))
	}
}
''')),
dict(id='c34-timestamp-tag', property='C34', pkg=PK,
 edits=[within('func (m *Value_Timestamp) MarshalToSizedBuffer(','dAtA[i] = 0x40','dAtA[i] = 0x48'),
        within('func (m *Value_UnsignedInteger) MarshalToSizedBuffer(','dAtA[i] = 0x48','dAtA[i] = 0x40'),
        within2('func (m *Value) Unmarshal(',[('m.Kind = &Value_Timestamp{v}','m.Kind = &Value_UnsignedInteger{uint64(v)}'),('m.Kind = &Value_UnsignedInteger{v}','m.Kind = &Value_Timestamp{int64(v)}')])],
 needs='a timestamp or unsigned integer that is written by one program and read by another that follows the schema',
 breaks='the numbers of two fields are exchanged in both directions, so round trips work and other readers see the wrong type',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	v := &Value{Kind: &Value_Timestamp{Timestamp: 5}}
	b, err := v.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b, []byte{8 << 3, 5}) {
		t.Errorf("got %x", b)
	}
}
''','"bytes" "testing"')),
dict(id='c34-skip-group', property='C34', pkg=PK,
 edits=[within('func skipEvent(','''			if depth == 0 {
				return 0, ErrUnexpectedEndOfGroupEvent
			}
			depth--
''','''			if depth > 0 {
				depth--
			}
''')],
 needs='bytes with the end of a group that did not start, at a place that is skipped',
 breaks='malformed bytes are taken as the end of a field instead of an error',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	if n, err := skipEvent([]byte{0x0c, 0}); err == nil {
		t.Errorf("skipped %d", n)
	}
}
''')),
dict(id='c34-unknown-kept', property='C34', pkg=PK,
 edits=[within('func (m *ValueArray) Unmarshal(','m.XXX_unrecognized = append(m.XXX_unrecognized, dAtA[iNdEx:iNdEx+skippy]...)','m.XXX_unrecognized = append(m.XXX_unrecognized[:0], dAtA[iNdEx:iNdEx+skippy]...)')],
 needs='an array message with two fields that are not known',
 breaks='only the last unknown field is kept',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	in := []byte{0x10, 1, 0x18, 2}
	var a ValueArray
	if err := a.Unmarshal(in); err != nil {
		t.Fatal(err)
	}
	out, err := a.Marshal()
	if err != nil || !bytes.Equal(in, out) {
		t.Errorf("got %x, %v", out, err)
	}
}
''','"bytes" "testing"')),
dict(id='c34-alias-number', property='C34', pkg=PK,
 edits=[within('func (m *Value) Unmarshal(','fieldNum := int32(wire >> 3)','fieldNum := int32(wire>>3) & 0xffff')],
 needs='an unknown field whose number agrees with that of a known field in its low 16 bits',
 breaks='an unknown field is taken for a known one',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	// field 65536+5 as a number
	in := []byte{0xa8, 0x80, 0x20, 1}
	var v Value
	if err := v.Unmarshal(in); err != nil {
		t.Fatal(err)
	}
	if v.Kind != nil {
		t.Errorf("got %v", v.Kind)
	}
}
''')),
dict(id='c34-exact-length', property='C34', pkg=PK,
 edits=[within('func (m *Value) Unmarshal(','if (iNdEx + 8) > l {','if (iNdEx + 8) >= l {')],
 needs='a float value whose encoding is the last thing in the message',
 breaks='a well-formed float is rejected as truncated',
 demo=dec('''func TestPlantedDemo(t *testing.T) {
	v := &Value{Kind: &Value_Float{Float: 1.5}}
	b, err := v.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	var w Value
	if err := w.Unmarshal(b); err != nil {
		t.Error(err)
	}
}
''')),
dict(id='c34-swapped-numbers', property='C34', pkg=PK,
 edits=[(W,'protobuf:"varint,5,opt,name=integer','protobuf:"varint,9,opt,name=integer'),(W,'protobuf:"varint,9,opt,name=unsigned_integer','protobuf:"varint,5,opt,name=unsigned_integer'),
        within2('func (m *Value) Unmarshal(',[('case 5:','case 99:'),('case 9:','case 5:'),('case 99:','case 9:')]),
        within('func (m *Value_Integer) MarshalToSizedBuffer(','0x28','0x48'),within('func (m *Value_UnsignedInteger) MarshalToSizedBuffer(','0x48','0x28')],
 needs='bytes exchanged with another implementation of event.proto',
 breaks='signed and unsigned integers are written with each other\'s field number, consistently on both sides: others read the wrong type',
 demo=dec("""func TestPlantedDemo(t *testing.T) {
	var w Value
	if err := w.Unmarshal([]byte{0x28, 0x07}); err != nil {
		t.Fatal(err)
	}
	if k, ok := w.Kind.(*Value_Integer); !ok || k.Integer != 7 {
		t.Errorf("got %T", w.Kind)
	}
}
""")),
dict(id='c34-reset-reuses-map', property='C34', pkg=PK,
 edits=[(W,'func (m *ValueObject) Reset()         { *m = ValueObject{} }','func (m *ValueObject) Reset()         { *m = ValueObject{Fields: m.Fields} }')],
 needs='a message that is decoded into twice with proto.Unmarshal',
 breaks='members of the earlier message stay in the later one',
 demo=dec("""func TestPlantedDemo(t *testing.T) {
	one := &ValueObject{Fields: map[string]*Value{"a": {Kind: &Value_Boolean{Boolean: true}}}}
	two := &ValueObject{Fields: map[string]*Value{"b": {Kind: &Value_Boolean{Boolean: true}}}}
	var w ValueObject
	for _, m := range []*ValueObject{one, two} {
		b, err := m.Marshal()
		if err != nil {
			t.Fatal(err)
		}
		if err := proto.Unmarshal(b, &w); err != nil {
			t.Fatal(err)
		}
	}
	if len(w.Fields) != 1 {
		t.Errorf("%d members", len(w.Fields))
	}
}
""",'"testing" proto"github.com/golang/protobuf/proto"')),
]
