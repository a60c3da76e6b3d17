# The protobuf wire codec.
import re
W='pkg/serialization/protobuf/event.pb.go'
SRC=open('/repo/'+W).read()
ITEMS=[]
def mut(name, old, new, nth=0, start=None):
    """replaces the nth occurrence of old after start"""
    at = SRC.index(start) if start else 0
    i = at-1
    for _ in range(nth+1):
        i = SRC.index(old, i+1)
    # a unique old text: extend to the left
    lo, hi = i, i+len(old)
    while SRC.count(SRC[lo:hi]) > 1 or SRC.index(SRC[lo:hi]) != lo:
        lo -= 1
        if i-lo > 6000: raise Exception(name)
    ITEMS.append(('wire-'+name, 'C34', [(W, SRC[lo:hi], SRC[lo:i]+new)]))
def whole(name, exp, fn):
    out = fn(SRC)
    assert out != SRC, name
    ITEMS.append((name, exp, [(W, SRC, out)]))
VU='func (m *Value) Unmarshal('; OU='func (m *ValueObject) Unmarshal('; AU='func (m *ValueArray) Unmarshal('; SK='func skipEvent('; LU='func (m *Log) Unmarshal('
VO='func (m *ValueObject) MarshalToSizedBuffer('; VA='func (m *ValueArray) MarshalToSizedBuffer('; VS='func (m *Value_String_) MarshalToSizedBuffer('
# decoder
mut('shift','shift += 7','shift += 8',start=VU)
mut('shift-max','shift >= 64','shift >= 63',1,start=VU)
mut('mask','int64(b&0x7F) << shift','int64(b&0x3F) << shift',start=VU)
mut('wrong-alternative','m.Kind = &Value_Timestamp{v}','m.Kind = &Value_Integer{v}')
mut('bool','b := bool(v != 0)','b := bool(v == 1)')
mut('float-len','iNdEx += 8','iNdEx += 4',start=VU)
mut('float-bounds','if (iNdEx + 8) > l {','if (iNdEx + 8) > l+1 {')
mut('share','v := make([]byte, postIndex-iNdEx)\n\t\t\tcopy(v, dAtA[iNdEx:postIndex])','v := dAtA[iNdEx:postIndex]')
mut('no-copy','copy(v, dAtA[iNdEx:postIndex])','_ = v',start=VU)
mut('no-skip','iNdEx += skippy','iNdEx++',start=VU)
mut('unknown-lost','m.XXX_unrecognized = append(m.XXX_unrecognized, dAtA[iNdEx:iNdEx+skippy]...)','m.XXX_unrecognized = append(m.XXX_unrecognized[:0], dAtA[iNdEx:iNdEx+skippy]...)',start=VU)
mut('pre-index','preIndex := iNdEx\n','preIndex := iNdEx + 1\n',start=AU)
mut('list-first','m.Items[len(m.Items)-1].Unmarshal','m.Items[0].Unmarshal')
mut('list-reset','m.Items = append(m.Items, &Value{})','m.Items = append(m.Items[:0], &Value{})')
mut('log-replace','if m.Object == nil {\n\t\t\t\tm.Object = &ValueObject{}\n\t\t\t}','m.Object = nil')
mut('nested-err','if err := v.Unmarshal(dAtA[iNdEx:postIndex]); err != nil {\n\t\t\t\treturn err\n\t\t\t}','_ = v.Unmarshal(dAtA[iNdEx:postIndex])',start=VU)
mut('nested-eof','if err := v.Unmarshal(dAtA[iNdEx:postIndex]); err != nil {','if err := v.Unmarshal(dAtA[iNdEx:postIndex]); err != nil && err != io.ErrUnexpectedEOF {',start=VU)
mut('map-key-num','if fieldNum == 1 {','if fieldNum == 3 {',start=OU)
mut('map-swap','m.Fields[mapkey] = mapvalue','m.Fields[mapkey] = m.Fields[mapkey]')
mut('map-if','m.Fields[mapkey] = mapvalue','if mapkey != "" {\n\t\t\t\tm.Fields[mapkey] = mapvalue\n\t\t\t}')
mut('map-keep','if m.Fields == nil {\n\t\t\t\tm.Fields = make(map[string]*Value)\n\t\t\t}','m.Fields = make(map[string]*Value)') # entries of earlier fields are lost
mut('map-first','mapvalue = &Value{}','if mapvalue == nil {\n\t\t\t\t\t\tmapvalue = &Value{}\n\t\t\t\t\t}')
mut('skip-depth','depth--','depth++')
mut('skip-end','if depth == 0 {\n\t\t\treturn iNdEx, nil','if depth <= 1 {\n\t\t\treturn iNdEx, nil')
mut('skip-32','iNdEx += 4','iNdEx += 8',start=SK)
mut('skip-group','if depth == 0 {\n\t\t\t\treturn 0, ErrUnexpectedEndOfGroupEvent\n\t\t\t}\n','')
mut('skip-neg','if length < 0 {\n\t\t\t\treturn 0, ErrInvalidLengthEvent\n\t\t\t}\n','if length < 0 {\n\t\t\t\tlength = 0\n\t\t\t}\n',start=SK)
mut('skip-overflow','if iNdEx < 0 {','if iNdEx < -1 {',start=SK)
mut('wire-type','if wireType != 2 {','if wireType == 0 {',2,start=VU)
mut('zero-field','if fieldNum <= 0 {','if fieldNum < 0 {',start=VU)
mut('big-field','fieldNum := int32(wire >> 3)','fieldNum := int32(wire>>3) & 0xff',start=VU)
mut('field-num','case 9:','case 10:',start=VU)
mut('alloc','v := make([]byte, postIndex-iNdEx)','v := make([]byte, byteLen, byteLen<<20)')
mut('neg-len','if msglen < 0 {\n\t\t\t\treturn ErrInvalidLengthEvent\n\t\t\t}\n','',start=AU)
mut('post-neg','if postIndex < 0 {\n\t\t\t\treturn ErrInvalidLengthEvent\n\t\t\t}\n','',start=AU)
mut('post-len','if postIndex > l {','if postIndex > l+1 {',start=AU)
mut('varint-eof','if iNdEx >= l {','if iNdEx > l {',2,start=VU)
# encoder
mut('enc-tag','dAtA[i] = 0x48','dAtA[i] = 0x40')
mut('enc-tag-type','dAtA[i] = 0x21','dAtA[i] = 0x25')
mut('enc-order','for iNdEx := len(m.Items) - 1; iNdEx >= 0; iNdEx-- {','for iNdEx := range m.Items {',start=VA)
mut('enc-first','iNdEx >= 0; iNdEx--','iNdEx > 0; iNdEx--',start=VA)
mut('enc-empty-string','if m.String_ != nil {','if len(m.String_) > 0 {',start=VS)
mut('enc-string-len','uint64(len(m.String_))','uint64(len(m.String_)+1)',start=VS)
mut('enc-bool','dAtA[i] = 1','dAtA[i] = 2',start='func (m *Value_Boolean) MarshalToSizedBuffer(')
mut('enc-int32','uint64(m.Integer)','uint64(int32(m.Integer))')
mut('enc-uint32','uint64(m.UnsignedInteger)','uint64(uint32(m.UnsignedInteger))')
mut('enc-float32','float64(m.Float)','float64(float32(m.Float))')
mut('enc-unknown','if m.XXX_unrecognized != nil {','if len(m.XXX_unrecognized) > 1 {',start=VO)
mut('enc-map-len','uint64(baseI-i)','uint64(baseI-i-1)')
mut('enc-map-nil','if v != nil {','if v != nil && v.Kind != nil {',start=VO)
mut('enc-map-empty','for k := range m.Fields {','for k := range m.Fields {\n\t\t\tif k == "" {\n\t\t\t\tcontinue\n\t\t\t}',start=VO)
mut('enc-err','if err != nil {\n\t\t\t\treturn 0, err\n\t\t\t}\n','_ = err\n',start='func (m *Value_Array) MarshalToSizedBuffer(')
mut('enc-varint','v >= 1<<7','v > 1<<7')
mut('enc-varint-shift','v >>= 7','v >>= 8')
mut('enc-varint-mark','v&0x7f | 0x80','v&0x7f | 0x40')
mut('sov','+ 6) / 7','+ 5) / 7')
mut('sov-one','Len64(x|1)','Len64(x)')
mut('size-string','n += 1 + l + sovEvent(uint64(l))','n += 1 + l + sovEvent(uint64(l+1))',start='func (m *Value_String_) Size(')
mut('size-array','n += 1 + l + sovEvent(uint64(l))','n += l + sovEvent(uint64(l))',start='func (m *ValueArray) Size(')
mut('size-bool','n += 2','n += 1',start='func (m *Value_Boolean) Size(')
mut('size-map-nil','l = 0\n\t\t\tif','if',start='func (m *ValueObject) Size(')
mut('size-map','l += 1 + sovEvent(uint64(l))','l += 1 + sovEvent(uint64(l+1))')
mut('size-unknown','if m.XXX_unrecognized != nil {\n\t\tn += len(m.XXX_unrecognized)\n\t}\n','',start='func (m *ValueObject) Size(')
mut('marshal-return','return dAtA[:n], nil','return dAtA[:n:n], err',start='func (m *Value) Marshal(')
ITEMS[-1]=(ITEMS[-1][0],'',ITEMS[-1][2])
mut('marshal-cap','dAtA = make([]byte, size)','dAtA = make([]byte, size+1)',start='func (m *Value) Marshal(')
ITEMS[-1]=(ITEMS[-1][0],'C34',ITEMS[-1][2])
mut('marshalto','return m.MarshalToSizedBuffer(dAtA[:size])','_ = size\n\treturn m.MarshalToSizedBuffer(dAtA)',start='func (m *Value_Null) MarshalTo(')
mut('xxx-unmarshal','return m.Unmarshal(b)','_ = m.Unmarshal(b)\n\treturn nil',start='func (m *Value) XXX_Unmarshal(')
mut('xxx-size','return m.Size()','return m.Size() + 1',start='func (m *Value) XXX_Size(')
# the definition, Reset and registration
def swapnum(s):
    # boolean and integer swap numbers, in code and tags: only the definition tells
    s=s.replace('protobuf:"varint,3,opt,name=boolean','protobuf:"varint,@5,opt,name=boolean').replace('protobuf:"varint,5,opt,name=integer','protobuf:"varint,3,opt,name=integer').replace('@5','5')
    i=s.index('func (m *Value) Unmarshal('); d=s[i:]
    d=d.replace('case 3:','case @5:',1).replace('case 5:','case 3:',1).replace('@5','5')
    s=s[:i]+d
    i=s.index('func (m *Value_Boolean) MarshalToSizedBuffer('); s=s[:i]+s[i:].replace('dAtA[i] = 0x18','dAtA[i] = 0x28',1)
    i=s.index('func (m *Value_Integer) MarshalToSizedBuffer('); s=s[:i]+s[i:].replace('dAtA[i] = 0x28','dAtA[i] = 0x18',1)
    return s
whole('wire-def-swap','C34',swapnum)
mut('reset-value','*m = Value{}','m.Kind = nil')
mut('reset-none','*m = ValueArray{}','')
mut('reset-object','*m = ValueObject{}','*m = ValueObject{Fields: m.Fields}')
mut('oneof-missing','\t\t(*Value_Timestamp)(nil),\n','')
# behaviour-preserving
whole('ref-wire-reset','',lambda s: s.replace('{ *m = Value{} }','{ resetValue(m) }').replace('func (m *ValueArray) Reset()         { *m = ValueArray{} }','func (m *ValueArray) Reset() {\n\tvar zero ValueArray\n\t*m = zero\n}\n\nfunc resetValue(m *Value) { *m = Value{} }'))
whole('ref-wire-oneofs','',lambda s: s.replace('func (*Value) XXX_OneofWrappers() []interface{} {\n\treturn []interface{}{','func (*Value) XXX_OneofWrappers() []interface{} {\n\tout := []interface{}{').replace('(*Value_UnsignedInteger)(nil),\n\t}\n','(*Value_UnsignedInteger)(nil),\n\t}\n\treturn out\n'))
DEC=SRC.index('func (m *MessageWrapper) Unmarshal'); END=SRC.index('func skipEvent(')
def helper(s):
    head, dec, tail = s[:DEC], s[DEC:END], s[END:]
    pat=re.compile(r'for shift := uint\(0\); ; shift \+= 7 \{\n\t+if shift >= 64 \{\n\t+return ErrIntOverflowEvent\n\t+\}\n\t+if iNdEx >= l \{\n\t+return io.ErrUnexpectedEOF\n\t+\}\n\t+b := dAtA\[iNdEx\]\n\t+iNdEx\+\+\n\t+(\w+) \|= (\w+)\(b&0x7F\) << shift\n\t+if b < 0x80 \{\n\t+break\n\t+\}\n\t+\}\n')
    dec=pat.sub(lambda m: '{\n\t\t\tx, next, err := readVarint(dAtA, iNdEx)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\t%s, iNdEx = %s(x), next\n\t\t}\n'%(m.group(1),m.group(2)),dec)
    return head+'''func readVarint(dAtA []byte, iNdEx int) (v uint64, next int, err error) {
	l := len(dAtA)
	for shift := uint(0); ; shift += 7 {
		if shift >= 64 {
			return 0, 0, ErrIntOverflowEvent
		}
		if iNdEx >= l {
			return 0, 0, io.ErrUnexpectedEOF
		}
		b := dAtA[iNdEx]
		iNdEx++
		v |= uint64(b&0x7F) << shift
		if b < 0x80 {
			return v, iNdEx, nil
		}
	}
}

'''+dec+tail
whole('ref-wire-readvarint','',helper)
def lengths(s):
    # one function for lengths
    s=helper(s)
    i=s.index('func (m *MessageWrapper) Unmarshal'); j=s.index('func skipEvent(')
    dec=s[i:j]
    pat=re.compile(r'var (msglen|byteLen|mapmsglen) int\n\t+\{\n\t\t\tx, next, err := readVarint\(dAtA, iNdEx\)\n\t+if err != nil \{\n\t+return err\n\t+\}\n\t+\w+, iNdEx = int\(x\), next\n\t+\}\n\t+if \w+ < 0 \{\n\t+return ErrInvalidLengthEvent\n\t+\}\n\t+(\w+) := iNdEx \+ \w+\n\t+if \w+ < 0 \{\n\t+return ErrInvalidLengthEvent\n\t+\}\n\t+if \w+ > l \{\n\t+return io.ErrUnexpectedEOF\n\t+\}\n')
    dec,n=pat.subn(lambda m:'start, %s, err := readLength(dAtA, iNdEx)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tiNdEx = start\n'%m.group(2),dec)
    assert n>=5,n
    return s[:i]+'''func readLength(dAtA []byte, iNdEx int) (start, end int, err error) {
	x, start, err := readVarint(dAtA, iNdEx)
	if err != nil {
		return 0, 0, err
	}
	n := int(x)
	if n < 0 {
		return 0, 0, ErrInvalidLengthEvent
	}
	end = start + n
	if end < 0 {
		return 0, 0, ErrInvalidLengthEvent
	}
	if end > len(dAtA) {
		return 0, 0, io.ErrUnexpectedEOF
	}
	return start, end, nil
}

'''+dec+s[j:]
whole('ref-wire-readlength','',lengths)
def encmsg(s):
    pat=re.compile(r'\{\n\t+size, err := (m\.\w+|v|m\.Items\[iNdEx\])\.MarshalToSizedBuffer\(dAtA\[:i\]\)\n\t+if err != nil \{\n\t+return 0, err\n\t+\}\n\t+i -= size\n\t+i = encodeVarintEvent\(dAtA, i, uint64\(size\)\)\n\t+\}\n\t+i--\n\t+dAtA\[i\] = (0x\w+)\n')
    s,n=pat.subn(lambda m:'var err error\n\t\tif i, err = encodeMessageEvent(dAtA, i, %s, %s); err != nil {\n\t\t\treturn 0, err\n\t\t}\n'%(m.group(1),m.group(2)),s)
    assert n>=5,n
    return s.replace('func encodeVarintEvent(','''type sizedMarshaler interface {
	MarshalToSizedBuffer(dAtA []byte) (int, error)
}

func encodeMessageEvent(dAtA []byte, i int, m sizedMarshaler, tag byte) (int, error) {
	size, err := m.MarshalToSizedBuffer(dAtA[:i])
	if err != nil {
		return 0, err
	}
	i -= size
	i = encodeVarintEvent(dAtA, i, uint64(size))
	i--
	dAtA[i] = tag
	return i, nil
}

func encodeVarintEvent(''',1)
whole('ref-wire-encmsg','',encmsg)
def sizes(s):
    s=re.sub(r'l = (m\.\w+\.Size\(\)|len\(m\.String_\)|e\.Size\(\))\n\t+n \+= 1 \+ l \+ sovEvent\(uint64\(l\)\)',r'n += lengthDelimited(\1)',s)
    return s.replace('func sovEvent(','func lengthDelimited(l int) int {\n\treturn 1 + sovEvent(uint64(l)) + l\n}\n\nfunc sovEvent(',1)
whole('ref-wire-sizes','',sizes)
def cond(s):
    s=s.replace('for iNdEx := len(m.Items) - 1; iNdEx >= 0; iNdEx-- {','for n := len(m.Items); n > 0; n-- {\n\t\t\tiNdEx := n - 1',1)
    s=s.replace('for k := range m.Fields {\n\t\t\tv := m.Fields[k]','for k, v := range m.Fields {',1)
    s=s.replace('if (iNdEx + 8) > l {','if l-iNdEx < 8 {',1)
    s=s.replace('if (iNdEx + skippy) > l {','if skippy > l-iNdEx {')
    s=s.replace('b := bool(v != 0)\n\t\t\tm.Kind = &Value_Boolean{b}','m.Kind = &Value_Boolean{Boolean: v != 0}')
    s=s.replace('v := make([]byte, postIndex-iNdEx)\n\t\t\tcopy(v, dAtA[iNdEx:postIndex])','v := append([]byte{}, dAtA[iNdEx:postIndex]...)')
    s=s.replace('m.Items = append(m.Items, &Value{})\n\t\t\tif err := m.Items[len(m.Items)-1].Unmarshal(dAtA[iNdEx:postIndex]); err != nil {\n\t\t\t\treturn err\n\t\t\t}','item := &Value{}\n\t\t\tif err := item.Unmarshal(dAtA[iNdEx:postIndex]); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tm.Items = append(m.Items, item)')
    return s
whole('ref-wire-cond','',cond)
def enc2(s):
    s=s.replace('''	offset -= sovEvent(v)
	base := offset
	for v >= 1<<7 {
		dAtA[offset] = uint8(v&0x7f | 0x80)
		v >>= 7
		offset++
	}
	dAtA[offset] = uint8(v)
	return base''','''	start := offset - sovEvent(v)
	at := start
	for ; v > 0x7f; at++ {
		dAtA[at] = byte(v) | 0x80
		v = v >> 7
	}
	dAtA[at] = byte(v)
	return start''')
    s=s.replace('return (math_bits.Len64(x|1) + 6) / 7','if x == 0 {\n\t\treturn 1\n\t}\n\treturn (math_bits.Len64(x) + 6) / 7')
    s=s.replace('	i--\n	if m.Boolean {\n		dAtA[i] = 1\n	} else {\n		dAtA[i] = 0\n	}\n','	b := byte(0)\n	if m.Boolean {\n		b = 1\n	}\n	i--\n	dAtA[i] = b\n')
    s=s.replace('''		i -= len(m.String_)
		copy(dAtA[i:], m.String_)
		i = encodeVarintEvent''','''		n := len(m.String_)
		copy(dAtA[i-n:i], m.String_)
		i = encodeVarintEvent(dAtA, i-n, uint64(n))
		_ = uint64(0)
		// i = encodeVarintEvent''')
    return s
whole('ref-wire-enc2','',enc2)
def skip2(s):
    i=s.index('func skipEvent(')
    t=s[i:]
    t=t.replace('		switch wireType {\n		case 0:','		if wireType == 6 || wireType == 7 {\n			return 0, fmt.Errorf("proto: illegal wireType %d", wireType)\n		}\n		switch wireType {\n		case 0:',1)
    t=t.replace('''		if depth == 0 {
			return iNdEx, nil
		}
	}''','''		if depth > 0 {
			continue
		}
		return iNdEx, nil
	}''')
    t=t.replace('''		case 3:
			depth++
		case 4:
			if depth == 0 {
				return 0, ErrUnexpectedEndOfGroupEvent
			}
			depth--''','''		case 4:
			if depth < 1 {
				return 0, ErrUnexpectedEndOfGroupEvent
			}
			depth--
		case 3:
			depth++''')
    return s[:i]+t
whole('ref-wire-skip2','',skip2)
def chain(s):
    i=s.index('func (m *Log) Unmarshal'); j=s.index('func (m *Value) Unmarshal')
    t=s[i:j]
    t=t.replace('switch fieldNum {\n\t\tcase 1:\n','if fieldNum == 1 {\n').replace('\t\tdefault:\n','\t\t} else {\n')
    t=t.replace('for iNdEx < l {\n\t\tpreIndex','for {\n\t\tif iNdEx >= len(dAtA) {\n\t\t\tbreak\n\t\t}\n\t\tpreIndex')
    t=t.replace('if m.Object == nil {\n\t\t\t\tm.Object = &ValueObject{}\n\t\t\t}\n\t\t\tif err := m.Object.Unmarshal','o := m.Object\n\t\t\tif o == nil {\n\t\t\t\to = new(ValueObject)\n\t\t\t\tm.Object = o\n\t\t\t}\n\t\t\tif err := o.Unmarshal')
    return s[:i]+t+s[j:]
whole('ref-wire-chain','',chain)
mut('map-make','				m.Fields = make(map[string]*Value)\n','				_ = m\n',start='func (m *ValueObject) Unmarshal(')
mut('map-end','for iNdEx < postIndex {','for iNdEx <= postIndex {',start='func (m *ValueObject) Unmarshal(')
mut('skip-empty','if length < 0 {','if length <= 0 {',start='func skipEvent(')
