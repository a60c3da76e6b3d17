V='pkg/event/value.go'
E='pkg/event/event.go'
T='pkg/event/time.go'
ITEMS=[
 # ---- C06 mutants
 ('val-name-dup','C06',[(V,'TimestampType:       "timestamp_type"','TimestampType:       "integer_type"')]),
 ('val-name-missing','C06',[(V,'	UnsignedIntegerType: "unsigned_integer_type",\n','')]),
 ('val-name-mutable','C06',[(V,'func Bool(v bool)','''func RenameType(vt ValueType, n string) { valueTypeNames[vt] = n }

func Bool(v bool)''')]),
 ('val-ctor-tag','C06',[(V,'	return &Value{Type: UnsignedIntegerType, UnsignedInteger: v}','	return &Value{Type: IntegerType, UnsignedInteger: v}')]),
 ('val-ctor-field','C06',[(V,'	return &Value{Type: UnsignedIntegerType, UnsignedInteger: v}','	return &Value{Type: UnsignedIntegerType, Integer: int64(v)}')]),
 ('val-ctor-both','C06',[(V,'	return &Value{Type: UnsignedIntegerType, UnsignedInteger: v}','	return &Value{Type: UnsignedIntegerType, UnsignedInteger: v, Integer: int64(v)}')]),
 ('val-ctor-ms','C06',[(V,'Timestamp: Time{unixNanos}','Timestamp: Time{unixNanos / 1000 * 1000}')]),
 ('val-ctor-shared','C06',[(V,'	return &Value{Type: BoolType, Bool: v}','''	if v {
		return trueValue
	}
	return &Value{Type: BoolType, Bool: v}'''),(V,'type ValueType uint8','var trueValue = &Value{Type: BoolType, Bool: true}\n\ntype ValueType uint8')]),
 ('val-ctor-empty','C06',[(V,'	return &Value{Type: ArrayType, Array: v}','	if len(v) == 0 {\n		return &Value{}\n	}\n	return &Value{Type: ArrayType, Array: v}')]),
 ('val-value-swap','C06 C32',[(V,'		return v.UnsignedInteger\n','		return v.Integer\n')]),
 ('val-value-missing','C06 C32',[(V,'	case TimestampType:\n		return v.Timestamp\n','')]),
 ('val-format-noname','C06',[(V,'	f.Write([]byte(v.Type.String()))\n','')]),
 ('val-format-nocontent','C06',[(V,'	fmt.Fprintf(f, "%v", v.value())','	if v.Type != FloatType {\n		fmt.Fprintf(f, "%v", v.value())\n	}')]),
 ('val-clone-tag','C06',[(V,'	c := *v\n	if v.Array','	c := *v\n	c.Timestamp = Time{}\n	if v.Array')]),
 ('val-null','C06',[(V,'var NullValue = &Value{Type: NullType}','var NullValue = &Value{Type: ArrayType}')]),
 # ---- C32 mutants
 ('js-array-null','C32 C06',[(V,'	case v.Type == ArrayType && v.Array == nil:\n		return []byte("[]"), nil\n','')]),
 ('js-object-null','C32 C06',[(V,'	case v.Type == ObjectType && v.Object == nil:\n		return []byte("{}"), nil\n','')]),
 ('js-empty-string','C32 C06',[(V,'	case v.Type == ObjectType && v.Object == nil:','	case v.Type == StringType && v.String == "":\n		return []byte("null"), nil\n	case v.Type == ObjectType && v.Object == nil:')]),
 ('js-event-map','C32',[(E,'	return json.Marshal(Object(e.fields))','	return json.Marshal(e.fields)')]),
 ('js-time-ms','C32',[(T,'time.RFC3339Nano','time.RFC3339')]),
 ('js-time-local','C32',[(T,'	return []byte(`"` + t.GoTime().Format(time.RFC3339Nano) + `"`), nil','	return []byte(`"` + time.Unix(0, t.UnixNanos).Format(time.RFC3339Nano) + `"`), nil')]),
 ('js-time-split','',[(T,'	return time.Unix(0, t.UnixNanos).UTC()','	sec := t.UnixNanos / 1e9\n	return time.Unix(sec, t.UnixNanos-sec*1e9).UTC()')]),
 ('js-time-noquote','C32',[(T,'	return []byte(`"` + t.GoTime().Format(time.RFC3339Nano) + `"`), nil','	return []byte(t.GoTime().Format(time.RFC3339Nano)), nil')]),
 ('js-time-micro','C32',[(T,'	return time.Unix(0, t.UnixNanos).UTC()','	return time.UnixMicro(t.UnixNanos / 1000).UTC()')]),
 ('js-dec-null-elem','C32',[(V,'''		for i, elem := range array {
			if elem == nil {
				array[i] = NullValue
			}
		}
''','')]),
 ('js-dec-null-elem-first','C32',[(V,'''		for i, elem := range array {
			if elem == nil {''','''		for i, elem := range array[:len(array)/2] {
			if elem == nil {''')]),
 ('js-dec-null-break','C32',[(V,'''				array[i] = NullValue
''','''				array[i] = NullValue
				break
''')]),
 ('js-dec-null-member','C32',[(V,'''				object[k] = NullValue
''','''				delete(object, k)
''')]),
 ('js-dec-tag','C32',[(V,'		*v = Value{Type: ArrayType, Array: array}','		*v = Value{Array: array}')]),
 ('js-dec-merge','C32',[(V,'''		var object map[string]*Value
		if err''','''		object := v.Object
		if err''')]),
 ('js-dec-reuse','C32',[(V,'''		var array []*Value
		if err''','''		array := v.Array
		if err''')]),
 ('js-dec-stale','C32',[(V,'			*v = Value{Type: StringType, String: x}','			v.Type, v.String = StringType, x')]),
 ('js-dec-err','C32',[(V,'''		if err = json.Unmarshal(data, &object); err != nil {
			return err
		}''','''		if err = json.Unmarshal(data, &object); err != nil && len(object) == 0 {
			return err
		}''')]),
 ('js-dec-trim','C32',[(V,'			*v = Value{Type: StringType, String: x}','			*v = Value{Type: StringType, String: string(bytes.TrimSpace([]byte(x)))}')]),
 ('js-dec-bool','C32',[(V,'''			*v = Value{Type: BoolType, Bool: x}''','''			*v = Value{Type: BoolType}''')]),
 ('js-dec-event-null','C32',[(E,'''	for k, v := range fields {
		if v == nil {
			fields[k] = NullValue
		}
	}
''','')]),
 ('js-dec-event-merge','C32',[(E,'	var fields map[string]*Value\n','	fields := e.fields\n')]),
 ('js-dec-event-err','C32',[(E,'''	if err := json.Unmarshal(data, &fields); err != nil {
		return err
	}
''','''	if err := json.Unmarshal(data, &fields); err != nil {
		e.fields = fields
		return nil
	}
''')]),
 ('js-dec-event-keep','C32',[(E,'	e.fields = fields\n	return nil\n}','	if len(fields) > 0 {\n		e.fields = fields\n	}\n	return nil\n}')]),
 # ---- refactorings
 ('ref-name-switch','',[(V,'''	if name, found := valueTypeNames[vt]; found {
		return name
	}
	return "unknown_type"''','''	name, found := valueTypeNames[vt]
	if !found {
		name = "unknown_type"
	}
	return name''')]),
 ('ref-name-array','',[(V,'var valueTypeNames = map[ValueType]string{','var valueTypeNames = [maxValueType]string{'),(V,'''	if name, found := valueTypeNames[vt]; found {
		return name
	}
	return "unknown_type"''','''	if vt < maxValueType {
		return valueTypeNames[vt]
	}
	return "unknown_type"''')]),
 ('ref-name-slice','',[(V,'var valueTypeNames = map[ValueType]string{','var valueTypeNames = []string{'),(V,'''	if name, found := valueTypeNames[vt]; found {
		return name
	}
	return "unknown_type"''','''	if int(vt) >= len(valueTypeNames) {
		return "unknown_type"
	}
	return valueTypeNames[vt]''')]),
 ('ref-ctor-helper','',[(V,'	return &Value{Type: BoolType, Bool: v}','	val := newValue(BoolType)\n	val.Bool = v\n	return val'),(V,'func Bool(v bool)','func newValue(t ValueType) *Value {\n	return &Value{Type: t}\n}\n\nfunc Bool(v bool)')]),
 ('ref-format','',[(V,'''	f.Write([]byte(v.Type.String()))
	f.Write([]byte(":"))
	fmt.Fprintf(f, "%v", v.value())''','''	fmt.Fprintf(f, "%s:%v", v.Type, v.value())''')]),
 ('ref-format-io','',[(V,'''	f.Write([]byte(v.Type.String()))
	f.Write([]byte(":"))
''','''	io.WriteString(f, v.Type.String()+":")
'''),(V,'	"fmt"\n','	"fmt"\n	"io"\n')]),
 ('ref-marshal-switch','',[(V,'''	switch {
	case v.Type == ArrayType && v.Array == nil:
		return []byte("[]"), nil
	case v.Type == ObjectType && v.Object == nil:
		return []byte("{}"), nil
	}
	return json.Marshal(v.value())''','''	switch v.Type {
	case ArrayType:
		if len(v.Array) == 0 {
			return []byte{'[', ']'}, nil
		}
		return json.Marshal(v.Array)
	case ObjectType:
		if v.Object == nil {
			return json.Marshal(map[string]*Value{})
		}
		return json.Marshal(v.Object)
	case TimestampType:
		return v.Timestamp.MarshalJSON()
	case IntegerType:
		return strconv.AppendInt(nil, v.Integer, 10), nil
	case UnsignedIntegerType:
		return []byte(strconv.FormatUint(v.UnsignedInteger, 10)), nil
	case BoolType:
		if v.Bool {
			return []byte("true"), nil
		}
		return []byte("false"), nil
	case StringType:
		return json.Marshal(v.String)
	case FloatType:
		data, err := json.Marshal(v.Float)
		if err != nil {
			return nil, fmt.Errorf("failed encoding number: %w", err)
		}
		return data, nil
	}
	return []byte("null"), nil'''),(V,'	"fmt"\n','	"fmt"\n	"strconv"\n')]),
 ('ref-event-marshal','',[(E,'	return json.Marshal(Object(e.fields))','	if len(e.fields) == 0 {\n		return []byte("{}"), nil\n	}\n	return json.Marshal(e.fields)')]),
 ('ref-event-marshal2','',[(E,'	return json.Marshal(Object(e.fields))','	return Object(e.fields).MarshalJSON()')]),
 ('ref-time-append','',[(T,'	return []byte(`"` + t.GoTime().Format(time.RFC3339Nano) + `"`), nil','''	b := make([]byte, 0, len(time.RFC3339Nano)+2)
	b = append(b, '"')
	b = t.GoTime().AppendFormat(b, time.RFC3339Nano)
	return append(b, '"'), nil''')]),
 ('ref-time-std','',[(T,'	return []byte(`"` + t.GoTime().Format(time.RFC3339Nano) + `"`), nil','	return t.GoTime().MarshalJSON()')]),
 ('ref-dec-helper','',[(V,'''		for i, elem := range array {
			if elem == nil {
				array[i] = NullValue
			}
		}
''','''		fillNulls(array)
'''),(V,'// Clone returns','''func fillNulls(values []*Value) {
	for i := 0; i < len(values); i++ {
		if values[i] != nil {
			continue
		}
		values[i] = &Value{Type: NullType}
	}
}

// Clone returns''')]),
 ('ref-dec-ctor','',[(V,'		*v = Value{Type: ArrayType, Array: array}','		*v = *Array(array...)'),(V,'*v = Value{Type: StringType, String: x}','*v = *String(x)'),(V,'*v = Value{Type: NullType}','*v = *NullValue')]),
 ('ref-dec-byte','',[(V,'''	dec := json.NewDecoder(bytes.NewReader(data))
	tok, err := dec.Token()
	if err != nil {
		return err
	}

	switch tok {
	case json.Delim('['):''','''	data = bytes.TrimSpace(data)
	if len(data) == 0 {
		return errors.New("no JSON value")
	}
	var err error

	switch data[0] {
	case '[':'''),(V,'''	case json.Delim('{'):''',"	case '{':"),(V,'	"encoding/json"\n','	"encoding/json"\n	"errors"\n')]),
 ('ref-dec-event','',[(E,'''	for k, v := range fields {
		if v == nil {
			fields[k] = NullValue
		}
	}
	e.fields = fields
	return nil
}''','''	e.fields = fields
	for k := range e.fields {
		if e.fields[k] == nil {
			e.fields[k] = NullValue
		}
	}
	return nil
}''')]),
 ('ref-dec-event2','',[(E,'''	var fields map[string]*Value
	if err := json.Unmarshal(data, &fields); err != nil {
		return err
	}
''','''	fields := map[string]*Value{}
	err := json.NewDecoder(bytes.NewReader(data)).Decode(&fields)
	if err != nil {
		return fmt.Errorf("failed decoding event: %w", err)
	}
'''),(E,'	"encoding/json"\n','	"bytes"\n	"encoding/json"\n')]),
]
