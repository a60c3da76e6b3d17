A='pkg/processor/append/process.go'
L='pkg/processor/lowercase/process.go'
U='pkg/processor/uppercase/process.go'
S='pkg/processor/set/process.go'
R='pkg/processor/remove/process.go'
V='pkg/event/value.go'
E='pkg/event/event.go'
EU='pkg/eventutil/event.go'
M='pkg/serialization/mapinterface/mapinterface.go'
P='pkg/serialization/protobuf/protobuf.go'
ITEMS=[
 ('pan-put-nil-parent','C04 C01',[(E,'if inner == nil || inner.Type != ObjectType {','if inner.Type != ObjectType {')]),
 ('pan-put-nil-map','C04 C01',[(E,'''			if inner.Object == nil {
				inner.Object = map[string]*Value{}
			}
''','')]),
 ('pan-put-len','C04 C01',[(E,'			if inner.Object == nil {\n','			if inner.Object == nil && len(path) > 2 {\n')]),
 ('pan-put-no-init','C04 C01',[(E,'''	if e.fields == nil {
		e.init()
	}
''','''	if e.fields == nil && len(path) > 1 {
		e.init()
	}
''')]),
 ('pan-put-empty','C04 C01',[(E,'''	if len(path) == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
''','''	if path[0] == "" {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
''')]),
 ('pan-get-nil-parent','C04 C02',[(E,'if !found || inner == nil || len(inner.Object) == 0 {','if !found || len(inner.Object) == 0 {')]),
 ('pan-get-root','C04 C02',[(E,'''	if len(path) == 0 {
		// Return root object.
		return Object(e.fields)
	}
''','')]),
 ('pan-delete-parent','C04 C03',[(E,'	if parent == nil {\n		return nil\n	}\n','')]),
 ('pan-delete-empty','C04 C03',[(E,'if len(path) == 0 || len(e.fields) == 0 {','if len(e.fields) == 0 {')]),
 ('pan-event-json','C04 C32',[(E,'''	for k, v := range fields {
		if v == nil {
			fields[k] = NullValue
		}
	}
''','''	for k, v := range fields {
		if v.Type == NullType {
			fields[k] = NullValue
		}
	}
''')]),
 ('pan-event-json-key','C04 C32',[(E,'''		if v == nil {
			fields[k] = NullValue
		}
''','''		if v == nil || k[0] == 0 {
			fields[k] = NullValue
		}
''')]),
 ('pan-event-json-into','C04 C32',[(E,'''	e.fields = fields
	return nil
''','''	for k, v := range fields {
		e.fields[k] = v
	}
	return nil
''')]),
 ('pan-parser-last','C04 C05',[(E,'''	if len(pathScratch) > 0 {
		paths = append(paths, string(pathScratch))
	}

	return paths''','''	if pathScratch[0] != 0 {
		paths = append(paths, string(pathScratch))
	}

	return paths''')]),
 ('pan-parser-next','C04 C05',[(E,'''		case '\\\\':
			escape = true
''','''		case '\\\\':
			escape = key[i+1] == '.'
''')]),
 ('pan-parser-prev','C04 C05',[(E,'''			if escape {
				pathScratch = append(pathScratch, '.')
''','''			if escape || key[i-1] == '\\\\' {
				pathScratch = append(pathScratch, '.')
''')]),
 ('pan-clone-nil','C04 C23',[(V,'	if v == nil {\n		return nil\n	}\n\n	c := *v','	c := *v')]),
 ('pan-clone-elem','C04 C23',[(V,'			c.Array = append(c.Array, elem.Clone())\n','''			if elem.Type == NullType {
				elem = NullValue
			}
			c.Array = append(c.Array, elem.Clone())
''')]),
 ('pan-clone-map','C04 C23',[(V,'''	if v.Object != nil {
		c.Object = make(map[string]*Value, len(v.Object))
''','''	if v.Object != nil {
		if len(v.Object) > 0 || v.Type != ObjectType {
			c.Object = nil
		}
''')]),
 ('pan-clone-first','C04 C23',[(V,'		c.Array = make([]*Value, 0, len(v.Array))\n','		c.Array = make([]*Value, 0, len(v.Array))\n		_ = v.Array[0]\n')]),
 ('pan-typename','C04 C06',[(V,'''	if name, found := valueTypeNames[vt]; found {
		return name
	}
	return "unknown_type"
''','''	return [...]string{"null_type", "array_type", "bool_type", "float_type", "integer_type", "object_type", "string_type", "timestamp_type"}[vt]
''')]),
 ('pan-json-elem','C04 C32',[(V,'''			if elem == nil {
				array[i] = NullValue
			}
''','''			if elem.Type == NullType {
				array[i] = NullValue
			}
''')]),
 ('pan-json-number','C04 C32',[(V,'''		switch x := value.(type) {
		case string:
			*v = Value{Type: StringType, String: x}
		case float64:
			*v = Value{Type: FloatType, Float: x}
		case int64:
			*v = Value{Type: IntegerType, Integer: x}
''','''		if data[0] == 'n' {
			value = nil
		}
		switch x := value.(type) {
		case string:
			*v = Value{Type: StringType, String: x}
		case float64:
			*v = Value{Type: FloatType, Float: x}
		case int64:
			*v = Value{Type: IntegerType, Integer: x}
''')]),
 ('pan-json-assert','C04 C32',[(V,'''		case float64:
			*v = Value{Type: FloatType, Float: x}
		case int64:
			*v = Value{Type: IntegerType, Integer: x}
		case bool:
			*v = Value{Type: BoolType, Bool: x}
		case nil:
			*v = Value{Type: NullType}
		default:
			return fmt.Errorf("unhandled type %T for value %q", x, string(data))
		}
''','''		case float64:
			*v = Value{Type: FloatType, Float: x}
		case nil:
			*v = Value{Type: NullType}
		default:
			*v = Value{Type: BoolType, Bool: value.(bool)}
		}
		fmt.Sprint(value)
''')]),
 ('pan-array-first','C04 C06',[(V,'func Array(v ...*Value) *Value {\n','func Array(v ...*Value) *Value {\n	if v[0] == nil {\n		v = nil\n	}\n')]),
 ('pan-append-item','C04 C24',[(EU,'	if item == nil {\n		return nil\n	}\n\n','')]),
 ('pan-append-target','C04 C24',[(EU,'''	if targetValue == nil {
		targetValue = event.Array()
	} else if''','''	if''')]),
 ('pan-append-same','C04 C24',[(EU,'''		for _, v := range item.Array {
			targetValue''','''		for _, v := range item.Array {
			if v.Type == event.NullType {
				continue
			}
			targetValue''')]),
 ('pan-append-last','C04 C24',[(EU,'''	// Append the new item to the array.
''','''	// Append the new item to the array.
	if n := len(targetValue.Array); targetValue.Array[n-1] == item {
		return nil
	}
''')]),
 ('pan-map-nil','C04 C08',[(M,'''func fromEventValue(v *event.Value) interface{} {
	if v == nil {
		return nil
	}
''','''func fromEventValue(v *event.Value) interface{} {
''')]),
 ('pan-map-null','C04 C08',[(M,'''	case event.NullType:
		return nil
	default''','''	default''')]),
 ('pan-map-root','C04 C08',[(M,'''	if v == nil {
		return nil
	}

	if v.Type != event.ObjectType {''','''	if v.Type != event.ObjectType {''')]),
 ('pan-map-alloc','C04 C08',[(M,'	fields := make(map[string]interface{}, len(v.Object))\n','	var fields map[string]interface{}\n	if len(v.Object) > 1 {\n		fields = make(map[string]interface{}, len(v.Object))\n	}\n')]),
 ('pan-map-err','C04 C08',[(M,'''	fields, err := eventutil.ReflectValue(m)
	if err != nil {
		return nil, err
	}
''','''	fields, err := eventutil.ReflectValue(m)
	if err != nil && len(fields.Object) == 0 {
		return nil, err
	}
''')]),
 ('pan-map-items','C04 C08',[(M,'		items := make([]interface{}, 0, len(v.Array))\n		for _, x := range v.Array {\n			items = append(items, fromEventValue(x))\n		}\n','		items := make([]interface{}, len(v.Array)-1)\n		for i, x := range v.Array {\n			if i < len(items) {\n				items[i] = fromEventValue(x)\n				continue\n			}\n			items = append(items, fromEventValue(x))\n		}\n')]),
 ('pan-map-items-index','C04 C08',[(M,'		items := make([]interface{}, 0, len(v.Array))\n		for _, x := range v.Array {\n			items = append(items, fromEventValue(x))\n		}\n','		items := make([]interface{}, 0, len(v.Array))\n		for i := 0; i <= len(v.Array); i++ {\n			items = append(items, fromEventValue(v.Array[i]))\n		}\n')]),
 ('pan-pb-nil','C04 C07',[(P,'''	if v == nil {
		v = event.NullValue
	}
''','')]),
 ('pan-pb-null','C04 C07',[(P,'''	case event.NullType:
		return &Value{
			Kind: &Value_Null{
				Null: ValueNull_NULL_VALUE,
			},
		}
	default''','''	default''')]),
 ('pan-pb-root','C04 C07',[(P,'''	if v == nil {
		return &ValueObject{}
	}
''','')]),
 ('pan-pb-log','C04 C07',[(P,'if l == nil || l.Object == nil {','if l.Object == nil {')]),
 ('pan-pb-log-object','C04 C07',[(P,'if l == nil || l.Object == nil {','if l == nil {')]),
 ('pan-pb-kind','C04 C07',[(P,'v.GetKind().(type) {\n	case nil, ','v.Kind.(type) {\n	case nil, ')]),
 ('pan-pb-unset','C04 C07',[(P,'case nil, *Value_Null:','case *Value_Null:')]),
 ('pan-pb-array','C04 C07',[(P,'		for _, x := range t.Array.GetItems() {','		for _, x := range t.Array.Items {')]),
 ('pan-pb-object','C04 C07',[(P,'		for k, v := range t.Object.GetFields() {','		for k, v := range t.Object.Fields {')]),
 ('pan-lower-nil','C04 C22',[(L,'if v == nil || v.Type == event.NullType {','if v.Type == event.NullType {')]),
 ('pan-lower-order','C04 C22',[(L,'if v == nil || v.Type == event.NullType {','if v.Type == event.NullType || v == nil {')]),
 ('pan-lower-empty','C04 C22',[(L,'	out := strings.ToLower(v.String)\n','	out := strings.ToLower(v.String)\n	if v.String[0] == out[0] && v.String == out {\n		out = v.String\n	}\n')]),
 ('pan-upper-empty','C04 C22',[(U,'	out := strings.ToUpper(v.String)\n','	out := strings.ToUpper(v.String[:1]) + strings.ToUpper(v.String[1:])\n')]),
 ('pan-proc-append-elem','C04 C24',[(A,'if elem != nil && elem.Type','if elem.Type')]),
 ('pan-proc-append-nil','C04 C24',[(A,'	if v == nil || v.Type == event.NullType {\n		if p.config.IgnoreMissing {','	if p.config.IgnoreMissing && v.Type == event.NullType {\n		return nil\n	}\n	if v == nil || v.Type == event.NullType {\n		if p.config.IgnoreMissing {')]),
 ('pan-proc-append-last','C04 C24',[(A,'		for _, elem := range v.Array {\n','		if elem := v.Array[len(v.Array)-1]; elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {\n			return nil\n		}\n		for _, elem := range v.Array {\n')]),
 ('pan-set-copy','C04 C23',[(S,'''		if v == nil {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
''','''		if v.Type == event.NullType {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
''')]),
 ('pan-remove-type','C04 C25',[(R,'v == nil && !p.config.IgnoreMissing {','v.Type == 0 && v == nil && !p.config.IgnoreMissing {')]),
 ('pan-remove-fields','C04 C25',[(R,'	for _, field := range p.config.Fields {\n','	for i, field := range p.config.Fields {\n		if p.config.Fields[i+1] == field {\n			continue\n		}\n')]),
 # behaviour-preserving
 ('ref-pan-put-switch','',[(E,'''			if inner == nil || inner.Type != ObjectType {
				return nil,''','''			switch {
			case inner != nil && inner.Type == ObjectType:
			default:
				return nil,''')]),
 ('ref-pan-get-helper','',[(E,'''		inner, found := m[key]
		if !found || inner == nil || len(inner.Object) == 0 {
			return nil
		}
		m = inner.Object
	}

	return m''','''		inner := m[key]
		if m = inner.members(); len(m) == 0 {
			return nil
		}
	}

	return m'''),(E,'func (e *Event) get(','''func (v *Value) members() map[string]*Value {
	if v == nil {
		return nil
	}
	return v.Object
}

func (e *Event) get(''')]),
 ('ref-pan-exported-helper','',[(V,'// Clone returns','''// IsNull reports whether the value is null.
func (v *Value) IsNull() bool { return v.Type == NullType }

// Kind is the type of v.
func Kind(v *Value) ValueType { return v.Type }

// Clone returns'''),(L,'if v == nil || v.Type == event.NullType {','if v == nil || v.IsNull() {'),(U,'if v == nil || v.Type == event.NullType {','if v == nil || event.Kind(v) == event.NullType {')]),
 ('pan-parser-lookahead','C05',[(E,'''	for i := 0; i < len(key); i++ {
		switch c := key[i]; c {''','''	for i := 0; i < len(key); i++ {
		if i+1 < len(key) && key[i] == '\\\\' && key[i+1] == '.' {
			i++
			pathScratch = append(pathScratch, '.')
			continue
		}
		switch c := key[i]; c {''')]),
 ('ref-pan-append-index','',[(EU,'''		for _, v := range item.Array {
			targetValue.Array = append(targetValue.Array, v)
		}
''','''		for i := 0; i < len(item.Array); i++ {
			targetValue.Array = append(targetValue.Array, item.Array[i])
		}
''')]),
 ('ref-pan-map-items','',[(M,'		items := make([]interface{}, 0, len(v.Array))\n		for _, x := range v.Array {\n			items = append(items, fromEventValue(x))\n		}\n','		items := make([]interface{}, len(v.Array))\n		for i := range items {\n			items[i] = fromEventValue(v.Array[i])\n		}\n')]),
 ('ref-pan-map-root','',[(M,'	return fromEventValueObject(evt.Get("."))\n','	root := evt.Get(".")\n	if root == nil {\n		return nil\n	}\n	return fromEventValueObject(root)\n')]),
 ('ref-pan-map-object','',[(M,'''	if v.Type != event.ObjectType {
		// Developer error.
		panic("fromEventValueObject can only be used with type=ObjectType")
	}
''','''	mustBe(v, event.ObjectType)
'''),(M,'func fromEventValueObject(','''func mustBe(v *event.Value, t event.ValueType) {
	if v.Type != t {
		// Developer error.
		panic(fmt.Sprintf("value is not of type %v", t))
	}
}

func fromEventValueObject(''')]),
 ('ref-pan-pb-getters','',[(P,'	if l == nil || l.Object == nil {\n','	if l.GetObject() == nil {\n')]),
 ('ref-pan-pb-range','',[(P,'		for _, x := range t.Array.GetItems() {','		for _, x := range t.Array.GetItems()[:len(t.Array.GetItems())] {')]),
 ('ref-pan-lower-split','',[(L,'	if v == nil || v.Type == event.NullType {\n		return processor.ErrorKeyMissing{Key: p.config.Field}\n	}\n','	if v == nil {\n		return processor.ErrorKeyMissing{Key: p.config.Field}\n	}\n	switch v.Type {\n	case event.NullType:\n		return processor.ErrorKeyMissing{Key: p.config.Field}\n	}\n')]),
 ('ref-pan-clone-index','',[(V,'''		c.Array = make([]*Value, 0, len(v.Array))
		for _, elem := range v.Array {
			c.Array = append(c.Array, elem.Clone())
		}
''','''		c.Array = make([]*Value, len(v.Array))
		for i, elem := range v.Array {
			if elem != nil {
				c.Array[i] = elem.Clone()
			}
		}
''')]),
 ('ref-pan-delete-switch','',[(E,'''	if parent == nil {
		return nil
	}

	key := path[len(path)-1]
	v := parent.Object[key]
	delete(parent.Object, key)
	return v
''','''	if parent != nil {
		key := path[len(path)-1]
		if v, ok := parent.Object[key]; ok {
			delete(parent.Object, key)
			return v
		}
	}
	return nil
''')]),
 ('ref-pan-json-loop','',[(V,'''		for i, elem := range array {
			if elem == nil {
				array[i] = NullValue
			}
		}
''','''		for i := range array {
			if array[i] == nil {
				array[i] = NullValue
			}
		}
''')]),
 ('pan-clone-skip','C06 C23',[(V,'''		c.Array = make([]*Value, 0, len(v.Array))
		for _, elem := range v.Array {
			c.Array = append(c.Array, elem.Clone())
		}
''','''		c.Array = make([]*Value, len(v.Array))
		for i, elem := range v.Array {
			if elem != nil && elem.Type != BoolType {
				c.Array[i] = elem.Clone()
			}
		}
''')]),
]
