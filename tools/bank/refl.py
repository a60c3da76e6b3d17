R='pkg/eventutil/reflect.go'
S='pkg/eventutil/structtag.go'
C='pkg/config/config.go'
ITEMS=[
 ('refl-int8','C08 C09',[(R,'	case int8:\n		return event.Integer(int64(t)), nil','	case int8:\n		return event.Integer(int64(uint8(t))), nil')]),
 ('refl-uint32','C08 C09',[(R,'	case uint32:\n		return event.UnsignedInteger(uint64(t)), nil','	case uint32:\n		return event.Integer(int64(int32(t))), nil')]),
 ('refl-uint64-int','C08 C09',[(R,'	case uint64:\n		return event.UnsignedInteger(t), nil','	case uint64:\n		return event.Integer(int64(t)), nil')]),
 ('refl-kind-uint','C08 C09',[(R,'reflect.Uint64, reflect.Uintptr:\n		return event.UnsignedInteger(rv.Uint()), nil','reflect.Uint64, reflect.Uintptr:\n		return event.Integer(int64(rv.Uint())), nil')]),
 ('refl-float32-kind','C08 C09',[(R,'return event.Float(rv.Float()), nil','return event.Float(float64(float32(rv.Float()))), nil')]),
 ('refl-nil-ptr','C08 C09',[(R,'(k == reflect.Ptr || k == reflect.Interface) && rv.IsNil()','k == reflect.Interface && rv.IsNil()')]),
 ('refl-nil-slice-null','C08 C09',[(R,'(k == reflect.Ptr || k == reflect.Interface) && rv.IsNil()','(k == reflect.Ptr || k == reflect.Interface || k == reflect.Slice) && rv.IsNil()')]),
 ('refl-time-unix','C08 C09',[(R,'event.Timestamp(t.UnixNano())','event.Timestamp(t.Unix() * 1e9)')]),
 ('refl-map-skip-nil','C08 C09',[(R,'			obj[k] = v\n','			if v != event.NullValue {\n				obj[k] = v\n			}\n')]),
 ('refl-map-err-skip','C08 C09',[(R,'				return nil, fmt.Errorf("failed on key %q: %w", k, err)','				continue')]),
 ('refl-map-err-text','',[(R,'fmt.Errorf("failed on key %q: %w", k, err)','fmt.Errorf("cannot convert member %q: %w", k, err)')]),
 ('refl-map-err-unwrapped','C08 C09',[(R,'fmt.Errorf("failed on key %q: %w", k, err)','fmt.Errorf("failed on key %q: %v", k, err)')]),
 ('refl-unsupported-null','C08 C09',[(R,'		return nil, &UnsupportedTypeError{typ}','		return event.NullValue, nil')]),
 ('refl-complex-float','C08 C09',[(R,'	case reflect.String:\n','	case reflect.Complex64, reflect.Complex128:\n		return event.Float(real(rv.Complex())), nil\n	case reflect.String:\n')]),
 ('refl-elem-skip','C08 C09',[(R,'		sliceValue, err := interfaceToValue(rv.Index(i).Interface())\n		if err != nil {\n			return nil, err\n		}','		sliceValue, err := interfaceToValue(rv.Index(i).Interface())\n		if err != nil {\n			continue\n		}')]),
 ('refl-slice-from1','C08 C09',[(R,'for i := 0; i < n; i++ {','for i := n - 1; i >= 0; i-- {')]),
 ('refl-rmap-err','C08 C09',[(R,'		val, err := interfaceToValue(m.Value().Interface())\n		if err != nil {\n			return nil, err\n		}\n		if _, exists','		val, err := interfaceToValue(m.Value().Interface())\n		if err != nil {\n			continue\n		}\n		if _, exists')]),
 ('refl-rmap-collide','C08 C09',[(R,'		if _, exists := obj[key]; exists {\n			// Distinct keys with the same text.\n			return nil, &UnsupportedTypeError{rv.Type()}\n		}\n','')]),
 ('refl-rmap-collide-null','C08 C09',[(R,'if _, exists := obj[key]; exists {','if _, exists := obj[key]; exists && val.Type != event.NullType {')]),
 ('refl-rmap-collide-value','C08 C09',[(R,'if _, exists := obj[key]; exists {','if old := obj[key]; old != nil && old.Type != event.NullType {')]),
 ('refl-rmap-collide-skip','C08 C09',[(R,'			// Distinct keys with the same text.\n			return nil, &UnsupportedTypeError{rv.Type()}','			continue')]),
 ('refl-field-collide','C08 C09',[(R,'		if _, exists := obj[name]; exists {\n			// Distinct fields with the same name.\n			return nil, &UnsupportedTypeError{rv.Type()}\n		}\n\n','')]),
 ('refl-field-collide-tag','C08 C09',[(R,'if _, exists := obj[name]; exists {','if _, exists := obj[name]; exists && tagName == "" {')]),
 ('refl-rmap-err-type','C08 C09',[(R,'			// Distinct keys with the same text.\n			return nil, &UnsupportedTypeError{rv.Type()}','			return nil, fmt.Errorf("duplicate key %q", key)')]),
 ('refl-ok-rmap-early','',[(R,'		if _, exists := obj[key]; exists {\n			// Distinct keys with the same text.\n			return nil, &UnsupportedTypeError{rv.Type()}\n		}\n',''),(R,'		val, err := interfaceToValue(m.Value().Interface())','		if _, exists := obj[key]; exists {\n			// Distinct keys with the same text.\n			return nil, &UnsupportedTypeError{rv.Type()}\n		}\n		val, err := interfaceToValue(m.Value().Interface())')]),
 ('refl-ok-rmap-nil','',[(R,'if _, exists := obj[key]; exists {','if _, found := obj[key]; found {')]),
 ('refl-rmap-lower','C08 C09',[(R,'key := fmt.Sprintf("%v", m.Key())','key := strings.ToLower(fmt.Sprintf("%v", m.Key()))')]),
 ('refl-rmap-quoted','C08 C09',[(R,'fmt.Sprintf("%v", m.Key())','fmt.Sprintf("%q", m.Key())')]),
 ('refl-struct-last','C08 C09',[(R,'	for _, field := range fields {\n','	for i, field := range fields {\n		if i == 64 {\n			break\n		}\n')]),
 ('refl-struct-anon','C08 C09',[(R,'		if field.PkgPath != "" {','		if field.PkgPath != "" || field.Anonymous {')]),
 ('refl-struct-dash-prefix','C08 C09',[(R,'tag == "-" {','strings.HasPrefix(tag, "-") {')]),
 ('refl-struct-omit-nil','C08 C09',[(R,'			if reflect.DeepEqual(current, zero) {','			if reflect.DeepEqual(current, zero) || fmt.Sprint(current) == "" {')]),
 ('refl-struct-omit-always','C08 C09',[(R,'		if tagOpts.Has("omitempty") {\n','		if tagName == "" || tagOpts.Has("omitempty") {\n')]),
 ('refl-struct-name','C08 C09',[(R,'name := strings.ToLower(field.Name)','name := strings.TrimSpace(field.Name)')]),
 ('refl-struct-tag','C08 C09',[(R,'			name = tagName\n','			name = strings.ToLower(tagName)\n')]),
 ('refl-struct-err','C08 C09',[(R,'		finalVal, err := reflectToValue(val)\n		if err != nil {\n			return nil, err\n		}','		finalVal, err := reflectToValue(val)\n		if err != nil {\n			finalVal = event.NullValue\n		}')]),
 ('refl-has','C08 C09',[(S,'	for _, tagOpt := range t {\n','	for _, tagOpt := range t[1:] {\n')]),
 ('refl-has-any','C08 C09',[(S,'		if tagOpt == opt {','		if tagOpt == opt || tagOpt == "" {')]),
 ('refl-error-order','C08 C09',[(R,'''		err := rv.Interface().(error)
		return event.String(err.Error()), nil''','''		err := rv.Interface().(error)
		return event.String(fmt.Sprintf("%+v", err)), nil''')]),
 ('refl-string-always','C08 C09',[(R,'if tagOpts.Has("string") && finalVal','if finalVal')]),
 ('refl-unpack-err','C09',[(C,'	if err != nil {\n		return err\n	}','	if err != nil {\n		return nil\n	}')]),
 ('refl-unpack-type','C09',[(C,'	*v = *(*EventValue)(value)','	v.Type = value.Type\n	v.String = value.String\n	v.Integer = value.Integer')]),
 # refactorings
 ('refl-ok-slice','',[(R,'''	n := rv.Len()
	values := make([]*event.Value, 0, n)
	for i := 0; i < n; i++ {
		sliceValue, err := interfaceToValue(rv.Index(i).Interface())
		if err != nil {
			return nil, err
		}

		values = append(values, sliceValue)
	}
''','''	values := make([]*event.Value, rv.Len())
	for i := range values {
		var err error
		if values[i], err = reflectToValue(rv.Index(i)); err != nil {
			return nil, fmt.Errorf("element %d: %w", i, err)
		}
	}
''')]),
 ('refl-ok-zero','',[(R,'''			zero := reflect.Zero(val.Type()).Interface()
			current := val.Interface()

			if reflect.DeepEqual(current, zero) {
				continue
			}
''','''			if val.IsZero() {
				continue
			}
''')]),
 ('refl-ok-single-loop','',[(R,'''	fields := structFields(rv)
	obj := make(map[string]*event.Value, len(fields))

	for _, field := range fields {
''','''	t := rv.Type()
	obj := make(map[string]*event.Value, t.NumField())

	for i := 0; i < t.NumField(); i++ {
		field := t.Field(i)
		if field.PkgPath != "" || field.Tag.Get("event") == "-" {
			continue
		}
'''),(R,'rv.FieldByName(field.Name)','rv.Field(i)'),(R,'''func structFields(rv reflect.Value) []reflect.StructField {''','''var _ = structFields

func structFields(rv reflect.Value) []reflect.StructField {''')]),
 ('refl-ok-exported','',[(R,'		if field.PkgPath != "" {','		if !field.IsExported() {')]),
 ('refl-ok-err-first','',[(R,'''	switch {
	case typ.Implements(errorInterface):
		err := rv.Interface().(error)
		return event.String(err.Error()), nil
	}
''','''	if err, ok := rv.Interface().(error); typ.Implements(errorInterface) && ok {
		return event.String(err.Error()), nil
	}
''')]),
 ('refl-ok-kind-table','',[(R,'	case reflect.Struct:\n		switch {\n		case rv.CanConvert(timeInterface):\n			return interfaceToValue(rv.Convert(timeInterface).Interface())\n		}\n		return reflectStructToObject(rv)','	case reflect.Struct:\n		if typ.ConvertibleTo(timeInterface) {\n			return event.Timestamp(rv.Convert(timeInterface).Interface().(time.Time).UnixNano()), nil\n		}\n		return reflectStructToObject(rv)')]),
 ('refl-ok-fast-path','',[(R,'	case nil:\n		return event.NullValue, nil\n','''	case []interface{}:
		values := make([]*event.Value, 0, len(t))
		for _, x := range t {
			v, err := interfaceToValue(x)
			if err != nil {
				return nil, err
			}
			values = append(values, v)
		}
		return event.Array(values...), nil
	case nil:
		return event.NullValue, nil
''')]),
 ('refl-ok-fewer-cases','',[(R,'	case int8:\n		return event.Integer(int64(t)), nil\n','')]),
 ('refl-ok-tag-helper','',[(R,'''		name := strings.ToLower(field.Name)

		tagName, tagOpts := parseTag(field.Tag.Get(tagName))
		if tagName != "" {
			name = tagName
		}
''','''		name, tagOpts := fieldName(field)
'''),(R,'func structFields','''func fieldName(field reflect.StructField) (string, tagOptions) {
	name, opts := parseTag(field.Tag.Get(tagName))
	if name == "" {
		return strings.ToLower(field.Name), opts
	}
	return name, opts
}

func structFields''')]),
 ('refl-ok-has','',[(S,'''	for _, tagOpt := range t {
		if tagOpt == opt {
			return true
		}
	}

	return false''','''	found := false
	for i := 0; i < len(t) && !found; i++ {
		found = t[i] == opt
	}
	return found''')]),
 ('refl-ok-rename','',[(R,'interfaceToValue','fromInterface','all'),(R,'reflectToValue','fromReflect','all')]),
 ('refl-ok-map-helper','',[(R,'''		obj := make(map[string]*event.Value, len(t))
		for k, v := range t {
			v, err := interfaceToValue(v)
			if err != nil {
				return nil, fmt.Errorf("failed on key %q: %w", k, err)
			}

			obj[k] = v
		}
		return event.Object(obj), nil''','''		return mapToObject(t)'''),(R,'func reflectToValue(','''func mapToObject(in map[string]interface{}) (*event.Value, error) {
	members := map[string]*event.Value{}
	for name, x := range in {
		member, err := interfaceToValue(x)
		if err != nil {
			return nil, fmt.Errorf("failed on key %q: %w", name, err)
		}
		members[name] = member
	}
	return event.Object(members), nil
}

func reflectToValue(''')]),
]
