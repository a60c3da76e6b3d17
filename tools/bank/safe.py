R='pkg/eventutil/reflect.go'; G='pkg/processor/registry/registry.go'; P='pkg/pipeline/processor.go'
ITEMS=[
 ('safe-nil','C10',[(R,'(k == reflect.Ptr || k == reflect.Interface) && rv.IsNil()','k == reflect.Ptr && rv.IsNil()')]),
 ('safe-isnil-all','C10',[(R,'(k == reflect.Ptr || k == reflect.Interface) && rv.IsNil()','(k == reflect.Ptr || k == reflect.Interface || k == reflect.Struct) && rv.IsNil()')]),
 ('safe-uint','C10',[(R,'	case reflect.Int, reflect.Int8,','	case reflect.Uint, reflect.Int, reflect.Int8,'),(R,'	case reflect.Uint, reflect.Uint8,','	case reflect.Uint8,')]),
 ('safe-unexported','C10',[(R,'''		if field.PkgPath != "" {
			continue
		}
''','''		if field.PkgPath != "" && !field.Anonymous {
			continue
		}
''')]),
 ('safe-nofilter','C10',[(R,'''		if field.PkgPath != "" {
			continue
		}
''','')]),
 ('safe-canconvert','C10',[(R,'		case rv.CanConvert(timeInterface):','		case typ.NumField() == 3:')]),
 ('safe-ptrtime','C10',[(R,'	case reflect.Struct:\n		switch {','	case reflect.UnsafePointer, reflect.Struct:\n		switch {')]),
 ('safe-stringer-nil','C10',[(R,'tagOpts.Has("string") && finalVal.Type != event.NullType','tagOpts.Has("string")')]),
 ('safe-err-first','C10',[(R,'''	if k := typ.Kind(); (k == reflect.Ptr || k == reflect.Interface) && rv.IsNil() {
		return event.NullValue, nil
	}

	switch {
	case typ.Implements(errorInterface):
		err := rv.Interface().(error)
		return event.String(err.Error()), nil
	}
''','''	switch {
	case typ.Implements(errorInterface):
		err := rv.Interface().(error)
		return event.String(err.Error()), nil
	}

	if k := typ.Kind(); (k == reflect.Ptr || k == reflect.Interface) && rv.IsNil() {
		return event.NullValue, nil
	}
''')]),
 ('safe-tag','C10',[('pkg/eventutil/structtag.go','	return res[0], res[1:]','	return res[0], res[2:]')]),
 ('safe-index','C10',[(R,'	for i := 0; i < n; i++ {','	for i := 0; i <= n; i++ {')]),
 ('safe-nilcase','C10',[(R,'	case nil:\n		return event.NullValue, nil\n','')]),
 ('safe-func-nil','C10',[(G,'''	if v.IsNil() {
		return nil, fmt.Errorf("value must be a non-nil function")
	}
''','')]),
 ('safe-func-kind','C10',[(G,'''	if v.Kind() != reflect.Func {''','''	if v.IsValid() && v.Kind() != reflect.Func {''')]),
 ('safe-numin','C10',[(G,'''	if t.NumIn() != 1 {''','''	if t.NumIn() < 1 {''')]),
 ('safe-numin2','C10',[(G,'''	if t.NumIn() != 1 {''','''	if t.NumIn() > 1 {''')]),
 ('safe-variadic','C10',[(G,'''	if configType.Kind() != reflect.Struct {''','''	if configType.Kind() != reflect.Struct && !t.IsVariadic() {''')]),
 ('safe-numout','C10',[(G,'''	if t.NumOut() != 2 {''','''	if t.NumOut() > 2 {''')]),
 ('safe-ctor-err','C10',[(G,'''if k := errorType.Kind(); (k != reflect.Interface && k != reflect.Ptr) || !errorType.Implements''','''if !errorType.Implements''')]),
 ('safe-ctor-impl','C10',[(G,'''	if !processorType.Implements(processorInterface) {
		return nil, fmt.Errorf("processor must implement processor.Processor")
	}
''','')]),
 ('safe-ctor-interface','C10 C20',[(G,'''	if processorType.Kind() != reflect.Ptr {
		return nil, fmt.Errorf("function should return a pointer to a processor struct")
	}
''','')]),
 ('safe-config-ptr','C10',[(G,'''			if config.Type().Kind() == reflect.Ptr {
				config = config.Elem()
			}
''','')]),
 ('safe-out-swap','C10',[(G,'out[1].IsNil()','out[0].IsNil()')]),
 ('safe-method','C10',[(P,'''	if m == zeroValue {
		return nil, nil, fmt.Errorf("error Config() method not found")
	}
''','')]),
 ('safe-method-out','C10',[(P,'''	if m.Type().NumOut() != 1 {''','''	if m.Type().NumOut() > 1 {''')]),
 ('safe-method-in','C10',[(P,'''	if m.Type().NumIn() != 0 {
		return nil, nil, fmt.Errorf("error Config() must not accept arguments")
	}
''','')]),
 ('safe-config-kind','C10',[(P,'''	if out.Kind() != reflect.Struct {
		return nil, nil, fmt.Errorf("error Config() must return a struct")
	}
''','''	if out.Kind() == reflect.Ptr {
		out = out.Elem()
	}
''')]),
 ('safe-flag-kind','C10',[(P,'v != zeroValue && v.Kind() == reflect.Bool','v != zeroValue')]),
 ('safe-embedded','C10',[(P,'	field, err := v.FieldByIndexErr(f.Index)\n	if err != nil {\n		return reflect.Value{}\n	}\n	return field','	return v.FieldByIndex(f.Index)')]),
 # keeping the behaviour
 ('safe-ok-valid','',[(P,'	if m == zeroValue {','	if !m.IsValid() {'),(P,'	zeroValue := reflect.Value{}\n',''),(P,'v != zeroValue && v.Kind()','v.IsValid() && v.Kind()','all')]),
 ('safe-ok-kind','',[(P,'	if m == zeroValue {','	if m.Kind() != reflect.Func {'),(P,'	zeroValue := reflect.Value{}\n',''),(P,'v != zeroValue && v.Kind()','v.Kind()','all')]),
 ('safe-ok-type','',[(P,'''	if m.Type().NumOut() != 1 {
		return nil, nil, fmt.Errorf("error Config() must return one value")
	}
	if m.Type().NumIn() != 0 {
		return''','''	mt := m.Type()
	if n := mt.NumOut(); n != 1 {
		return nil, nil, fmt.Errorf("error Config() must return one value")
	}
	if mt.NumIn() > 0 {
		return''')]),
 ('safe-ok-helper','',[(P,'	zeroValue := reflect.Value{}\n',''),(P,'	if m == zeroValue {','	if m == (reflect.Value{}) {'),(P,'''	if v := fieldByName(out, "IgnoreMissing"); v != zeroValue && v.Kind() == reflect.Bool {
		boolValue := v.Bool()
		ignoreMissing = &boolValue
	}
	if v := fieldByName(out, "IgnoreFailure"); v != zeroValue && v.Kind() == reflect.Bool {
		boolValue := v.Bool()
		ignoreFailure = &boolValue
	}
	return ignoreMissing, ignoreFailure, nil
}
''','''	return boolField(out, "IgnoreMissing"), boolField(out, "IgnoreFailure"), nil
}

func boolField(out reflect.Value, name string) *bool {
	v := fieldByName(out, name)
	if !v.IsValid() || v.Kind() != reflect.Bool {
		return nil
	}
	b := v.Bool()
	return &b
}
''')]),
 ('safe-ok-reg-order','',[(G,'''	if t.NumOut() != 2 {
		return nil, fmt.Errorf("function must return 2 values")
	}
''',''),(G,'''	// Check config.
''','''	if t.NumOut() != 2 {
		return nil, fmt.Errorf("function must return 2 values")
	}

	// Check config.
''')]),
 ('safe-ok-reg-split','',[(G,'''	pc, err := validateConfig(constructorFunc)
	if err != nil {
		return err
	}
	r.procs[name] = *pc
	return nil''','''	pc, err := validateConfig(constructorFunc)
	if err == nil {
		r.procs[name] = *pc
	}
	return err''')]),
 ('safe-ok-newproc','',[(G,'''			if config.Type().Kind() == reflect.Ptr {
				config = config.Elem()
			}
			out := v.Call([]reflect.Value{config})
			if !out[1].IsNil() {
				return nil, out[1].Interface().(error)
			}
			return out[0].Interface().(processor.Processor), nil''','''			out := v.Call([]reflect.Value{config.Elem()})
			proc, err := out[0], out[1]
			if err.IsNil() {
				return proc.Interface().(processor.Processor), nil
			}
			return nil, err.Interface().(error)''')]),
 ('safe-ok-checks','',[(G,'''	v := reflect.ValueOf(i)
	if v.Kind() != reflect.Func {
		return nil, fmt.Errorf("value must be a function, but got %v", v.Kind())
	}
	if v.IsNil() {
		return nil, fmt.Errorf("value must be a non-nil function")
	}
	t := v.Type()
''','''	v := reflect.ValueOf(i)
	if k := v.Kind(); k != reflect.Func {
		return nil, fmt.Errorf("value must be a function, but got %v", k)
	} else if v.IsNil() {
		return nil, fmt.Errorf("value must be a non-nil function")
	}
	t := reflect.TypeOf(i)
''')]),
 ('safe-ok-struct-reg','',[(G,'''	newConfig func() reflect.Value

	newProc func(config reflect.Value) (processor.Processor, error)
}
''','''	configType reflect.Type

	newProc func(config reflect.Value) (processor.Processor, error)
}

func (pc processorConstructor) newConfig() reflect.Value {
	return reflect.New(pc.configType)
}
'''),(G,'''		newConfig: func() reflect.Value {
			return reflect.New(configType)
		},
''','''		configType: configType,
''')]),
]
