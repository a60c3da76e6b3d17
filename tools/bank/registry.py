G='pkg/processor/registry/registry.go'
ITEMS=[
 ('reg-dup','C20',[(G,'''	if _, found := r.procs[name]; found {
		return fmt.Errorf("%q processor is already registered", name)
	}
	pc,''','''	pc,''')]),
 ('reg-dup-trim','C20',[(G,'	if _, found := r.procs[name]; found {','	if _, found := r.procs[fmt.Sprintf("%.63s", name)]; found {')]),
 ('reg-store-first','C20',[(G,'''	if err != nil {
		return err
	}
	r.procs[name] = *pc
	return nil''','''	if pc != nil {
		r.procs[name] = *pc
	} else {
		r.procs[name] = processorConstructor{}
	}
	return err''')]),
 ('reg-in','C20',[(G,'''	if configType.Kind() != reflect.Struct {''','''	if configType.Kind() != reflect.Struct && configType.Kind() != reflect.Map {''')]),
 ('reg-out','C20',[(G,'''	if processorType.Kind() != reflect.Ptr {
		return nil, fmt.Errorf("function should return a pointer to a processor struct")
	}
''','')]),
 ('reg-numout','C20',[(G,'''	if t.NumOut() != 2 {''','''	if t.NumOut() < 2 {''')]),
 ('reg-case','C20',[(G,'	pc, found := r.procs[name]','	pc, found := r.procs[fmt.Sprintf("%s", []byte(name)[:len(name)])]')]),
 ('reg-unknown-nil','C20',[(G,'		return nil, fmt.Errorf("processor type %q not found", name)','		return nil, nil')]),
 ('reg-shared-config','C20 C18',[(G,'''	pc := &processorConstructor{
		newConfig: func() reflect.Value {
			return reflect.New(configType)
		},''','''	cfg := reflect.New(configType)
	pc := &processorConstructor{
		newConfig: func() reflect.Value {
			return cfg
		},''')]),
 ('reg-ignore-unpack','C20',[(G,'''	if err := uConf.Unpack(procConfigValue.Interface()); err != nil {
		return nil, err
	}
''','''	if err := uConf.Unpack(procConfigValue.Interface()); err != nil && len(config) > 0 {
		return nil, err
	}
''')]),
 ('reg-skip-empty','C20',[(G,'''	uConf, err''','''	if len(config) == 0 {
		return pc.newProc(procConfigValue)
	}

	uConf, err''')]),
 ('reg-ctor-err','C20',[(G,'''				return nil, out[1].Interface().(error)
			}
			return out[0]''','''				err := out[1].Interface().(error)
				if out[0].IsNil() {
					return nil, err
				}
			}
			return out[0]''')]),
 ('reg-zero-config','C20',[(G,'''			out := v.Call([]reflect.Value{config})
''','''			out := v.Call([]reflect.Value{reflect.Zero(configType)})
''')]),
 ('reg-must','C20',[(G,'''	if err := constructors.Register(name, constructorFunc); err != nil {
		panic(err)
	}''','''	if _, found := constructors.procs[name]; found {
		return
	}
	if err := constructors.Register(name, constructorFunc); err != nil {
		panic(err)
	}''')]),
 ('reg-global','C20',[(G,'	return constructors.NewProcessor(name, config)','	return NewRegistry().NewProcessor(name, config)')]),
 ('reg-overwrite-config','C20',[(G,'	uConf, err := ucfg.NewFrom(config)','	opts := map[string]interface{}{}\n	for k, v := range config {\n		if v != nil {\n			opts[k] = v\n		}\n	}\n	uConf, err := ucfg.NewFrom(opts)')]),
 ('reg-ok-wrap','',[(G,'''	if err := uConf.Unpack(procConfigValue.Interface()); err != nil {
		return nil, err
	}
''','''	if err := uConf.Unpack(procConfigValue.Interface()); err != nil {
		return nil, fmt.Errorf("invalid options: %w", err)
	}
''')]),
 ('reg-ok-order','',[(G,'''	procConfigValue := pc.newConfig()

	uConf, err := ucfg.NewFrom(config)
	if err != nil {
		return nil, err
	}
''','''	uConf, err := ucfg.NewFrom(config)
	if err != nil {
		return nil, err
	}

	procConfigValue := pc.newConfig()
''')]),
 ('reg-ok-extract','',[(G,'''	pc, found := r.procs[name]
	if !found {
		return nil, fmt.Errorf("processor type %q not found", name)
	}

	procConfigValue := pc.newConfig()

	uConf, err := ucfg.NewFrom(config)
	if err != nil {
		return nil, err
	}

	if err := uConf.Unpack(procConfigValue.Interface()); err != nil {
		return nil, err
	}

	return pc.newProc(procConfigValue)
}
''','''	pc, found := r.procs[name]
	if found {
		procConfigValue, err := pc.unpack(config)
		if err != nil {
			return nil, err
		}
		return pc.newProc(procConfigValue)
	}
	return nil, fmt.Errorf("processor type %q not found", name)
}

func (pc processorConstructor) unpack(config map[string]interface{}) (reflect.Value, error) {
	value := pc.newConfig()
	uConf, err := ucfg.NewFrom(config)
	if err == nil {
		err = uConf.Unpack(value.Interface())
	}
	return value, err
}
''')]),
 ('reg-ok-validate-split','',[(G,'''	// Check config.
	if t.NumIn() != 1 {
		return nil, fmt.Errorf("function must accept one arg")
	}
	configType := t.In(0)
	if configType.Kind() != reflect.Struct {
		return nil, fmt.Errorf("function must be config struct")
	}

	if t.NumOut()''','''	if err := checkInput(t); err != nil {
		return nil, err
	}
	configType := t.In(0)

	if t.NumOut()'''),(G,'func validateConfig','''func checkInput(t reflect.Type) error {
	switch {
	case t.NumIn() != 1:
		return fmt.Errorf("function must accept one arg")
	case t.In(0).Kind() != reflect.Struct:
		return fmt.Errorf("function must be config struct")
	default:
		return nil
	}
}

func validateConfig''')]),
 ('reg-ok-ptr','',[(G,'	procs map[string]processorConstructor\n','	procs map[string]*processorConstructor\n'),(G,'map[string]processorConstructor{}','map[string]*processorConstructor{}','all'),(G,'r.procs[name] = *pc','r.procs[name] = pc')]),
 ('reg-ok-if-flip','',[(G,'''	pc, err := validateConfig(constructorFunc)
	if err != nil {
		return err
	}
	r.procs[name] = *pc
	return nil''','''	pc, err := validateConfig(constructorFunc)
	if err == nil {
		r.procs[name] = *pc
	}
	return err''')]),
 ('reg-ok-method-closures','',[(G,'''		newProc: func(config reflect.Value) (processor.Processor, error) {
			if config.Type().Kind() == reflect.Ptr {
				config = config.Elem()
			}
			out := v.Call([]reflect.Value{config})
			if !out[1].IsNil() {
				return nil, out[1].Interface().(error)
			}
			return out[0].Interface().(processor.Processor), nil
		},
	}
''','''		newProc: func(config reflect.Value) (processor.Processor, error) {
			return call(v, config)
		},
	}
'''),(G,'func validateConfig','''func call(v, config reflect.Value) (proc processor.Processor, err error) {
	out := v.Call([]reflect.Value{reflect.Indirect(config)})
	if e := out[1]; !e.IsNil() {
		err = e.Interface().(error)
	} else {
		proc = out[0].Interface().(processor.Processor)
	}
	return proc, err
}

func validateConfig''')]),
]
