C='examples/c/cshared/main.go'
W='examples/wasm/wasm.go'
P='pkg/pipeline/pipeline.go'
def e(f,*prs): return [(f,a,b) for a,b in prs]
NEW='''	return &Pipeline{
		id:         config.ID,
		processors: processors,
		onFailure:  onFailureProcessors,
	}, nil
'''
ITEMS=[
 ('emb-c-load-ok','C29',e(C,('		fmt.Println(err)\n		return 1\n	}\n\n	var err error','		fmt.Println(err)\n		return 0\n	}\n\n	var err error'))),
 ('emb-c-build-ok','C29',e(C,('	if err != nil {\n		fmt.Println(err)\n		return 1\n','	if err != nil {\n		fmt.Println(err)\n'))),
 ('emb-c-local','C29',e(C,('	var err error\n	pipe, err =','	pipe, err :=') ,('	if err != nil {\n		fmt.Println(err)\n		return 1\n	}\n\n	return 0','	if err != nil {\n		fmt.Println(err)\n		return 1\n	}\n	_ = pipe\n\n	return 0'))),
 ('emb-c-decode-ignored','C29',e(C,('	if err := json.Unmarshal([]byte(jsonData), &event); err != nil {\n		return C.CString(err.Error())\n	}','	if err := json.Unmarshal([]byte(jsonData), &event); err != nil {\n		fmt.Println(err)\n	}'))),
 ('emb-c-process-ignored','C29',e(C,('	if err != nil {\n		return C.CString(err.Error())\n	}\n\n	data','	if err != nil {\n		out = event\n	}\n\n	data'))),
 ('emb-c-empty','C29',e(C,('	if err != nil {\n		return C.CString(err.Error())\n	}\n\n	data','	if err != nil {\n		return nil\n	}\n\n	data'))),
 ('emb-c-panic','C29',e(C,('	if err != nil {\n		return C.CString(err.Error())\n	}\n\n	data','	if err != nil {\n		panic(err)\n	}\n\n	data'))),
 ('emb-c-input','C29',e(C,('json.Marshal(out)','json.Marshal(event)'),('	data, err :=','	_ = out\n	data, err :='))),
 ('emb-wasm-args','C29',e(W,('if len(args) != 2 {','if len(args) == 0 {'))),
 ('emb-wasm-args2','C29',e(W,('if len(args) != 2 {','if len(args) < 1 {'))),
 ('emb-wasm-new','C29',e(W,('		return "failed to create new pipeline: " + err.Error()\n','		println("failed to create new pipeline: " + err.Error())\n'))),
 ('emb-wasm-new-msg','C29',e(W,('		return "failed to create new pipeline: " + err.Error()\n','		return nil\n'))),
 ('emb-wasm-event','C29',e(W,('	if err = json.Unmarshal([]byte(eventJSON), &event); err != nil {\n		return "failed to unmarshal event JSON: " + err.Error()\n	}','	_ = json.Unmarshal([]byte(eventJSON), &event)'))),
 ('emb-wasm-order','C29',e(W,('out, err := pipe.Process(event)','out, err := pipe.Process(event)\n	out = event'))),
 ('emb-wasm-panic','C29',e(W,('		return "failed to process event: " + err.Error()\n','		panic(err)\n'))),
 ('emb-nil-pipe','C29',e(P,('	if pipe == nil {\n		return nil, errors.New("no pipeline is loaded")\n	}\n',''))),
 ('emb-nil-pipe-silent','C29',e(P,('		return nil, errors.New("no pipeline is loaded")','		return evt, nil'))),
 ('emb-nil-evt','C29',e(P,('	if evt == nil {\n		return nil, errors.New("cannot process a nil event")\n	}\n',''))),
 ('emb-nil-evt-ok','C29',e(P,('		return nil, errors.New("cannot process a nil event")','		return nil, nil'))),
 ('emb-nil-evt-new','C29',e(P,('		return nil, errors.New("cannot process a nil event")','		evt = event.New()'))),
 ('emb-nil-conf','C29',e(P,('config == nil || config.ID == ""','config.ID == ""'))),
 ('emb-nil-conf-ok','C29',e(P,('	if config == nil ||','	if config == nil {\n		return &Pipeline{}, nil\n	}\n	if config == nil ||'))),
 ('emb-none','C29',e(P,('	onFailureProcessors, err','	if len(processors) == 0 {\n		return nil, nil\n	}\n	onFailureProcessors, err'))),
 ('emb-partial','C29',e(P,('	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)\n	if err != nil {\n		return nil, err\n	}\n','	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)\n'),(NEW,NEW.replace('nil\n','err\n').replace('}, err','}, err')))),
 ('ref-emb-c-helper','',e(C,('//export Process','func build(text string) (*pipeline.Pipeline, error) {\n	var config *pipeline.Config\n	if err := json.Unmarshal([]byte(text), &config); err != nil {\n		return nil, err\n	}\n	return pipeline.New(config)\n}\n\n//export Process'),('''	var config *pipeline.Config
	if err := json.Unmarshal([]byte(C.GoString(jsonPipeline)), &config); err != nil {
		fmt.Println(err)
		return 1
	}

	var err error
	pipe, err = pipeline.New(config)
	if err != nil {
		fmt.Println(err)
		return 1
	}

	return 0
''','''	p, err := build(C.GoString(jsonPipeline))
	if err == nil {
		pipe = p
		return 0
	}
	fmt.Println(err)
	return 1
'''))),
 ('ref-emb-wasm-helper','',e(W,('func process(this','func fail(what string, err error) string { return what + ": " + err.Error() }\n\nfunc process(this'),('return "failed to process event: " + err.Error()','return fail("failed to process event", err)'),('if len(args) != 2 {','if n := len(args); n < 2 || n > 2 {'))),
 ('ref-emb-new','',e(P,('	if config == nil || config.ID == "" {\n		return nil, errors.New("pipeline must have a non-empty id")\n	}\n','	if err := checkID(config); err != nil {\n		return nil, err\n	}\n'),('// Process transforms an event','func checkID(config *Config) error {\n	if config != nil && config.ID != "" {\n		return nil\n	}\n	return errors.New("pipeline must have a non-empty id")\n}\n\n// Process transforms an event'))),
 ('ref-emb-process','',e(P,('	if pipe == nil {\n		return nil, errors.New("no pipeline is loaded")\n	}\n	if evt == nil {\n		return nil, errors.New("cannot process a nil event")\n	}\n','	switch {\n	case evt == nil:\n		return nil, errors.New("cannot process a nil event")\n	case pipe == nil:\n		return nil, errors.New("no pipeline is loaded")\n	}\n'))),
]
