P='pkg/pipeline/pipeline.go'; N='pkg/pipeline/processor.go'; CF='pkg/pipeline/config.go'; RG='pkg/processor/registry/registry.go'
EV='pkg/event/event.go'; VA='pkg/event/value.go'; CO='pkg/config/config.go'; RE='pkg/eventutil/reflect.go'; MI='pkg/serialization/mapinterface/mapinterface.go'
M='cmd/sawmill/sawmill.go'; ME='pkg/metrics/metrics.go'; API='pkg/processor/api.go'; SET='pkg/processor/set/process.go'; LO='pkg/processor/lowercase/process.go'; AP='pkg/processor/append/process.go'
G='pkg/processor/generate/generate.go'; DG='docs/generate/generate.go'; SC='internal/proctemplate/schema.go'; FU='internal/proctemplate/funcs.go'; RM='pkg/processor/remove/process.go'
C='C27'
def x(f,*prs): return [(f,a,b) for a,b in prs]
ITEMS=[
 ('err-mi-put',C,x(MI,('		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n','		evt.Put(eventutil.EscapeKey(k), v)\n'))),
 ('err-mi-put-over',C,x(MI,('		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n	}\n\n	return evt, nil','		_, err = evt.Put(eventutil.EscapeKey(k), v)\n	}\n	if err != nil {\n		return nil, err\n	}\n\n	return evt, nil'))),
 ('err-mi-reflect',C,x(MI,('	fields, err := eventutil.ReflectValue(m)\n	if err != nil {\n		return nil, err\n	}\n','	fields, err := eventutil.ReflectValue(m)\n'))),
 ('err-mi-shadow',C,x(MI,('		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n','		if _, err := evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			break\n		}\n'))),
 ('err-pipe-onfail',C,x(P,('	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)\n	if err != nil {\n		return nil, err\n	}','	onFailureProcessors, _ := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)'))),
 ('err-pipe-onfail-over',C,x(P,('	processors, err := newPipelineProcessors(config.ID+".processors", config.Processors)\n	if err != nil {\n		return nil, err\n	}\n','	processors, err := newPipelineProcessors(config.ID+".processors", config.Processors)\n'))),
 ('err-node-onfail',C,x(N,('	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)\n	if err != nil {\n		return nil, err\n	}\n','	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)\n	if err != nil && len(onFailureProcessors) > 0 {\n		return nil, err\n	}\n'))),
 ('err-node-skip',C,x(N,('		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)\n		if err != nil {\n			return nil, err','		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)\n		if err != nil {\n			continue'))),
 ('err-node-ignores',C,x(N,('	ignoreMissingPtr, ignoreFailurePtr, err := ignores(proc)\n	if err != nil {\n		return nil, err\n	}\n','	ignoreMissingPtr, ignoreFailurePtr, _ := ignores(proc)\n'))),
 ('err-conf-unm',C,x(CF,('	if err := json.Unmarshal(data, &raw); err != nil {\n		return err\n	}\n','	json.Unmarshal(data, &raw)\n'))),
 ('err-conf-unm2',C,x(CF,('	if err := json.Unmarshal(data, (*opts)(c)); err != nil {\n		return err\n	}\n','	if err := json.Unmarshal(data, (*opts)(c)); err != nil && len(data) == 0 {\n		return err\n	}\n'))),
 ('err-val-arr',C,x(VA,('		if err = json.Unmarshal(data, &array); err != nil {\n			return err\n		}\n','		_ = json.Unmarshal(data, &array)\n'))),
 ('err-val-tok',C,x(VA,('	tok, err := dec.Token()\n	if err != nil {\n		return err\n	}\n','	tok, err := dec.Token()\n	if tok == nil && err != nil {\n		return err\n	}\n'))),
 ('err-ev-unm',C,x(EV,('	if err := json.Unmarshal(data, &fields); err != nil {\n		return err\n	}\n','	json.Unmarshal(data, &fields)\n'))),
 ('err-co-unpack',C,x(CO,('	if err != nil {\n		return err\n	}\n','	if err != nil {\n		return nil\n	}\n'))),
 ('err-re-slice',C,x(RE,('		sliceValue, err := interfaceToValue(rv.Index(i).Interface())\n		if err != nil {\n			return nil, err\n		}\n','		sliceValue, err := interfaceToValue(rv.Index(i).Interface())\n		if err != nil {\n			continue\n		}\n'))),
 ('err-re-map',C,x(RE,('		val, err := interfaceToValue(m.Value().Interface())\n		if err != nil {\n			return nil, err\n		}\n','		val, err := interfaceToValue(m.Value().Interface())\n		if err != nil {\n			val = event.NullValue\n		}\n'))),
 ('err-re-key',C,x(RE,('			if err != nil {\n				return nil, fmt.Errorf("failed on key %q: %w", k, err)\n			}\n','			if err != nil {\n				v = event.String(fmt.Sprint(v))\n			}\n'))),
 ('err-cmd-unload',C,x(M,('	if err := yaml.NewDecoder(f).Decode(&c); err != nil {\n		return nil, err\n	}\n','	yaml.NewDecoder(f).Decode(&c)\n'))),
 ('err-cmd-new',C,x(M,('	p, err := pipeline.New(c)\n	if err != nil {\n		log.Fatal("Error:", err)\n	}\n','	p, _ := pipeline.New(c)\n'))),
 ('err-cmd-enc',C,x(M,('		if err := enc.Encode(evt); err != nil {\n			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)\n			continue\n		}\n','		enc.Encode(evt)\n'))),
 ('err-cmd-scan',C,x(M,('	if err := s.Err(); err != nil {\n		return fmt.Errorf("failed reading from input: %w", err)\n	}\n','	_ = fmt.Errorf\n'))),
 ('err-cmd-scan2',C,x(M,('	if err := s.Err(); err != nil {\n','	if err := s.Err(); err != nil && lineNumber == 0 {\n'))),
 ('err-cmd-flush',C,x(M,('		if err := bw.Flush(); err != nil {\n			log.Fatalf("error flushing %v: %v", dest, err)\n		}\n','		bw.Flush()\n'))),
 ('err-cmd-close',C,x(M,('		if err := f.Close(); err != nil {\n			log.Fatal(err)\n		}\n','		defer f.Close()\n'))),
 ('err-cmd-heap',C,x(M,('			if err := pprof.WriteHeapProfile(bw); err != nil {\n				log.Fatal(err)\n			}\n','			pprof.WriteHeapProfile(bw)\n'))),
 ('err-cmd-proc',C,x(M,('			log.Printf("Error processing line %d: %v", lineNumber, err)\n			continue','			continue'))),
 ('err-cmd-proc-nopart',C,x(M,('			log.Printf("Error processing line %d: %v", lineNumber, err)\n','			if lineNumber%1000 == 1 {\n				log.Printf("Error processing line %d: %v", lineNumber, err)\n			}\n'))),
 ('err-cmd-main',C,x(M,('	if err := processInput(os.Stdin, os.Stdout, p); err != nil {\n		log.Fatal("Error:", err)\n	}\n','	processInput(os.Stdin, os.Stdout, p)\n'))),
 ('err-cmd-put',C,x(M,('		evt.Put("event.original", event.String(line))','		evt.Put("@metadata", event.String(line))'))),
 ('err-cmd-put2',C,x(M,('		evt.Put("event.original", event.String(line))','		evt.Put(line, event.String(line))'))),
 ('err-cmd-wr',C,x(M,('	enc := json.NewEncoder(out)\n','	w := bufio.NewWriter(out)\n	defer w.Flush()\n	enc := json.NewEncoder(w)\n'))),
 ('err-me-listen',C,x(ME,('	go func() {\n		if err := http.ListenAndServe(host, mux); err != nil {\n			log.Printf("Failed to serve metrics: %v", err)\n		}\n	}()\n','	go http.ListenAndServe(host, mux)\n'),('	"log"\n','	"log"\n'))),
 ('err-me-listen2',C,x(ME,('		if err := http.ListenAndServe(host, mux); err != nil {\n			log.Printf("Failed to serve metrics: %v", err)\n		}\n','		http.ListenAndServe(host, mux)\n'))),
 ('err-me-reg',C,x(ME,('		if err := reg.Register(coll); err != nil {\n			log.Printf("Failed to register metrics: %v", err)\n		}\n','		reg.Register(coll)\n'),('			log.Printf("Failed to serve metrics: %v", err)\n','			log.Print(err)\n'))),
 ('err-me-reg-ask',C,x(ME,('		if err := reg.Register(coll); err != nil {\n','		if err := reg.Register(coll); err != nil && !errors.As(err, &prometheus.AlreadyRegisteredError{}) {\n'),('	"log"\n','	"errors"\n	"log"\n'))),
 ('err-api',C,x(API,('	if err := enc.Encode(v); err != nil {\n		buf.WriteString(err.Error())\n	}\n','	enc.Encode(v)\n'))),
 ('err-set-put',C,x(SET,('	return err\n}','	_ = err\n	return nil\n}'),)),
 ('err-lo-put',C,x(LO,('	_, err := evt.Put(targetField, event.String(out))\n	return err','	evt.Put(targetField, event.String(out))\n	return nil'))),
 ('err-ap-put',C,x(AP,('	_, err := evt.Put(p.config.Field, v)\n	return err','	if _, err := evt.Put(p.config.Field, v); errors.Is(err, event.ErrEmptyKey) {\n		return err\n	}\n	return nil'))),
 ('err-ap-exists',C,x(AP,('	_, err := evt.Put(p.config.Field, v)\n	return err','	_, err := evt.Put(p.config.Field, v)\n	if err == event.ErrTargetKeyNotObject {\n		return nil\n	}\n	return err'))),
 ('err-gen-write',C,x(G,('			if err = ioutil.WriteFile(outputGoFile, srcBytes, 0o644); err != nil {\n				log.Fatal(err)\n			}\n','			err = ioutil.WriteFile(outputGoFile, srcBytes, 0o644)\n'))),
 ('err-gen-mkdir',C,x(G,('			if err = os.MkdirAll(filepath.Dir(outputGoFile), 0o755); err != nil {\n				log.Fatal(err)\n			}\n','			err = os.MkdirAll(filepath.Dir(outputGoFile), 0o755)\n'))),
 ('err-gen-has',C,x(G,('			if err != nil && !os.IsNotExist(err) {\n				log.Fatal(err)\n			}\n',''))),
 ('err-gen-exit0',C,x(G,('			if err = ioutil.WriteFile(outputGoFile, srcBytes, 0o644); err != nil {\n				log.Fatal(err)\n','			if err = ioutil.WriteFile(outputGoFile, srcBytes, 0o644); err != nil {\n				os.Exit(0)\n'))),
 ('err-doc-exec',C,x(DG,('	if err = templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {','	if templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {'))),
 ('err-sc-dec',C,x(SC,('	if err := dec.Decode(&p); err != nil {\n		return nil, err\n	}\n','	if err := dec.Decode(&p); err == nil {\n		return p, nil\n	}\n'))),
 ('err-fu-scan',C,x(FU,('	if err := s.Err(); err != nil {\n		return "", err\n	}\n',''))),
 ('err-fu-trim',C,x(FU,('	return trimTrailingWhitespace(strings.Join(lines, "\\n"+indent+"// "))','	s, _ := trimTrailingWhitespace(strings.Join(lines, "\\n"+indent+"// "))\n	return s, nil'))),
 ('err-defer-named',C,x(MI,('func ToEvent(m map[string]interface{}) (*event.Event, error) {\n','func ToEvent(m map[string]interface{}) (evt *event.Event, err error) {\n	defer func() {\n		if evt != nil {\n			err = nil\n		}\n	}()\n'),('	evt := event.New()','	evt = event.New()'),('		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n','		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return evt, err\n'))),
 ('err-recover-helper',C,x(MI,('		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n','		put(evt, k, v)\n'),('func FromEvent(','func put(evt *event.Event, k string, v *event.Value) {\n	if _, err := evt.Put(eventutil.EscapeKey(k), v); err != nil {\n		evt.Delete(eventutil.EscapeKey(k))\n	}\n}\n\nfunc FromEvent('))),
 ('err-last-wins',C,x(MI,('	evt := event.New()\n','	evt := event.New()\n	var failed error\n'),('		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n	}\n\n	return evt, nil','		_, failed = evt.Put(eventutil.EscapeKey(k), v)\n	}\n\n	return evt, failed'))),
 ('err-helper-drops',C,x(MI,('			return nil, err\n		}\n	}\n\n	return','			return nil, tolerate(err)\n		}\n	}\n\n	return'),('func FromEvent(','func tolerate(err error) error {\n	if err == event.ErrTargetKeyNotObject {\n		return nil\n	}\n	return err\n}\n\nfunc FromEvent('))),
 # behaviour-preserving
 ('ref-err-first','',x(MI,('	evt := event.New()\n','	evt := event.New()\n	var failed error\n'),('		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n	}\n\n	return evt, nil','		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil && failed == nil {\n			failed = err\n			break\n		}\n	}\n	if failed != nil {\n		return nil, failed\n	}\n\n	return evt, nil'))),
 ('ref-err-helper','',x(MI,('	evt := event.New()\n	for k, v := range fields.Object {\n		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n	}\n\n	return evt, nil','	return build(fields.Object)'),('func FromEvent(','func build(fields map[string]*event.Value) (*event.Event, error) {\n	evt := event.New()\n	for k, v := range fields {\n		if _, err := evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n	}\n	return evt, nil\n}\n\nfunc FromEvent('))),
 ('ref-err-wrapper','',x(P,('	processors, err := newPipelineProcessors(config.ID+".processors", config.Processors)\n	if err != nil {\n		return nil, err\n','	processors, err := newPipelineProcessors(config.ID+".processors", config.Processors)\n	if err != nil {\n		return nil, wrap("processors", err)\n'),('func (pipe *Pipeline) ID()','func wrap(where string, err error) error {\n	return err\n}\n\nfunc (pipe *Pipeline) ID()'))),
 ('ref-cmd-fatal','',x(M,('	c, err := loadPipeline(pipelineFile)\n	if err != nil {\n		log.Fatal("Error:", err)\n	}\n\n	p, err := pipeline.New(c)\n	if err != nil {\n		log.Fatal("Error:", err)\n	}\n','	c, err := loadPipeline(pipelineFile)\n	exitOn(err)\n\n	p, err := pipeline.New(c)\n	exitOn(err)\n'),('func loadPipeline(','func exitOn(err error) {\n	if err != nil {\n		log.Fatal("Error:", err)\n	}\n}\n\nfunc loadPipeline('))),
 ('ref-cmd-event','',x(M,('		evt := event.New()\n		evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))\n		evt.Put("event.original", event.String(line))\n','		evt := lineEvent(lineNumber, line)\n'),('func loadPipeline(','func lineEvent(n uint64, line string) *event.Event {\n	evt := event.New()\n	evt.Put("@metadata.line_number", event.UnsignedInteger(n))\n	evt.Put("event.original", event.String(line))\n	return evt\n}\n\nfunc loadPipeline('))),
 ('ref-cmd-fill','',x(M,('		evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))\n		evt.Put("event.original", event.String(line))\n','		fill(evt, lineNumber, line)\n'),('func loadPipeline(','func fill(evt *event.Event, n uint64, line string) {\n	evt.Put("event.original", event.String(line))\n	evt.Put("@metadata.line_number", event.UnsignedInteger(n))\n}\n\nfunc loadPipeline('))),
 ('ref-cmd-line','',x(M,('		evt, err := pipe.Process(evt)\n		if err != nil {\n			log.Printf("Error processing line %d: %v", lineNumber, err)\n			continue\n		}\n\n		// Skip dropped events.\n		if evt == nil {\n			continue\n		}\n\n		if err := enc.Encode(evt); err != nil {\n			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)\n			continue\n		}\n','		handle(pipe, enc, evt, lineNumber)\n'),('func bufferedFileWriter(','func handle(pipe *pipeline.Pipeline, enc *json.Encoder, in *event.Event, n uint64) {\n	evt, err := pipe.Process(in)\n	switch {\n	case err != nil:\n		log.Printf("Error processing line %d: %v", n, err)\n	case evt != nil:\n		if err := enc.Encode(evt); err != nil {\n			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", n, err)\n		}\n	}\n}\n\nfunc bufferedFileWriter('))),
 ('ref-cmd-closer','',x(M,('	return bw, func() {\n		if err := bw.Flush(); err != nil {\n			log.Fatalf("error flushing %v: %v", dest, err)\n		}\n		if err := f.Close(); err != nil {\n			log.Fatal(err)\n		}\n	}','	return bw, func() { finish(dest, bw, f) }'),('func loadPipeline(','func finish(dest string, bw *bufio.Writer, f *os.File) {\n	if err := bw.Flush(); err != nil {\n		log.Fatalf("error flushing %v: %v", dest, err)\n	}\n	if err := f.Close(); err != nil {\n		log.Fatal(err)\n	}\n}\n\nfunc loadPipeline('))),
 ('ref-cmd-loadall','',x(M,('	f, err := os.Open(path)\n	if err != nil {\n		return nil, err\n	}\n	defer f.Close()\n\n	var c *pipeline.Config\n	if err := yaml.NewDecoder(f).Decode(&c); err != nil {\n		return nil, err\n	}\n\n	return c, nil','	f, err := os.Open(path)\n	if err != nil {\n		return nil, err\n	}\n	var c *pipeline.Config\n	err = yaml.NewDecoder(f).Decode(&c)\n	f.Close()\n	if err == nil {\n		return c, nil\n	}\n	return nil, err'))),
 ('ref-me-helper','',x(ME,('	go func() {\n		if err := http.ListenAndServe(host, mux); err != nil {\n			log.Printf("Failed to serve metrics: %v", err)\n		}\n	}()\n','	go serve(host, mux)\n'),('func Listen(','func serve(host string, h http.Handler) {\n	err := http.ListenAndServe(host, h)\n	if err != nil {\n		log.Printf("Failed to serve metrics: %v", err)\n	}\n}\n\nfunc Listen('))),
 ('ref-me-init','',x(ME,('	reg.Register(collectors.NewBuildInfoCollector())\n	reg.Register(collectors.NewGoCollector())\n	reg.Register(collectors.NewProcessCollector(collectors.ProcessCollectorOpts{\n		Namespace: "process",\n	}))','	Register(\n		collectors.NewBuildInfoCollector(),\n		collectors.NewGoCollector(),\n		collectors.NewProcessCollector(collectors.ProcessCollectorOpts{Namespace: "process"}),\n	)'))),
 ('ref-me-collect','',x(ME,('	for _, coll := range c {\n		if err := reg.Register(coll); err != nil {\n			log.Printf("Failed to register metrics: %v", err)\n		}\n	}','	var errs []error\n	for _, coll := range c {\n		if err := reg.Register(coll); err != nil {\n			errs = append(errs, err)\n		}\n	}\n	for _, err := range errs {\n		log.Printf("Failed to register metrics: %v", err)\n	}'))),
 ('ref-lo-put','',x(LO,('	_, err := evt.Put(targetField, event.String(out))\n	return err','	if _, err := evt.Put(targetField, event.String(out)); err != nil {\n		return err\n	}\n	return nil'))),
 ('ref-re-wrap','',x(RE,('		sliceValue, err := interfaceToValue(rv.Index(i).Interface())\n		if err != nil {\n			return nil, err\n		}\n','		sliceValue, err := interfaceToValue(rv.Index(i).Interface())\n		switch err {\n		case nil:\n		default:\n			return nil, err\n		}\n'))),
 ('ref-val-once','',x(VA,('		if err = json.Unmarshal(data, &array); err != nil {\n			return err\n		}\n','		err = json.Unmarshal(data, &array)\n		if err != nil {\n			return err\n		}\n'))),
 ('ref-node-named','',x(N,('		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)\n		if err != nil {\n			return nil, err','		var pipeProc *pipelineProcessor\n		if pipeProc, err = newPipelineProcessor(baseID, i, procType, options); err != nil {\n			return nil, err'))),
 ('ref-gen-fatal','',x(G,('			if err = ioutil.WriteFile(outputGoFile, srcBytes, 0o644); err != nil {\n				log.Fatal(err)\n			}\n','			must(ioutil.WriteFile(outputGoFile, srcBytes, 0o644))\n'),('// hasProcessFunc returns','func must(err error) {\n	if err != nil {\n		log.Fatal(err)\n	}\n}\n\n// hasProcessFunc returns'))),
 ('ref-fu-scan','',x(FU,('	if err := s.Err(); err != nil {\n		return "", err\n	}\n	return string(bytes.Join(lines, []byte("\\n"))), nil','	return string(bytes.Join(lines, []byte("\\n"))), s.Err()'))),
 ('err-scan-early',C,x(M,('	for s.Scan() {\n','	err := s.Err()\n	for s.Scan() {\n'),('	if err := s.Err(); err != nil {\n','	if err != nil {\n'))),
 ('err-scan-in',C,x(M,('	for s.Scan() {\n','	for s.Scan() {\n		if err := s.Err(); err != nil {\n			return err\n		}\n'),('	if err := s.Err(); err != nil {\n		return fmt.Errorf("failed reading from input: %w", err)\n	}\n','	_ = fmt.Errorf\n'))),
 ('ref-scan-in','',x(M,('	for s.Scan() {\n','	for {\n		if !s.Scan() {\n			break\n		}\n'))),
 ('ref-scan-ret','',x(M,('	for s.Scan() {\n','	for {\n		if !s.Scan() {\n			if err := s.Err(); err != nil {\n				return fmt.Errorf("failed reading from input: %w", err)\n			}\n			return nil\n		}\n'),('	if err := s.Err(); err != nil {\n		return fmt.Errorf("failed reading from input: %w", err)\n	}\n\n	return nil\n',''))),
]
