# More behaviour-preserving rewrites: generators, registry, CLI, metrics, small processors.
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refs import fn, R, E, V, P, N, CF, A, S, RM, L, EU, RE, MI, B, ME, M, RG
C='pkg/config/config.go'; T='internal/proctemplate/funcs.go'; SC='internal/proctemplate/schema.go'
GEN='pkg/processor/generate/generate.go'; DOC='docs/generate/generate.go'
ITEMS=[
('ref4-gen-each','',R(GEN,'func main(','''
func main() {
	flag.Parse()

	defs, err := proctemplate.ReadProcessorsYAMLFile(processorsYmlFile)
	if err != nil {
		log.Fatal(err)
	}

	outputDir, err := filepath.Abs(filepath.Dir(processorsYmlFile))
	if err != nil {
		log.Fatal(err)
	}

	for _, group := range defs.Processors {
		for name, data := range group {
			if err := generate(filepath.Join(outputDir, name, name+".go"), name, data); err != nil {
				log.Fatal(err)
			}
		}
	}
}

// generate writes the Go file of one processor.
func generate(dest, name string, data proctemplate.Processor) error {
	opts := data.Configuration
	sort.Slice(opts, func(i, j int) bool { return opts[i].Name < opts[j].Name })

	includeProcess := true
	switch found, err := hasProcessFunc(dest); {
	case err == nil:
		includeProcess = found
	case !os.IsNotExist(err):
		return err
	}

	src, err := render(TemplateData{
		License:            licenseHeader,
		Name:               name,
		Processor:          data,
		IncludeProcessFunc: includeProcess,
	})
	if err != nil {
		return err
	}

	if err := os.MkdirAll(filepath.Dir(dest), 0o755); err != nil {
		return err
	}
	return ioutil.WriteFile(dest, src, 0o644)
}

func render(data TemplateData) ([]byte, error) {
	var buf bytes.Buffer
	if err := goFileTemplate.Execute(&buf, data); err != nil {
		return nil, err
	}
	return format.Source(buf.Bytes())
}
''')),
('ref4-gen-sortstable','',[(GEN,'''			sort.Slice(data.Configuration, func(i, j int) bool {
				return data.Configuration[i].Name < data.Configuration[j].Name
			})

			templateData''','''			sort.SliceStable(data.Configuration, func(i, j int) bool {
				a, b := data.Configuration[i], data.Configuration[j]
				return a.Name < b.Name
			})

			templateData''')]),
('ref4-gen-sorter','',[(GEN,'''			sort.Slice(data.Configuration, func(i, j int) bool {
				return data.Configuration[i].Name < data.Configuration[j].Name
			})

			templateData''','''			sort.Sort(byName(data.Configuration))

			templateData'''),(GEN,'// hasProcessFunc returns','''type byName []proctemplate.ConfigurationOption

func (o byName) Len() int           { return len(o) }
func (o byName) Less(i, j int) bool { return o[i].Name < o[j].Name }
func (o byName) Swap(i, j int)      { o[i], o[j] = o[j], o[i] }

// hasProcessFunc returns''')]),
('ref4-gen-include','',[(GEN,'''			if err == nil && !hasProcess {
				templateData.IncludeProcessFunc = false
			}
''','''			templateData.IncludeProcessFunc = err != nil || hasProcess
''')]),
('ref4-gen-exists','',[(GEN,'''			hasProcess, err := hasProcessFunc(outputGoFile)
			if err != nil && !os.IsNotExist(err) {
				log.Fatal(err)
			}
			if err == nil && !hasProcess {
				templateData.IncludeProcessFunc = false
			}
''','''			if hasProcess, err := hasProcessFunc(outputGoFile); err == nil {
				templateData.IncludeProcessFunc = hasProcess
			} else if !os.IsNotExist(err) {
				log.Fatal(err)
			}
''')]),
('ref4-gen-hasproc-cast','',R(GEN,'func hasProcessFunc(','''
func hasProcessFunc(goFile string) (bool, error) {
	f, err := parser.ParseFile(token.NewFileSet(), goFile, nil, parser.ParseComments)
	if err != nil {
		return false, err
	}

	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		if found {
			return false
		}
		decl, ok := n.(*ast.FuncDecl)
		if !ok {
			return true
		}
		found = decl.Name.Name == "Process"
		return !found
	})
	return found, nil
}
''')),
('ref4-gen-os','',[(GEN,'ioutil.WriteFile(','os.WriteFile('),(GEN,'	"io/ioutil"\n','')]),
('ref4-gen-dirvar','',[(GEN,'''			if err = os.MkdirAll(filepath.Dir(outputGoFile), 0o755); err != nil {''','''			if err = os.MkdirAll(filepath.Join(outputDir, name), 0o755); err != nil {''')]),
('ref4-doc-helper','',R(DOC,'func main(','''
func main() {
	flag.Parse()

	if err := run(processorsYmlFile, outputFile); err != nil {
		log.Fatal(err)
	}
}

func run(source, dest string) error {
	defs, err := proctemplate.ReadProcessorsYAMLFile(source)
	if err != nil {
		return err
	}

	buf := new(bytes.Buffer)
	if err := templates.ExecuteTemplate(buf, "README.md.gotmpl", TemplateData{Processors: documented(defs)}); err != nil {
		return err
	}
	return ioutil.WriteFile(dest, buf.Bytes(), 0o644)
}

// documented returns the processors ordered by name.
func documented(defs *proctemplate.Processors) []Processor {
	var out []Processor
	for _, group := range defs.Processors {
		for name, proc := range group {
			opts := proc.Configuration
			sort.Slice(opts, func(i, j int) bool { return opts[i].Name < opts[j].Name })
			for i := range opts {
				opts[i].Type = goTypeToYAMLType(opts[i].Type)
			}
			out = append(out, Processor{Name: name, Processor: proc})
			break
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}
''')),
('ref4-doc-typemap','',R(DOC,'func goTypeToYAMLType(','''
var yamlTypes = map[string]string{
	"github.com/andrewkroh/go-sawmill/pkg/config.EventValue": "any",
	"map[string]interface{}": "map",
}

func goTypeToYAMLType(in string) string {
	if out, found := yamlTypes[in]; found {
		return out
	}
	return in
}
''')),
('ref4-doc-before','',[(DOC,'''			sort.Slice(proc.Configuration, func(i, j int) bool {
				return proc.Configuration[i].Name < proc.Configuration[j].Name
			})
			for i := range proc.Configuration {
				proc.Configuration[i].Type = goTypeToYAMLType(proc.Configuration[i].Type)
			}
''','''			for i := range proc.Configuration {
				opt := &proc.Configuration[i]
				opt.Type = goTypeToYAMLType(opt.Type)
			}
			sort.Slice(proc.Configuration, func(i, j int) bool {
				return proc.Configuration[i].Name < proc.Configuration[j].Name
			})
''')]),
('ref4-tmpl-gotype','',R(T,'func goTypeName(','''
func goTypeName(name string) string {
	words := strings.FieldsFunc(name, isSeparator)
	for i, w := range words {
		words[i] = strings.Title(abbreviations(w))
	}
	return strings.Join(words, "")
}
''')),
('ref4-tmpl-sep','',R(T,'func isSeparator(','''
func isSeparator(c rune) bool {
	return c == '.' || c == '_' || c == '@'
}
''')),
('ref4-tmpl-quote','',R(T,'func quoteStrings(','''
func quoteStrings(in interface{}) string {
	if s, ok := in.(string); ok {
		return strconv.Quote(s)
	}
	return fmt.Sprint(in)
}
''')),
('ref4-tmpl-trim','',R(T,'func trimImportPrefix(','''
func trimImportPrefix(dataType string) string {
	return dataType[strings.LastIndex(dataType, "/")+1:]
}
''')),
('ref4-tmpl-boolx','',R(T,'func boolToX(','''
func boolToX(b bool) string {
	mark := ""
	if b {
		mark = "x"
	}
	return mark
}
''')),
('ref4-tmpl-trimws','',R(T,'func trimTrailingWhitespace(','''
func trimTrailingWhitespace(text string) (string, error) {
	var lines []string
	s := bufio.NewScanner(strings.NewReader(text))
	for s.Scan() {
		lines = append(lines, strings.TrimRightFunc(s.Text(), unicode.IsSpace))
	}
	if err := s.Err(); err != nil {
		return "", err
	}
	return strings.Join(lines, "\\n"), nil
}
''',('	"bytes"\n',''))),
('ref4-tmpl-desc','',R(T,'func descriptionToComment(','''
func descriptionToComment(indent, desc string) (string, error) {
	prefix := indent + "// "
	width := 80 - len(strings.Replace(indent, "\\t", "    ", 4)) - len(" // ")
	lines := strings.Split(wordwrap.WrapString(desc, uint(width)), "\\n")
	blank := func(s string) bool { return strings.TrimSpace(s) == "" }
	if len(lines) > 0 && blank(lines[0]) {
		lines = lines[1:]
	}
	if n := len(lines); n > 0 && blank(lines[n-1]) {
		lines = lines[:n-1]
	}
	return trimTrailingWhitespace(strings.Join(lines, "\\n"+prefix))
}
''')),
('ref4-schema-unmarshal','',[(SC,'''	var p *Processors
	if err := dec.Decode(&p); err != nil {
		return nil, err
	}

	return p, nil''','''	p := new(Processors)
	if err := dec.Decode(&p); err != nil {
		return nil, err
	}
	return p, nil''')]),
('ref4-schema-reader','',R(SC,'func ReadProcessorsYAMLFile(','''
func ReadProcessorsYAMLFile(path string) (*Processors, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	return readProcessors(bufio.NewReader(f))
}

// readProcessors decodes the definitions and validates that all fields are known.
func readProcessors(r io.Reader) (*Processors, error) {
	var p *Processors
	dec := yaml.NewDecoder(r)
	dec.KnownFields(true)
	if err := dec.Decode(&p); err != nil {
		return nil, err
	}
	return p, nil
}
''',('	"bufio"\n','	"bufio"\n	"io"\n'))),
('ref4-registry-checks','',R(RG,'func validateConfig(','''
func validateConfig(i interface{}) (*processorConstructor, error) {
	v := reflect.ValueOf(i)
	if kind := v.Kind(); kind != reflect.Func {
		return nil, fmt.Errorf("value must be a function, but got %v", kind)
	}
	if v.IsNil() {
		return nil, fmt.Errorf("value must be a non-nil function")
	}
	if err := checkSignature(v.Type()); err != nil {
		return nil, err
	}

	configType := v.Type().In(0)
	pc := &processorConstructor{
		newConfig: func() reflect.Value { return reflect.New(configType) },
		newProc: func(config reflect.Value) (processor.Processor, error) {
			if config.Kind() == reflect.Ptr {
				config = config.Elem()
			}
			return construct(v, config)
		},
	}
	v.Call([]reflect.Value{reflect.Zero(configType)})
	return pc, nil
}

func construct(fn, config reflect.Value) (processor.Processor, error) {
	out := fn.Call([]reflect.Value{config})
	proc, errValue := out[0], out[1]
	if errValue.IsNil() {
		return proc.Interface().(processor.Processor), nil
	}
	return nil, errValue.Interface().(error)
}

func checkSignature(t reflect.Type) error {
	switch {
	case t.NumIn() != 1:
		return fmt.Errorf("function must accept one arg")
	case t.In(0).Kind() != reflect.Struct:
		return fmt.Errorf("function must be config struct")
	case t.NumOut() != 2:
		return fmt.Errorf("function must return 2 values")
	case t.Out(0).Kind() != reflect.Ptr:
		return fmt.Errorf("function should return a pointer to a processor struct")
	case !t.Out(0).Implements(processorInterface):
		return fmt.Errorf("processor must implement processor.Processor")
	}

	errorType := t.Out(1)
	switch errorType.Kind() {
	case reflect.Interface, reflect.Ptr:
		if errorType.Implements(errorInterface) {
			return nil
		}
	}
	return fmt.Errorf("function should return an error")
}
''')),
('ref4-registry-register','',R(RG,'func (r *Registry) Register(','''
func (r *Registry) Register(name string, constructorFunc interface{}) error {
	if r.registered(name) {
		return fmt.Errorf("%q processor is already registered", name)
	}
	pc, err := validateConfig(constructorFunc)
	if err == nil {
		r.procs[name] = *pc
	}
	return err
}

func (r *Registry) registered(name string) bool {
	_, found := r.procs[name]
	return found
}
''')),
('ref4-registry-order','',[(RG,'''	procConfigValue := pc.newConfig()

	uConf, err := ucfg.NewFrom(config)
	if err != nil {
		return nil, err
	}

	if err''','''	uConf, err := ucfg.NewFrom(config)
	if err != nil {
		return nil, err
	}

	procConfigValue := pc.newConfig()
	if err''')]),
('ref4-registry-pcptr','',[(RG,'	procs map[string]processorConstructor\n','	procs map[string]*processorConstructor\n'),(RG,'	return &Registry{procs: map[string]processorConstructor{}}','	return &Registry{procs: make(map[string]*processorConstructor)}'),(RG,'	r.procs = map[string]processorConstructor{}','	r.procs = make(map[string]*processorConstructor)'),(RG,'r.procs[name] = *pc','r.procs[name] = pc')]),
('ref4-registry-init','',[(RG,'var constructors = NewRegistry()','var constructors *Registry\n\nfunc init() {\n	constructors = NewRegistry()\n}')]),
('ref4-append-helpers','',R(A,'func (p *Append) Process(','''
func (p *Append) Process(evt processor.Event) error {
	field, value := p.config.Field, p.config.Value

	list, err := asArray(evt.Get(field))
	if err != nil {
		return err
	}
	if list == nil {
		if p.config.IgnoreMissing {
			return nil
		}
		list = event.Array()
	}

	if p.config.AllowDuplicates || !contains(list.Array, value) {
		list.Array = append(list.Array, event.String(value))
		if _, err := evt.Put(field, list); err != nil {
			return err
		}
	}
	return nil
}

// asArray returns the value as an array. It returns nil for a missing value.
func asArray(v *event.Value) (*event.Value, error) {
	if v == nil {
		return nil, nil
	}
	switch v.Type {
	case event.NullType:
		return nil, nil
	case event.ArrayType:
		return v, nil
	case event.ObjectType:
		return nil, errors.New("value to append to is not array")
	default:
		return event.Array(v), nil
	}
}

func contains(list []*event.Value, s string) bool {
	for _, elem := range list {
		if elem == nil {
			continue
		}
		if elem.Type == event.StringType && elem.String == s {
			return true
		}
	}
	return false
}
''')),
('ref4-append-switch','',[(A,'''	if v == nil || v.Type == event.NullType {
		if p.config.IgnoreMissing {
			return nil
		}
		v = event.Array()
	} else if v.Type == event.ObjectType {
		return errors.New("value to append to is not array")
	} else if v.Type != event.ArrayType {
		v = event.Array(v)
	}
''','''	missing := v == nil || v.Type == event.NullType
	if missing && p.config.IgnoreMissing {
		return nil
	}
	switch {
	case missing:
		v = event.Array()
	case v.Type == event.ObjectType:
		return errors.New("value to append to is not array")
	case v.Type != event.ArrayType:
		v = event.Array(v)
	}
''')]),
('ref4-lower-transform','',R(L,'func (p *Lowercase) Process(','''
func (p *Lowercase) Process(evt processor.Event) error {
	target := p.config.TargetField
	if target == "" {
		target = p.config.Field
	}

	v := evt.Get(p.config.Field)
	switch {
	case v == nil, v.Type == event.NullType:
		return processor.ErrorKeyMissing{Key: p.config.Field}
	case v.Type == event.StringType:
		_, err := evt.Put(target, event.String(strings.ToLower(v.String)))
		return err
	default:
		return errors.New("value to lowercase is not a string")
	}
}
''')),
('ref4-lower-copyvalue','',[(L,'''	out := strings.ToLower(v.String)
''','''	lowered := event.String(strings.ToLower(v.String))
'''),(L,'''	_, err := evt.Put(targetField, event.String(out))
	return err
''','''	if _, err := evt.Put(targetField, lowered); err != nil {
		return err
	}
	return nil
''')]),
('ref4-set-switch','',R(S,'func (p *Set) Process(','''
func (p *Set) Process(evt processor.Event) error {
	cfg := &p.config

	var v *event.Value
	switch {
	case cfg.Value.Type != event.NullType:
		value := event.Value(cfg.Value)
		v = (&value).Clone()
	case cfg.CopyFrom != "":
		src := evt.Get(cfg.CopyFrom)
		if src == nil {
			return processor.ErrorKeyMissing{Key: cfg.CopyFrom}
		}
		v = src.Clone()
	}

	if _, err := evt.Put(cfg.TargetField, v); err != nil {
		return err
	}
	return nil
}
''')),
('ref4-cli-lines','',R(M,'func processInput(','''
func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)

	s := bufio.NewScanner(in)
	for lineNumber := uint64(1); s.Scan(); lineNumber++ {
		line := strings.TrimSpace(s.Text())
		if len(line) == 0 {
			continue
		}

		evt, err := pipe.Process(newEvent(lineNumber, line))
		switch {
		case err != nil:
			log.Printf("Error processing line %d: %v", lineNumber, err)
		case evt != nil:
			if err := enc.Encode(evt); err != nil {
				log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			}
		}
	}

	if err := s.Err(); err != nil {
		return fmt.Errorf("failed reading from input: %w", err)
	}
	return nil
}

func newEvent(lineNumber uint64, line string) *event.Event {
	evt := event.New()
	evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
	evt.Put("event.original", event.String(line))
	return evt
}
''')),
('ref4-cli-struct','',[(M,'''func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
	s := bufio.NewScanner(in)
	var lineNumber uint64

	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
''','''type lineWriter struct {
	*json.Encoder
}

func (w lineWriter) write(lineNumber uint64, evt interface{}) {
	if err := w.Encode(evt); err != nil {
		log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
	}
}

func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
	s := bufio.NewScanner(in)
	var lineNumber uint64

	w := lineWriter{json.NewEncoder(out)}
	w.SetEscapeHTML(false)
'''),(M,'''		if err := enc.Encode(evt); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
			continue
		}
''','''		w.write(lineNumber, evt)
''')]),
('ref4-cli-load-helper','',R(M,'func loadPipeline(','''
func loadPipeline(path string) (*pipeline.Config, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	return decodeConfig(f)
}

func decodeConfig(r io.Reader) (c *pipeline.Config, err error) {
	if err = yaml.NewDecoder(r).Decode(&c); err != nil {
		return nil, err
	}
	return c, nil
}
''')),
('ref4-cli-profile','',[(M,'''		defer func() {
			runtime.GC() // materialize all statistics
			if err := pprof.WriteHeapProfile(bw); err != nil {
				log.Fatal(err)
			}
			flush()
		}()
''','''		defer flush()
		defer writeHeap(bw)
'''),(M,'func loadPipeline(','''func writeHeap(w io.Writer) {
	runtime.GC() // materialize all statistics
	if err := pprof.WriteHeapProfile(w); err != nil {
		log.Fatal(err)
	}
}

func loadPipeline(''')]),
('ref4-metrics-new','',R(ME,'func init(','''
func init() {
	reg = newRegistry(
		collectors.NewBuildInfoCollector(),
		collectors.NewGoCollector(),
		collectors.NewProcessCollector(collectors.ProcessCollectorOpts{Namespace: "process"}),
	)
}

func newRegistry(cs ...prometheus.Collector) *prometheus.Registry {
	r := prometheus.NewRegistry()
	for _, c := range cs {
		r.Register(c)
	}
	return r
}
''')),
('ref4-metrics-listen','',R(ME,'func Listen(','''
func Listen(host string) {
	mux := http.NewServeMux()
	mux.Handle("/metrics", promhttp.HandlerFor(reg, promhttp.HandlerOpts{}))
	go serve(&http.Server{Addr: host, Handler: mux})
}

func serve(srv *http.Server) {
	if err := srv.ListenAndServe(); err != nil {
		log.Printf("Failed to serve metrics: %v", err)
	}
}
''')),
]
