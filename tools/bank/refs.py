# Rewrites of whole functions that keep the behaviour.
def fn(f, sig):
    s=open('/repo/'+f).read(); i=s.index(sig); return s[i:s.index('\n}\n',i)+3]
def R(f, sig, new, *more): return [(f, fn(f,sig), new.lstrip('\n'))]+[(f,a,b) for a,b in more]
E='pkg/event/event.go'; V='pkg/event/value.go'; P='pkg/pipeline/pipeline.go'; N='pkg/pipeline/processor.go'; CF='pkg/pipeline/config.go'
A='pkg/processor/append/process.go'; S='pkg/processor/set/process.go'; RM='pkg/processor/remove/process.go'; L='pkg/processor/lowercase/process.go'
EU='pkg/eventutil/event.go'; RE='pkg/eventutil/reflect.go'; MI='pkg/serialization/mapinterface/mapinterface.go'; B='pkg/serialization/protobuf/protobuf.go'
ME='pkg/metrics/metrics.go'; M='cmd/sawmill/sawmill.go'; RG='pkg/processor/registry/registry.go'
ITEMS=[
('ref-r-process-two','',R(P,'func (pipe *Pipeline) process(','''
func (pipe *Pipeline) process(evt *pipelineEvent) error {
	err := runAll(pipe.processors, evt)
	if err == nil || len(pipe.onFailure) == 0 || evt.done() {
		return err
	}
	return runAll(pipe.onFailure, evt)
}

func runAll(procs []*pipelineProcessor, evt *pipelineEvent) error {
	for _, proc := range procs {
		if err := proc.Process(evt); err != nil {
			return err
		}
		if evt.done() {
			break
		}
	}
	return nil
}
''')),
('ref-r-process-index','',R(P,'func (pipe *Pipeline) process(','''
func (pipe *Pipeline) process(evt *pipelineEvent) error {
	var failure error
	for i := 0; i < len(pipe.processors) && failure == nil && !evt.done(); i++ {
		failure = pipe.processors[i].Process(evt)
	}
	if failure == nil {
		return nil
	}
	for i := 0; i < len(pipe.onFailure) && !evt.done(); i++ {
		failure = pipe.onFailure[i].Process(evt)
		if failure != nil {
			break
		}
	}
	return failure
}
''')),
('ref-r-node-inverted','',R(N,'func (p *pipelineProcessor) Process(','''
func (p *pipelineProcessor) Process(event *pipelineEvent) error {
	p.metricEventsInTotal.Inc()

	err := p.proc.Process(event)
	if err != nil && !event.dropped {
		err = p.recover(event, err)
	}

	switch {
	case event.dropped:
		p.metricDiscardedEventsTotal.Inc()
		return nil
	case err != nil:
		p.metricErrorsTotal.Inc()
		return err
	default:
		p.metricEventsOutTotal.Inc()
		return nil
	}
}

// recover returns the error that is left after the error handling.
func (p *pipelineProcessor) recover(event *pipelineEvent, err error) error {
	if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
		return nil
	}
	if !event.done() {
		for _, handler := range p.OnFailure {
			err = handler.Process(event)
			if err != nil || event.done() {
				break
			}
		}
	}
	if p.IgnoreFailure {
		return nil
	}
	return err
}
''')),
('ref-r-node-defer','',R(N,'func (p *pipelineProcessor) Process(','''
func (p *pipelineProcessor) Process(event *pipelineEvent) (err error) {
	p.metricEventsInTotal.Inc()
	defer func() {
		switch {
		case event.dropped:
			p.metricDiscardedEventsTotal.Inc()
		case err != nil:
			p.metricErrorsTotal.Inc()
		default:
			p.metricEventsOutTotal.Inc()
		}
	}()

	err = p.proc.Process(event)
	if event.dropped || err == nil {
		return nil
	}
	if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
		return nil
	}
	for _, proc := range p.OnFailure {
		if event.done() {
			break
		}
		if err = proc.Process(event); err != nil {
			break
		}
	}
	if event.dropped || p.IgnoreFailure {
		return nil
	}
	return err
}
''')),
('ref-r-visit-iter','',[(P,fn(P,'func (pipe *Pipeline) Metrics('),'''func (pipe *Pipeline) Metrics() []prometheus.Collector {
	out := make([]prometheus.Collector, 0, 4*(len(pipe.processors)+len(pipe.onFailure)))
	out = appendMetrics(out, pipe.processors)
	return appendMetrics(out, pipe.onFailure)
}

func appendMetrics(out []prometheus.Collector, procs []*pipelineProcessor) []prometheus.Collector {
	for _, proc := range procs {
		out = append(out, proc.metricDiscardedEventsTotal, proc.metricErrorsTotal, proc.metricEventsInTotal, proc.metricEventsOutTotal)
		out = appendMetrics(out, proc.OnFailure)
	}
	return out
}
'''),(P,fn(P,'func (pipe *Pipeline) visitProcessors('),''),(P,fn(P,'func visitProcessor('),'')]),
('ref-r-new-helper','',R(P,'func New(config *Config)','''
func New(config *Config) (*Pipeline, error) {
	if config == nil || len(config.ID) == 0 {
		return nil, errors.New("pipeline must have a non-empty id")
	}

	pipe := &Pipeline{id: config.ID}
	var err error
	if pipe.processors, err = newPipelineProcessors(pipe.id+".processors", config.Processors); err != nil {
		return nil, err
	}
	if pipe.onFailure, err = newPipelineProcessors(pipe.id+".on_failure", config.OnFailure); err != nil {
		return nil, err
	}
	return pipe, nil
}
''')),
('ref-r-nodes-index','',R(N,'func newPipelineProcessors(','''
func newPipelineProcessors(baseID string, procConfigs []ProcessorConfig) ([]*pipelineProcessor, error) {
	n := len(procConfigs)
	if n == 0 {
		return nil, nil
	}

	nodes := make([]*pipelineProcessor, n)
	for i := range procConfigs {
		name, options, err := procConfigs[i].getProcessor()
		if err == nil {
			nodes[i], err = newPipelineProcessor(baseID, i, name, options)
		}
		if err != nil {
			return nil, err
		}
	}
	return nodes, nil
}
''')),
('ref-r-getproc','',R(CF,'func (c ProcessorConfig) getProcessor(','''
func (c ProcessorConfig) getProcessor() (name string, opts *ProcessorOptionConfig, err error) {
	switch len(c) {
	case 0:
		return "", nil, errors.New("processor cannot be empty")
	case 1:
		for name, opts = range c {
		}
		if opts == nil {
			opts = new(ProcessorOptionConfig)
		}
		return name, opts, nil
	default:
		return "", nil, errors.New("only one processor must be specified")
	}
}
''')),
('ref-r-cfg-marshal','',R(CF,'func (c ProcessorOptionConfig) MarshalJSON(','''
func (c ProcessorOptionConfig) MarshalJSON() ([]byte, error) {
	data := make(map[string]interface{}, len(c.Config)+3)
	if len(c.ID) > 0 {
		data["id"] = c.ID
	}
	if len(c.If) > 0 {
		data["if"] = string(c.If)
	}
	if c.OnFailure != nil && len(c.OnFailure) != 0 {
		data["on_failure"] = c.OnFailure
	}
	for name := range c.Config {
		data[name] = c.Config[name]
	}
	return json.Marshal(data)
}
''')),
('ref-r-put-parent','',R(E,'func (e *Event) put(','''
func (e *Event) put(path []string, val *Value, overwrite bool) (*Value, error) {
	if len(path) == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
	if val == nil {
		return nil, nil
	}
	if e.fields == nil {
		e.init()
	}

	existing := e.get(path)
	if existing != nil && !overwrite {
		return existing, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)
	}

	parents, last := path[:len(path)-1], path[len(path)-1]
	m := e.fields
	for i := 0; i < len(parents); i++ {
		next, err := descend(m, parents[i])
		if err != nil {
			return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), err)
		}
		m = next
	}
	m[last] = val
	return existing, nil
}

// descend returns the members of the named object, which it creates if needed.
func descend(m map[string]*Value, key string) (map[string]*Value, error) {
	child, found := m[key]
	switch {
	case !found:
		child = Object(make(map[string]*Value))
		m[key] = child
	case child == nil, child.Type != ObjectType:
		return nil, ErrTargetKeyNotObject
	case child.Object == nil:
		child.Object = make(map[string]*Value)
	}
	return child.Object, nil
}
''')),
('ref-r-get-loop','',R(E,'func (e *Event) get(','''
func (e *Event) get(path []string) *Value {
	if len(e.fields) == 0 {
		return nil
	}
	if len(path) == 0 {
		return Object(e.fields)
	}

	fields := e.fields
	for len(path) > 1 {
		child := fields[path[0]]
		if child == nil {
			return nil
		}
		fields, path = child.Object, path[1:]
	}
	return fields[path[0]]
}
''')),
('ref-r-get-rec','',R(E,'func (e *Event) get(','''
func (e *Event) get(path []string) *Value {
	if len(e.fields) == 0 {
		return nil
	}
	if len(path) == 0 {
		return Object(e.fields)
	}
	return lookup(e.fields, path)
}

func lookup(fields map[string]*Value, path []string) *Value {
	v := fields[path[0]]
	if len(path) == 1 || v == nil {
		return v
	}
	return lookup(v.Object, path[1:])
}
''')),
('ref-r-delete','',R(E,'func (e *Event) delete(','''
func (e *Event) delete(path []string) *Value {
	n := len(path)
	if n == 0 {
		return nil
	}
	parent := e.get(path[:n-1])
	if parent == nil {
		return nil
	}
	deleted, found := parent.Object[path[n-1]]
	if found {
		delete(parent.Object, path[n-1])
	}
	return deleted
}
''')),
('ref-r-clone-parts','',R(V,'func (v *Value) Clone(','''
func (v *Value) Clone() *Value {
	if v == nil {
		return nil
	}

	out := &Value{}
	*out = *v
	out.Array = cloneArray(v.Array)
	out.Object = cloneObject(v.Object)
	return out
}

func cloneArray(in []*Value) []*Value {
	if in == nil {
		return nil
	}
	out := make([]*Value, len(in))
	for i := range in {
		out[i] = in[i].Clone()
	}
	return out
}

func cloneObject(in map[string]*Value) map[string]*Value {
	if in == nil {
		return nil
	}
	out := map[string]*Value{}
	for name, member := range in {
		out[name] = member.Clone()
	}
	return out
}
''')),
('ref-r-unmarshal-kinds','',R(V,'func (v *Value) UnmarshalJSON(','''
func (v *Value) UnmarshalJSON(data []byte) error {
	tok, err := json.NewDecoder(bytes.NewReader(data)).Token()
	if err != nil {
		return err
	}

	var out Value
	switch t := tok.(type) {
	case json.Delim:
		if t == '[' {
			out.Type = ArrayType
			err = json.Unmarshal(data, &out.Array)
			for i := range out.Array {
				if out.Array[i] == nil {
					out.Array[i] = NullValue
				}
			}
		} else {
			out.Type = ObjectType
			err = json.Unmarshal(data, &out.Object)
			for k := range out.Object {
				if out.Object[k] == nil {
					out.Object[k] = NullValue
				}
			}
		}
	case string:
		out.Type, out.String = StringType, t
	case float64:
		out.Type, out.Float = FloatType, t
	case bool:
		out.Type, out.Bool = BoolType, t
	case nil:
	default:
		return fmt.Errorf("unhandled type %T for value %q", t, string(data))
	}
	if err != nil {
		return err
	}
	*v = out
	return nil
}
''')),
('ref-r-append-flat','',R(A,'func (p *Append) Process(','''
func (p *Append) Process(evt processor.Event) error {
	target, err := p.target(evt)
	if err != nil || target == nil {
		return err
	}
	if !p.config.AllowDuplicates && contains(target.Array, p.config.Value) {
		return nil
	}

	target.Array = append(target.Array, event.String(p.config.Value))
	_, err = evt.Put(p.config.Field, target)
	return err
}

// target returns the array to append to, or nil if there is nothing to do.
func (p *Append) target(evt processor.Event) (*event.Value, error) {
	v := evt.Get(p.config.Field)
	switch {
	case v == nil, v.Type == event.NullType:
		if p.config.IgnoreMissing {
			return nil, nil
		}
		return event.Array(), nil
	case v.Type == event.ArrayType:
		return v, nil
	case v.Type == event.ObjectType:
		return nil, errors.New("value to append to is not array")
	default:
		return event.Array(v), nil
	}
}

func contains(list []*event.Value, s string) bool {
	for _, elem := range list {
		if elem == nil || elem.Type != event.StringType {
			continue
		}
		if elem.String == s {
			return true
		}
	}
	return false
}
''')),
('ref-r-set-value','',R(S,'func (p *Set) Process(','''
func (p *Set) Process(evt processor.Event) error {
	v, err := p.value(evt)
	if err != nil {
		return err
	}
	_, err = evt.Put(p.config.TargetField, v)
	return err
}

func (p *Set) value(evt processor.Event) (*event.Value, error) {
	if p.config.Value.Type != event.NullType {
		fixed := event.Value(p.config.Value)
		return fixed.Clone(), nil
	}
	if p.config.CopyFrom == "" {
		return nil, nil
	}
	if v := evt.Get(p.config.CopyFrom); v != nil {
		return v.Clone(), nil
	}
	return nil, processor.ErrorKeyMissing{Key: p.config.CopyFrom}
}
''')),
('ref-r-remove-index','',R(RM,'func (p *Remove) Process(','''
func (p *Remove) Process(evt processor.Event) error {
	for i := 0; i != len(p.config.Fields); i++ {
		name := p.config.Fields[i]
		removed := evt.Delete(name)
		if removed == nil && !p.config.IgnoreMissing {
			return processor.ErrorKeyMissing{Key: name}
		}
	}
	return nil
}
''')),
('ref-r-lower-target','',R(L,'func (p *Lowercase) Process(','''
func (p *Lowercase) Process(evt processor.Event) error {
	source, target := p.config.Field, p.config.TargetField
	if target == "" {
		target = source
	}

	v := evt.Get(source)
	switch {
	case v == nil, v.Type == event.NullType:
		return processor.ErrorKeyMissing{Key: source}
	case v.Type == event.StringType:
		if _, err := evt.Put(target, event.String(strings.ToLower(v.String))); err != nil {
			return err
		}
		return nil
	default:
		return errors.New("value to lowercase is not a string")
	}
}
''')),
('ref-r-map-from','',R(MI,'func fromEventValueObject(','''
func fromEventValueObject(v *event.Value) map[string]interface{} {
	if v == nil {
		return nil
	}
	out := make(map[string]interface{})
	for name := range v.Object {
		out[name] = fromEventValue(v.Object[name])
	}
	return out
}
''')),
('ref-r-metrics-each','',R(ME,'func Register(','''
func Register(c ...prometheus.Collector) {
	for i := range c {
		register(c[i])
	}
}

func register(coll prometheus.Collector) {
	err := reg.Register(coll)
	if err == nil {
		return
	}
	log.Printf("Failed to register metrics: %v", err)
}
''')),
('ref-r-registry-new','',R(RG,'func (r *Registry) NewProcessor(','''
func (r *Registry) NewProcessor(name string, config map[string]interface{}) (processor.Processor, error) {
	pc, found := r.procs[name]
	if !found {
		return nil, fmt.Errorf("processor type %q not found", name)
	}

	options, err := unpack(pc, config)
	if err != nil {
		return nil, err
	}
	return pc.newProc(options)
}

func unpack(pc processorConstructor, config map[string]interface{}) (reflect.Value, error) {
	options := pc.newConfig()
	c, err := ucfg.NewFrom(config)
	if err == nil {
		err = c.Unpack(options.Interface())
	}
	return options, err
}
''')),
]
