# Renamings, moves and changes of internal signatures that keep the behaviour.
import os, sys, re, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refs import fn, R, E, V, P, N, CF, A, S, RM, L, EU, RE, MI, B, ME, M, RG
PE='pkg/pipeline/event.go'; C='pkg/config/config.go'; T='internal/proctemplate/funcs.go'; ST='pkg/eventutil/structtag.go'
def ren(pat, *pairs):
    "rename identifiers in files; whole file is replaced"
    out=[]
    for f in sorted(glob.glob('/repo/'+pat)):
        s=open(f).read(); n=s
        for a,b in pairs: n=re.sub(a,b,n)
        if n!=s: out.append((f[len('/repo/'):],s,n))
    return out
def whole(f, *pairs):
    s=open('/repo/'+f).read(); n=s
    for a,b in pairs:
        assert a in n, a
        n=n.replace(a,b)
    return [(f,s,n)]
def hdr(f):
    s=open('/repo/'+f).read(); return s[:s.index('package ')]
def move(f, new, pkg, imports, *sigs):
    s=open('/repo/'+f).read(); body=''
    for sig in sigs:
        b=fn(f,sig); i=s.index(b); j=i
        # doc comment
        while s[:j].rstrip('\n').split('\n')[-1].startswith('//'):
            j=s.rindex('\n',0,j-1)+1
        body+=s[j:i]+b+'\n'; s=s[:j]+s[i+len(b):]
    for imp in imports:
        if imp[1]: s=s.replace('\t"%s"\n'%imp[0],'',1)
    return [(f,open('/repo/'+f).read(),s),(new,'',hdr(f)+'package '+pkg+'\n\nimport (\n'+''.join('\t"%s"\n'%i[0] for i in imports)+')\n\n'+body)]
ITEMS=[
('ref3-rename-walk','',ren('pkg/event/event.go',(r'\.put\(',r'.store('),(r'\) put\(',r') store('),(r'\.get\(',r'.lookup('),(r'\) get\(',r') lookup('),(r'\.delete\(',r'.remove('),(r'\) delete\(path',r') remove(path'),('pathScratch','scratch'))),
('ref3-rename-fields','',ren('pkg/pipeline/*.go',(r'\bevt\.data\b','evt.inner'),(r'\be\.data\b','e.inner'),(r'\bdata      \*event',r'inner     *event'),(r'\bdata: evt','inner: evt'),('pipeEvt.data','pipeEvt.inner'),(r'\bcancelled\b','stopped'))),
('ref3-rename-node','',ren('pkg/pipeline/p*.go',(r'\bvisitProcessors\b','eachNode'),(r'\bvisitProcessor\b','walkNode'),(r'\bnewPipelineProcessors\b','buildList'),(r'\bnewPipelineProcessor\b','buildNode'))),
('ref3-rename-metrics','',ren('pkg/pipeline/p*.go',(r'\bmetricDiscardedEventsTotal\b','dropped'),(r'\bmetricErrorsTotal\b','failed'),(r'\bmetricEventsInTotal\b','in'),(r'\bmetricEventsOutTotal\b','out'))),
('ref3-move-keypath','',move(E,'pkg/event/key.go','event',[('strings',0)],'func keyToPath(','func pathString(')+[] if False else [(E,'func keyToPath(','func splitPath('),(E,'e.put(keyToPath(key), val, true)','e.put(splitPath(key), val, true)'),(E,'e.put(keyToPath(key), val, false)','e.put(splitPath(key), val, false)'),(E,'e.get(keyToPath(key))','e.get(splitPath(key))'),(E,'e.delete(keyToPath(key))','e.delete(splitPath(key))')]),
('ref3-node-counters','',whole(N,
 ('	// Metrics\n	metricDiscardedEventsTotal prometheus.Counter // Explicit drops by the processor.\n	metricErrorsTotal          prometheus.Counter // Total errors (not including ignored or recovered errors).\n	metricEventsInTotal        prometheus.Counter // Received events.\n	metricEventsOutTotal       prometheus.Counter // Successfully output events.\n}\n',
  '	nodeMetrics\n}\n\ntype nodeMetrics struct {\n	metricDiscardedEventsTotal prometheus.Counter // Explicit drops by the processor.\n	metricErrorsTotal          prometheus.Counter // Total errors (not including ignored or recovered errors).\n	metricEventsInTotal        prometheus.Counter // Received events.\n	metricEventsOutTotal       prometheus.Counter // Successfully output events.\n}\n'),
 ('		proc:      proc,\n		metricDiscarded','		proc:      proc,\n		nodeMetrics: nodeMetrics{\n		metricDiscarded'),
 ('			ConstLabels: labels,\n		}),\n	}\n	if ignoreMissingPtr','			ConstLabels: labels,\n		}),\n		},\n	}\n	if ignoreMissingPtr'))),
('ref3-node-metrics-fn','',whole(N,
 ('		proc:      proc,\n','		proc:      proc,\n	}\n	p.initMetrics(labels)\n	if ignoreMissingPtr != nil {\n		p.IgnoreMissing = *ignoreMissingPtr\n	}\n	if ignoreFailurePtr != nil {\n		p.IgnoreFailure = *ignoreFailurePtr\n	}\n\n	return p, nil\n}\n\nfunc (p *pipelineProcessor) initMetrics(labels map[string]string) {\n'),
 ('		metricDiscardedEventsTotal: prometheus','	p.metricDiscardedEventsTotal = prometheus'),('		metricErrorsTotal: prometheus','	p.metricErrorsTotal = prometheus'),('		metricEventsInTotal: prometheus','	p.metricEventsInTotal = prometheus'),('		metricEventsOutTotal: prometheus','	p.metricEventsOutTotal = prometheus'),
 ('			ConstLabels: labels,\n		}),\n	}\n	if ignoreMissingPtr != nil {\n		p.IgnoreMissing = *ignoreMissingPtr\n	}\n	if ignoreFailurePtr != nil {\n		p.IgnoreFailure = *ignoreFailurePtr\n	}\n\n	return p, nil\n}','			ConstLabels: labels,\n		}),\n}'),
 ('			ConstLabels: labels,\n		}),\n','			ConstLabels: labels,\n		})\n'),('			ConstLabels: labels,\n		})\n}','			ConstLabels: labels,\n		})\n}'))),
('ref3-put-options','',ren(E,(r'keyToPath\(key\), val, true\)','keyToPath(key), val, replace)'),(r'keyToPath\(key\), val, false\)','keyToPath(key), val, keep)'),(r'val \*Value, overwrite bool\)','val *Value, mode putMode)'),(r'old != nil && !overwrite','old != nil && mode == keep'),(r'func New\(\) \*Event',r'type putMode int\n\nconst (\n\tkeep putMode = iota\n\treplace\n)\n\nfunc New() *Event'))),
('ref3-event-nofields','',whole(E,('func (e *Event) init() {\n	e.fields = map[string]*Value{}\n}\n','func (e *Event) init() {\n	if e.fields == nil {\n		e.fields = make(map[string]*Value)\n	}\n}\n'),('	if e.fields == nil {\n		e.init()\n	}\n','	e.init()\n'))),
('ref3-new-eager','',whole(E,('	return &Event{}\n','	return &Event{fields: map[string]*Value{}}\n'))),
('ref3-paths-type','',ren(E,(r'path \[\]string','path segments'),(r'func keyToPath\(key string\) ','type segments []string\n\nfunc keyToPath(key string) '))),
('ref3-node-metrics-ptr','',[(N,'	// Metrics\n	metricDiscardedEventsTotal prometheus.Counter // Explicit drops by the processor.\n	metricErrorsTotal          prometheus.Counter // Total errors (not including ignored or recovered errors).\n	metricEventsInTotal        prometheus.Counter // Received events.\n	metricEventsOutTotal       prometheus.Counter // Successfully output events.\n}\n',
'	metrics *nodeMetrics\n}\n\ntype nodeMetrics struct {\n	discarded, errors, in, out prometheus.Counter\n}\n\nfunc newNodeMetrics(labels map[string]string) *nodeMetrics {\n	counter := func(name, help string) prometheus.Counter {\n		return prometheus.NewCounter(prometheus.CounterOpts{Namespace: "es", Name: name, Help: help, ConstLabels: labels})\n	}\n	return &nodeMetrics{\n		discarded: counter("component_discarded_events_total", "Total number of events dropped by component."),\n		errors:    counter("component_errors_total", "Total number of errors by component."),\n		in:        counter("component_received_events_total", "Total number of events received by component."),\n		out:       counter("component_sent_events_total", "Total number of events sent by component."),\n	}\n}\n\nfunc (m *nodeMetrics) collectors() []prometheus.Collector {\n	return []prometheus.Collector{m.discarded, m.errors, m.in, m.out}\n}\n'),
(N,open('/repo/'+N).read()[open('/repo/'+N).read().index('		metricDiscardedEventsTotal: prom'):open('/repo/'+N).read().index('	if ignoreMissingPtr != nil {')],'		metrics:   newNodeMetrics(labels),\n	}\n'),
(N,'p.metricDiscardedEventsTotal','p.metrics.discarded',1),(N,'p.metricErrorsTotal','p.metrics.errors',1),(N,'p.metricEventsInTotal','p.metrics.in',1),(N,'p.metricEventsOutTotal','p.metrics.out',1),
(P,'		metrics = append(metrics,\n			proc.metricDiscardedEventsTotal,\n			proc.metricErrorsTotal,\n			proc.metricEventsInTotal,\n			proc.metricEventsOutTotal,\n		)\n','		metrics = append(metrics, proc.metrics.collectors()...)\n')]),
('ref3-node-flags','',[(N,'	IgnoreFailure bool\n	IgnoreMissing bool\n','	ignored\n'),(N,'func (p *pipelineProcessor) Process(','// ignored says which failures are not failures of the pipeline.\ntype ignored struct {\n	IgnoreFailure bool\n	IgnoreMissing bool\n}\n\nfunc (p *pipelineProcessor) Process(')]),

('ref3-append-copy','',R(EU,'func Append(','''
func Append(evt *event.Event, key string, item *event.Value) error {
	if item == nil {
		return nil
	}

	items := []*event.Value{item}
	if item.Type == event.ArrayType {
		items = item.Array
	}

	target := evt.Get(key)
	switch {
	case target == nil:
		target = event.Array()
	case target.Type != event.ArrayType:
		target = event.Array(target)
	}
	target.Array = append(target.Array, items...)

	_, err := evt.Put(key, target)
	return err
}
''')),
('ref3-constructors','',ren(V,(r'return &Value\{Type: BoolType, Bool: v\}','val := new(Value)\n\tval.Type = BoolType\n\tval.Bool = v\n\treturn val'),(r'return &Value\{Type: ArrayType, Array: v\}','val := newValue(ArrayType)\n\tval.Array = v\n\treturn val'),(r'return &Value\{Type: ObjectType, Object: v\}','val := newValue(ObjectType)\n\tval.Object = v\n\treturn val'),(r'func Bool\(',r'func newValue(t ValueType) *Value { return &Value{Type: t} }\n\nfunc Bool('))),
('ref3-tagnames','',ren(V,(r'\tmaxValueType\n',r'\tmaxValueType\n'),(r'	if name, found := valueTypeNames\[vt\]; found \{\n		return name\n	\}\n	return "unknown_type"','	switch vt {\n	case NullType:\n		return "null_type"\n	case ArrayType:\n		return "array_type"\n	case BoolType:\n		return "bool_type"\n	case FloatType:\n		return "float_type"\n	case IntegerType:\n		return "integer_type"\n	case ObjectType:\n		return "object_type"\n	case StringType:\n		return "string_type"\n	case TimestampType:\n		return "timestamp_type"\n	case UnsignedIntegerType:\n		return "unsigned_integer_type"\n	}\n	return "unknown_type"'),(r'(?s)var valueTypeNames = .*?\n}\n',''))),
('ref3-value-array','',whole(V,('var valueTypeNames = map[ValueType]string{','var valueTypeNames = [maxValueType]string{'),('	if name, found := valueTypeNames[vt]; found {\n		return name\n	}\n','	if vt < maxValueType {\n		return valueTypeNames[vt]\n	}\n'))),
('ref3-pipe-embedded','',[(P,fn(P,'func (pipe *Pipeline) process('),'''func (pipe *Pipeline) process(evt *pipelineEvent) error {
	err := processorList(pipe.processors).run(evt)
	if err != nil && len(pipe.onFailure) > 0 && !evt.done() {
		err = processorList(pipe.onFailure).run(evt)
	}
	return err
}
'''),(N,'func newPipelineProcessors(','''// processorList is a sequence of processors.
type processorList []*pipelineProcessor

// run applies the processors in order until one fails or the event is done.
func (l processorList) run(evt *pipelineEvent) error {
	for _, proc := range l {
		if err := proc.Process(evt); err != nil || evt.done() {
			return err
		}
	}
	return nil
}

func newPipelineProcessors('''),(N,'''			for _, proc := range p.OnFailure {
				if err = proc.Process(event); err != nil || event.done() {
					break
				}
			}
''','''			err = processorList(p.OnFailure).run(event)
''')]),
('ref3-pipe-typed','',ren('pkg/pipeline/p*.go',(r'\[\]\*pipelineProcessor','processorList'),(r'type pipelineProcessor struct',r'type processorList []*pipelineProcessor\n\ntype pipelineProcessor struct'))),
('ref3-labels-local','',[(N,'	labels := map[string]string{\n		"component_kind": "processor",\n		"component_type": processorType,\n		"component_id":   id,\n	}\n','	labels := componentLabels(processorType, id)\n'),(N,'func ignores(','func componentLabels(typ, id string) prometheus.Labels {\n	return prometheus.Labels{\n		"component_kind": "processor",\n		"component_type": typ,\n		"component_id":   id,\n	}\n}\n\nfunc ignores('),(N,'	labels := componentLabels(processorType, id)\n','	labels := componentLabels(processorType, id)\n')]),
('ref3-id-sprintf','',[(N,'	id := baseID + "[" + strconv.Itoa(processorIndex) + "]." + processorType\n','	id := fmt.Sprintf("%s[%d].%s", baseID, processorIndex, processorType)\n'),(N,'	"strconv"\n','')]),
('ref3-ignore-values','',[(N,'	ignoreMissingPtr, ignoreFailurePtr, err := ignores(proc)\n','	ignoreMissing, ignoreFailure, err := ignores(proc)\n'),(N,'	if ignoreMissingPtr != nil {\n		p.IgnoreMissing = *ignoreMissingPtr\n	}\n	if ignoreFailurePtr != nil {\n		p.IgnoreFailure = *ignoreFailurePtr\n	}\n','	p.IgnoreMissing = ignoreMissing\n	p.IgnoreFailure = ignoreFailure\n'),
 (N,'func ignores(proc interface{}) (ignoreMissing, ignoreFailure *bool, err error) {','func ignores(proc interface{}) (ignoreMissing, ignoreFailure bool, err error) {'),(N,'return nil, nil, fmt.Errorf("error Config() method','return false, false, fmt.Errorf("error Config() method'),(N,'return nil, nil, fmt.Errorf("error Config() must return one','return false, false, fmt.Errorf("error Config() must return one'),(N,'return nil, nil, fmt.Errorf("error Config() must not','return false, false, fmt.Errorf("error Config() must not'),(N,'return nil, nil, fmt.Errorf("error Config() must return a','return false, false, fmt.Errorf("error Config() must return a'),
 (N,'		boolValue := v.Bool()\n		ignoreMissing = &boolValue\n','		ignoreMissing = v.Bool()\n'),(N,'		boolValue := v.Bool()\n		ignoreFailure = &boolValue\n','		ignoreFailure = v.Bool()\n')]),
('ref3-order-opts','',[(N,'''	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}

	p := &pipelineProcessor{''','''	p := &pipelineProcessor{'''),(N,'		OnFailure: onFailureProcessors,\n',''),(N,'	if ignoreMissingPtr != nil {\n','	if p.OnFailure, err = newPipelineProcessors(id+".on_failure", config.OnFailure); err != nil {\n		return nil, err\n	}\n	if ignoreMissingPtr != nil {\n')]),
('ref3-event-ptr','',ren(PE,(r'return e\.dropped \|\| e\.cancelled','return e.cancelled || e.dropped'))),
('ref3-pipeevent-new','',[(P,'	pipeEvt := &pipelineEvent{data: evt}\n','	pipeEvt := newPipelineEvent(evt)\n'),(PE,'func (e *pipelineEvent) Put(','func newPipelineEvent(evt *event.Event) *pipelineEvent {\n	return &pipelineEvent{data: evt}\n}\n\nfunc (e *pipelineEvent) Put(')]),
('ref3-state-enum','',ren('pkg/pipeline/*.go',(r'\tcancelled bool\n\tdropped   bool\n','\tstate     eventState\n'),(r'return e\.dropped \|\| e\.cancelled','return e.state != active'),(r'e\.cancelled = true','if e.state == active {\n\t\te.state = cancelled\n\t}'),(r'e\.dropped = true','e.state = dropped'),(r'\b(event|pipeEvt)\.dropped',r'\1.isDropped()'),(r'func \(e \*pipelineEvent\) done\(\)','func (e *pipelineEvent) isDropped() bool { return e.state == dropped }\n\nfunc (e *pipelineEvent) done()'),(r'type pipelineEvent struct','type eventState int\n\nconst (\n\tactive eventState = iota\n\tcancelled\n\tdropped\n)\n\ntype pipelineEvent struct'))),
('ref3-state-enum2','',ren('pkg/pipeline/*.go',(r'\tcancelled bool\n\tdropped   bool\n','\tstate     eventState\n'),(r'return e\.dropped \|\| e\.cancelled','return e.state == cancelled || e.isDropped()'),(r'e\.cancelled = true','if e.state != dropped {\n\t\te.state = cancelled\n\t}'),(r'e\.dropped = true','e.state = dropped'),(r'\b(event|pipeEvt)\.dropped',r'\1.isDropped()'),(r'func \(e \*pipelineEvent\) done\(\)','func (e *pipelineEvent) isDropped() bool { return e.state == dropped }\n\nfunc (e *pipelineEvent) done()'),(r'type pipelineEvent struct','type eventState int\n\nconst (\n\tactive eventState = iota\n\tcancelled\n\tdropped\n)\n\ntype pipelineEvent struct'))),
('ref3m-enum-cancel-undrops','C14',ren('pkg/pipeline/*.go',(r'\tcancelled bool\n\tdropped   bool\n','\tstate     eventState\n'),(r'return e\.dropped \|\| e\.cancelled','return e.state != active'),(r'e\.cancelled = true','e.state = cancelled'),(r'e\.dropped = true','e.state = dropped'),(r'\b(event|pipeEvt)\.dropped',r'\1.isDropped()'),(r'func \(e \*pipelineEvent\) done\(\)','func (e *pipelineEvent) isDropped() bool { return e.state == dropped }\n\nfunc (e *pipelineEvent) done()'),(r'type pipelineEvent struct','type eventState int\n\nconst (\n\tactive eventState = iota\n\tcancelled\n\tdropped\n)\n\ntype pipelineEvent struct'))),
('ref3m-enum-done','C14',ren('pkg/pipeline/*.go',(r'\tcancelled bool\n\tdropped   bool\n','\tstate     eventState\n'),(r'return e\.dropped \|\| e\.cancelled','return e.state == cancelled'),(r'e\.cancelled = true','if e.state == active {\n\t\te.state = cancelled\n\t}'),(r'e\.dropped = true','e.state = dropped'),(r'\b(event|pipeEvt)\.dropped',r'\1.isDropped()'),(r'func \(e \*pipelineEvent\) done\(\)','func (e *pipelineEvent) isDropped() bool { return e.state == dropped }\n\nfunc (e *pipelineEvent) done()'),(r'type pipelineEvent struct','type eventState int\n\nconst (\n\tactive eventState = iota\n\tcancelled\n\tdropped\n)\n\ntype pipelineEvent struct'))),
('ref3m-enum-drop','C14',ren('pkg/pipeline/*.go',(r'\tcancelled bool\n\tdropped   bool\n','\tstate     eventState\n'),(r'return e\.dropped \|\| e\.cancelled','return e.state != active'),(r'e\.cancelled = true','if e.state == active {\n\t\te.state = cancelled\n\t}'),(r'e\.dropped = true','if e.state == active {\n\t\te.state = dropped\n\t}'),(r'\b(event|pipeEvt)\.dropped',r'\1.isDropped()'),(r'func \(e \*pipelineEvent\) done\(\)','func (e *pipelineEvent) isDropped() bool { return e.state == dropped }\n\nfunc (e *pipelineEvent) done()'),(r'type pipelineEvent struct','type eventState int\n\nconst (\n\tactive eventState = iota\n\tcancelled\n\tdropped\n)\n\ntype pipelineEvent struct'))),
# not handled: ('ref3-tag-opts-map','',whole(ST,('type tagOptions []string','type tagOptions map[string]bool'),('	for _, tagOpt := range t {\n		if tagOpt == opt {\n			return true\n		}\n	}\n\n	return false\n','	return t[opt]\n'),('	return res[0], res[1:]\n','	opts := tagOptions{}\n	for _, opt := range res[1:] {\n		opts[opt] = true\n	}\n	return res[0], opts\n'))),
('ref3-reflect-names','',ren('pkg/eventutil/*.go',(r'\binterfaceToValue\b','fromInterface'),(r'\breflectToValue\b','fromReflect'),(r'\breflectSliceToArray\b','fromSlice'),(r'\breflectMapToObject\b','fromMap'),(r'\breflectStructToObject\b','fromStruct'))),
('ref3-reflect-inline','',[(RE,'func ReflectValue(v interface{}) (*event.Value, error) {\n	return interfaceToValue(v)\n}\n\n',''),(RE,'func interfaceToValue(ifc interface{}) (','func interfaceToValue(v interface{}) (*event.Value, error) { return ReflectValue(v) }\n\nfunc ReflectValue(ifc interface{}) (')]),
('ref3-pb-names','',ren(B,(r'\bfromEventValueObject\b','encodeObject'),(r'\bfromEventValue\b','encodeValue'),(r'\btoEventValue\b','decodeValue'))),
('ref3-cli-names','',ren(M,(r'\bprocessInput\b','run'),(r'\bloadPipeline\b','readConfig'),(r'\blineNumber\b','n'))),
('ref3-registry-names','',ren('pkg/processor/registry/registry.go',(r'\bconstructors\b','defaultRegistry'))),
]
