# More rewrites of whole functions that keep the behaviour.
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refs import fn, R, E, V, P, N, CF, A, S, RM, L, EU, RE, MI, B, ME, M, RG
C='pkg/config/config.go'; G='pkg/processor/generate/main.go'; PE='pkg/pipeline/event.go'; T='internal/proctemplate/funcs.go'
import glob
def find(sig):
    for f in glob.glob('/repo/**/*.go', recursive=True):
        if '_test.go' in f: continue
        if sig in open(f).read(): return f[len('/repo/'):]
GEN=find('func hasProcessFunc('); DOC=find('func goTypeToYAMLType(')
ITEMS=[
('ref2-keypath-if','',R(E,'func keyToPath(','''
func keyToPath(key string) []string {
	var (
		elems   []string
		current []byte
		escaped bool
	)
	flush := func() {
		if len(current) == 0 {
			return
		}
		elems = append(elems, string(current))
		current = current[:0]
	}
	for i := 0; i < len(key); i++ {
		c := key[i]
		if c == '\\\\' {
			escaped = true
			continue
		}
		if c == '.' && !escaped {
			flush()
		} else {
			current = append(current, c)
		}
		escaped = false
	}
	flush()
	return elems
}
''')),
('ref2-keypath-builder','',R(E,'func keyToPath(','''
func keyToPath(key string) []string {
	var paths []string
	var elem strings.Builder
	var escape bool
	for i := 0; i < len(key); i++ {
		c := key[i]
		switch {
		case c == '\\\\':
			escape = true
			continue
		case c == '.' && !escape:
			if elem.Len() > 0 {
				paths = append(paths, elem.String())
				elem.Reset()
			}
		default:
			elem.WriteByte(c)
		}
		escape = false
	}

	if elem.Len() > 0 {
		paths = append(paths, elem.String())
	}

	return paths
}
''')),
('ref2-pathstring','',R(E,'func pathString(','''
func pathString(path []string) string {
	return "/" + strings.Join(path, "/")
}
''')),
('ref2-event-put-early','',R(E,'func (e *Event) put(','''
func (e *Event) put(path []string, val *Value, overwrite bool) (*Value, error) {
	n := len(path)
	if n == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
	if val == nil {
		return nil, nil
	}

	if e.fields == nil {
		e.init()
	}

	old := e.get(path)
	if !overwrite && old != nil {
		return old, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)
	}

	m := e.fields
	for i := 0; i < n-1; i++ {
		inner, found := m[path[i]]
		if !found {
			inner = Object(map[string]*Value{})
			m[path[i]] = inner
		} else if inner == nil || inner.Type != ObjectType {
			return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
		}
		if inner.Object == nil {
			inner.Object = map[string]*Value{}
		}
		m = inner.Object
	}
	m[path[n-1]] = val
	return old, nil
}
''')),
('ref2-event-put-split','',R(E,'func (e *Event) put(','''
func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err error) {
	if len(path) == 0 {
		return nil, fmt.Errorf("event put failed: %w", ErrEmptyKey)
	}
	if val == nil {
		return nil, nil
	}

	if e.fields == nil {
		e.init()
	}

	old = e.get(path)
	if old != nil && !overwrite {
		return old, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)
	}

	last := len(path) - 1
	m, err := e.parentOf(path[:last])
	if err != nil {
		return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), err)
	}
	m[path[last]] = val
	return old, nil
}

func (e *Event) parentOf(path []string) (map[string]*Value, error) {
	m := e.fields
	for _, key := range path {
		inner, found := m[key]
		switch {
		case !found:
			inner = Object(map[string]*Value{})
			m[key] = inner
		case inner == nil || inner.Type != ObjectType:
			return nil, ErrTargetKeyNotObject
		case inner.Object == nil:
			inner.Object = map[string]*Value{}
		}
		m = inner.Object
	}
	return m, nil
}
''')),
('ref2-event-get-while','',R(E,'func (e *Event) get(','''
func (e *Event) get(path []string) *Value {
	if len(e.fields) == 0 {
		return nil
	}
	if len(path) == 0 {
		// Return root object.
		return Object(e.fields)
	}

	m := e.fields
	for len(path) > 1 {
		inner := m[path[0]]
		if inner == nil || len(inner.Object) == 0 {
			return nil
		}
		m = inner.Object
		path = path[1:]
	}

	return m[path[0]]
}
''')),
('ref2-event-delete-split','',R(E,'func (e *Event) delete(','''
func (e *Event) delete(path []string) *Value {
	if len(e.fields) == 0 || len(path) == 0 {
		return nil
	}

	parents, key := path[:len(path)-1], path[len(path)-1]
	if parent := e.get(parents); parent != nil {
		v := parent.Object[key]
		delete(parent.Object, key)
		return v
	}
	return nil
}
''')),
('ref2-event-delete-found','',R(E,'func (e *Event) delete(','''
func (e *Event) delete(path []string) (deleted *Value) {
	if len(path) == 0 || len(e.fields) == 0 {
		return nil
	}

	last := len(path) - 1
	parent := e.get(path[:last])
	if parent == nil {
		return nil
	}

	deleted, found := parent.Object[path[last]]
	if found {
		delete(parent.Object, path[last])
	}
	return deleted
}
''')),
('ref2-event-unmarshal','',R(E,'func (e *Event) UnmarshalJSON(','''
func (e *Event) UnmarshalJSON(data []byte) error {
	var fields map[string]*Value
	if err := json.Unmarshal(data, &fields); err != nil {
		return err
	}
	replaceNil(fields)
	e.fields = fields
	return nil
}

func replaceNil(m map[string]*Value) {
	for k := range m {
		if m[k] == nil {
			m[k] = NullValue
		}
	}
}
''')),
('ref2-value-unmarshal-helper','',R(V,'func (v *Value) UnmarshalJSON(','''
func (v *Value) UnmarshalJSON(data []byte) error {
	tok, err := json.NewDecoder(bytes.NewReader(data)).Token()
	if err != nil {
		return err
	}

	var out Value
	if tok == json.Delim('[') {
		out.Type = ArrayType
		if err := json.Unmarshal(data, &out.Array); err != nil {
			return err
		}
		for i := range out.Array {
			if out.Array[i] == nil {
				out.Array[i] = NullValue
			}
		}
	} else if tok == json.Delim('{') {
		out.Type = ObjectType
		if err := json.Unmarshal(data, &out.Object); err != nil {
			return err
		}
		for k := range out.Object {
			if out.Object[k] == nil {
				out.Object[k] = NullValue
			}
		}
	} else {
		var raw interface{}
		if err := json.Unmarshal(data, &raw); err != nil {
			return err
		}
		switch x := raw.(type) {
		case string:
			out = Value{Type: StringType, String: x}
		case float64:
			out = Value{Type: FloatType, Float: x}
		case bool:
			out = Value{Type: BoolType, Bool: x}
		case nil:
			out = Value{Type: NullType}
		default:
			return fmt.Errorf("unhandled type %T for value %q", x, string(data))
		}
	}

	*v = out
	return nil
}
''')),
('ref2-value-marshal','',R(V,'func (v *Value) MarshalJSON(','''
func (v *Value) MarshalJSON() ([]byte, error) {
	var content interface{}
	switch v.Type {
	case ArrayType:
		if v.Array == nil {
			return []byte("[]"), nil
		}
		content = v.Array
	case ObjectType:
		if v.Object == nil {
			return []byte("{}"), nil
		}
		content = v.Object
	default:
		content = v.value()
	}
	return json.Marshal(content)
}
''')),
('ref2-clone-index','',R(V,'func (v *Value) Clone(','''
func (v *Value) Clone() *Value {
	if v == nil {
		return nil
	}

	c := new(Value)
	*c = *v
	if v.Array != nil {
		c.Array = make([]*Value, len(v.Array))
		for i := range v.Array {
			c.Array[i] = v.Array[i].Clone()
		}
	}
	if v.Object != nil {
		c.Object = make(map[string]*Value)
		for k := range v.Object {
			c.Object[k] = v.Object[k].Clone()
		}
	}
	return c
}
''')),
('ref2-format','',R(V,'func (v *Value) Format(','''
func (v *Value) Format(f fmt.State, verb rune) {
	fmt.Fprintf(f, "%s:%v", v.Type, v.value())
}
''')),
('ref2-typestring','',R(V,'func (vt ValueType) String(','''
func (vt ValueType) String() string {
	name, ok := valueTypeNames[vt]
	if !ok {
		name = "unknown_type"
	}
	return name
}
''')),
('ref2-reflect-ptr-loop','',R(RE,'func reflectToValue(','''
func reflectToValue(rv reflect.Value) (*event.Value, error) {
	typ := rv.Type()
	kind := typ.Kind()
	indirect := kind == reflect.Ptr || kind == reflect.Interface

	if indirect && rv.IsNil() {
		return event.NullValue, nil
	}

	if typ.Implements(errorInterface) {
		return event.String(rv.Interface().(error).Error()), nil
	}

	if indirect {
		return reflectToValue(rv.Elem())
	}

	switch kind {
	case reflect.Bool:
		return event.Bool(rv.Bool()), nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return event.Integer(rv.Int()), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return event.UnsignedInteger(rv.Uint()), nil
	case reflect.Float32, reflect.Float64:
		return event.Float(rv.Float()), nil
	case reflect.String:
		return event.String(rv.String()), nil
	case reflect.Array, reflect.Slice:
		return reflectSliceToArray(rv)
	case reflect.Map:
		return reflectMapToObject(rv)
	case reflect.Struct:
		if rv.CanConvert(timeInterface) {
			return interfaceToValue(rv.Convert(timeInterface).Interface())
		}
		return reflectStructToObject(rv)
	}
	return nil, &UnsupportedTypeError{Type: typ}
}
''')),
('ref2-reflect-slice','',R(RE,'func reflectSliceToArray(','''
func reflectSliceToArray(rv reflect.Value) (*event.Value, error) {
	values := make([]*event.Value, rv.Len())
	for i := range values {
		v, err := interfaceToValue(rv.Index(i).Interface())
		if err != nil {
			return nil, err
		}
		values[i] = v
	}

	return event.Array(values...), nil
}
''')),
('refl-mapkeys-nan','C08 C09 C10',R(RE,'func reflectMapToObject(','''
func reflectMapToObject(rv reflect.Value) (*event.Value, error) {
	obj := make(map[string]*event.Value, rv.Len())

	for _, k := range rv.MapKeys() {
		val, err := interfaceToValue(rv.MapIndex(k).Interface())
		if err != nil {
			return nil, err
		}
		obj[fmt.Sprintf("%v", k)] = val
	}

	return event.Object(obj), nil
}
''')),
('ref2-reflect-struct-helper','',R(RE,'func reflectStructToObject(','''
func reflectStructToObject(rv reflect.Value) (*event.Value, error) {
	fields := structFields(rv)
	obj := make(map[string]*event.Value, len(fields))

	for _, field := range fields {
		name, opts := fieldName(field)

		val := rv.FieldByName(field.Name)
		if opts.Has("omitempty") && isZeroField(val) {
			continue
		}

		finalVal, err := reflectToValue(val)
		if err != nil {
			return nil, err
		}

		if opts.Has("string") && finalVal.Type != event.NullType {
			if s, ok := val.Interface().(fmt.Stringer); ok {
				finalVal = event.String(s.String())
			}
		}

		obj[name] = finalVal
	}

	return event.Object(obj), nil
}

func fieldName(field reflect.StructField) (string, tagOptions) {
	name, opts := parseTag(field.Tag.Get(tagName))
	if name == "" {
		name = strings.ToLower(field.Name)
	}
	return name, opts
}

func isZeroField(v reflect.Value) bool {
	return reflect.DeepEqual(v.Interface(), reflect.Zero(v.Type()).Interface())
}
''')),
('ref2-struct-fields-once','',R(RE,'func structFields(','''
func structFields(rv reflect.Value) []reflect.StructField {
	t := rv.Type()
	n := t.NumField()
	fields := make([]reflect.StructField, 0, n)
	for i := 0; i < n; i++ {
		field := t.Field(i)
		exported := field.PkgPath == ""
		if exported && field.Tag.Get(tagName) != "-" {
			fields = append(fields, field)
		}
	}
	return fields
}
''')),
('ref2-parsetag','',R('pkg/eventutil/structtag.go','func parseTag(','''
func parseTag(tag string) (string, tagOptions) {
	parts := strings.Split(tag, ",")
	name, opts := parts[0], parts[1:]
	return name, tagOptions(opts)
}
''')),
('ref2-append-util','',R(EU,'func Append(','''
func Append(evt *event.Event, key string, item *event.Value) error {
	if item == nil {
		return nil
	}

	target := asArray(evt.Get(key))
	if item.Type == event.ArrayType {
		target.Array = append(target.Array, item.Array...)
	} else {
		target.Array = append(target.Array, item)
	}

	_, err := evt.Put(key, target)
	return err
}

func asArray(v *event.Value) *event.Value {
	switch {
	case v == nil:
		return event.Array()
	case v.Type == event.ArrayType:
		return v
	default:
		return event.Array(v)
	}
}
''')),
('ref2-escape','',R(EU,'func EscapeKey(','''
func EscapeKey(key string) string {
	if !strings.Contains(key, ".") {
		return key
	}
	return strings.Replace(key, ".", "\\\\.", -1)
}
''')),
('ref2-escape-loop','',R(EU,'func EscapeKey(','''
func EscapeKey(key string) string {
	return strings.Join(strings.Split(key, "."), `\\.`)
}
''')),
('ref2-mi-toevent','',R(MI,'func ToEvent(','''
func ToEvent(m map[string]interface{}) (*event.Event, error) {
	value, err := eventutil.ReflectValue(m)
	if err != nil {
		return nil, err
	}

	evt := event.New()
	for key, field := range value.Object {
		_, err := evt.Put(eventutil.EscapeKey(key), field)
		if err != nil {
			return nil, err
		}
	}
	return evt, nil
}
''')),
('ref2-mi-fromvalue','',R(MI,'func fromEventValue(','''
func fromEventValue(v *event.Value) interface{} {
	if v == nil || v.Type == event.NullType {
		return nil
	}

	switch v.Type {
	case event.ArrayType:
		return fromEventValueArray(v.Array)
	case event.ObjectType:
		return fromEventValueObject(v)
	case event.BoolType:
		return v.Bool
	case event.FloatType:
		return v.Float
	case event.IntegerType:
		return v.Integer
	case event.StringType:
		return v.String
	case event.TimestampType:
		return v.Timestamp.GoTime()
	case event.UnsignedIntegerType:
		return v.UnsignedInteger
	}
	panic(fmt.Errorf("unhandled value type <%v>", v.Type))
}

func fromEventValueArray(values []*event.Value) []interface{} {
	items := make([]interface{}, len(values))
	for i, v := range values {
		items[i] = fromEventValue(v)
	}
	return items
}
''')),
('ref2-pb-fromvalue','',R(B,'func fromEventValue(','''
func fromEventValue(v *event.Value) *Value {
	if v == nil || v.Type == event.NullType {
		return &Value{Kind: &Value_Null{Null: ValueNull_NULL_VALUE}}
	}

	out := &Value{}
	switch v.Type {
	case event.ArrayType:
		items := make([]*Value, len(v.Array))
		for i := range v.Array {
			items[i] = fromEventValue(v.Array[i])
		}
		out.Kind = &Value_Array{Array: &ValueArray{Items: items}}
	case event.BoolType:
		out.Kind = &Value_Boolean{Boolean: v.Bool}
	case event.FloatType:
		out.Kind = &Value_Float{Float: v.Float}
	case event.IntegerType:
		out.Kind = &Value_Integer{Integer: v.Integer}
	case event.ObjectType:
		out.Kind = &Value_Object{Object: fromEventValueObject(v)}
	case event.StringType:
		out.Kind = &Value_String_{String_: []byte(v.String)}
	case event.TimestampType:
		out.Kind = &Value_Timestamp{Timestamp: v.Timestamp.UnixNanos}
	case event.UnsignedIntegerType:
		out.Kind = &Value_UnsignedInteger{UnsignedInteger: v.UnsignedInteger}
	default:
		panic(fmt.Errorf("unhandled value type <%v>", v.Type))
	}
	return out
}
''')),
('ref2-pb-tofields','',R(B,'func ToLogEvent(','''
func ToLogEvent(l *Log) *event.Event {
	if l == nil || l.Object == nil {
		return nil
	}
	return event.NewFromFields(toEventFields(l.Object))
}

func toEventFields(obj *ValueObject) map[string]*event.Value {
	in := obj.GetFields()
	fields := make(map[string]*event.Value, len(in))
	for k, v := range in {
		fields[k] = toEventValue(v)
	}
	return fields
}
''',('		fields := make(map[string]*event.Value, len(t.Object.GetFields()))\n		for k, v := range t.Object.GetFields() {\n			fields[k] = toEventValue(v)\n		}\n		return event.Object(fields)\n','		return event.Object(toEventFields(t.Object))\n'))),
('ref2-pb-fromobject','',R(B,'func fromEventValueObject(','''
func fromEventValueObject(v *event.Value) *ValueObject {
	obj := &ValueObject{}
	if v == nil {
		return obj
	}

	if v.Type != event.ObjectType {
		panic("fromEventValueObject can only be used with type=ObjectType")
	}

	obj.Fields = make(map[string]*Value, len(v.Object))
	for k, item := range v.Object {
		obj.Fields[k] = fromEventValue(item)
	}
	return obj
}
''')),
('ref2-cli-loop','',R(M,'func processInput(','''
func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)

	scanner := bufio.NewScanner(in)
	for lineNumber := uint64(1); scanner.Scan(); lineNumber++ {
		if line := strings.TrimSpace(scanner.Text()); line != "" {
			processLine(enc, pipe, lineNumber, line)
		}
	}
	if err := scanner.Err(); err != nil {
		return fmt.Errorf("failed reading from input: %w", err)
	}
	return nil
}

func processLine(enc *json.Encoder, pipe *pipeline.Pipeline, lineNumber uint64, line string) {
	evt := event.New()
	evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))
	evt.Put("event.original", event.String(line))

	result, err := pipe.Process(evt)
	switch {
	case err != nil:
		log.Printf("Error processing line %d: %v", lineNumber, err)
	case result != nil:
		if err := enc.Encode(result); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
		}
	}
}
''')),
('ref2-cli-load','',R(M,'func loadPipeline(','''
func loadPipeline(path string) (*pipeline.Config, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	var c *pipeline.Config
	err = yaml.NewDecoder(f).Decode(&c)
	if err != nil {
		c = nil
	}
	return c, err
}
''')),
('ref2-cli-main-run','',[(M,'	c, err := loadPipeline(pipelineFile)\n	if err != nil {\n		log.Fatal("Error:", err)\n	}\n\n	p, err := pipeline.New(c)\n	if err != nil {\n		log.Fatal("Error:", err)\n	}\n','	p, err := openPipeline(pipelineFile)\n	if err != nil {\n		log.Fatal("Error:", err)\n	}\n'),(M,'func loadPipeline(','func openPipeline(path string) (*pipeline.Pipeline, error) {\n	c, err := loadPipeline(path)\n	if err != nil {\n		return nil, err\n	}\n	return pipeline.New(c)\n}\n\nfunc loadPipeline(')]),
('ref2-cfg-unpack','',R(C,'func (v *EventValue) Unpack(','''
func (v *EventValue) Unpack(ifc interface{}) error {
	value, err := eventutil.ReflectValue(ifc)
	if err == nil {
		*v = EventValue(*value)
	}
	return err
}
''')),
('ref2-cfg-unmarshal','',R(CF,'func (c *ProcessorOptionConfig) UnmarshalJSON(','''
func (c *ProcessorOptionConfig) UnmarshalJSON(data []byte) error {
	type plain ProcessorOptionConfig
	if err := json.Unmarshal(data, (*plain)(c)); err != nil {
		return err
	}

	var raw map[string]interface{}
	if err := json.Unmarshal(data, &raw); err != nil {
		return err
	}
	for _, name := range []string{"id", "if", "on_failure"} {
		delete(raw, name)
	}
	if len(raw) == 0 {
		return nil
	}

	c.Config = raw
	return nil
}
''')),
('ref2-ignores','',R(N,'func ignores(','''
func ignores(proc interface{}) (ignoreMissing, ignoreFailure *bool, err error) {
	m := reflect.ValueOf(proc).MethodByName("Config")
	if !m.IsValid() {
		return nil, nil, errors.New("error Config() method not found")
	}

	typ := m.Type()
	switch {
	case typ.NumOut() != 1:
		return nil, nil, errors.New("error Config() must return one value")
	case typ.NumIn() != 0:
		return nil, nil, errors.New("error Config() must not accept arguments")
	}

	out := m.Call(nil)[0]
	if out.Kind() != reflect.Struct {
		return nil, nil, errors.New("error Config() must return a struct")
	}
	return boolField(out, "IgnoreMissing"), boolField(out, "IgnoreFailure"), nil
}

func boolField(v reflect.Value, name string) *bool {
	f := fieldByName(v, name)
	if !f.IsValid() || f.Kind() != reflect.Bool {
		return nil
	}
	b := f.Bool()
	return &b
}
''')),
('ref2-newproc','',[(N,'	p := &pipelineProcessor{\n','	counter := func(name, help string) prometheus.Counter {\n		return prometheus.NewCounter(prometheus.CounterOpts{\n			Namespace:   "es",\n			Name:        name,\n			Help:        help,\n			ConstLabels: labels,\n		})\n	}\n	p := &pipelineProcessor{\n')]+[(N,'''		%s: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_%s_total",
			Help:        "%s",
			ConstLabels: labels,
		}),
'''%(a,b,c),'		%s: counter("component_%s_total", "%s"),\n'%(a,b,c)) for a,b,c in [('metricDiscardedEventsTotal','discarded_events','Total number of events dropped by component.'),('metricErrorsTotal','errors','Total number of errors by component.'),('metricEventsInTotal','received_events','Total number of events received by component.'),('metricEventsOutTotal','sent_events','Total number of events sent by component.')]]),
('ref2-node-helpers','',R(N,'func (p *pipelineProcessor) Process(','''
func (p *pipelineProcessor) Process(event *pipelineEvent) error {
	p.metricEventsInTotal.Inc()

	err := p.proc.Process(event)
	if event.dropped {
		return p.discarded()
	}
	if err == nil {
		return p.sent()
	}
	if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
		return p.sent()
	}
	if len(p.OnFailure) > 0 && !event.done() {
		err = p.handleFailure(event)
		if event.dropped {
			return p.discarded()
		}
	}
	if err == nil || p.IgnoreFailure {
		return p.sent()
	}
	p.metricErrorsTotal.Inc()
	return err
}

func (p *pipelineProcessor) handleFailure(event *pipelineEvent) error {
	for _, proc := range p.OnFailure {
		if err := proc.Process(event); err != nil {
			return err
		}
		if event.done() {
			return nil
		}
	}
	return nil
}

func (p *pipelineProcessor) discarded() error {
	p.metricDiscardedEventsTotal.Inc()
	return nil
}

func (p *pipelineProcessor) sent() error {
	p.metricEventsOutTotal.Inc()
	return nil
}
''')),
('ref2-node-outcome','',R(N,'func (p *pipelineProcessor) Process(','''
func (p *pipelineProcessor) Process(event *pipelineEvent) (err error) {
	p.metricEventsInTotal.Inc()

	out := p.metricEventsOutTotal
	err = p.proc.Process(event)
	if err != nil && !event.dropped {
		missing := p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{})
		if !missing && !event.done() {
			for i := range p.OnFailure {
				err = p.OnFailure[i].Process(event)
				if err != nil || event.done() {
					break
				}
			}
		}
		if missing || p.IgnoreFailure {
			err = nil
		}
	}

	switch {
	case event.dropped:
		err = nil
		out = p.metricDiscardedEventsTotal
	case err != nil:
		out = p.metricErrorsTotal
	}
	out.Inc()
	return err
}
''')),
('ref2-pipe-process-flat','',R(P,'func (pipe *Pipeline) Process(','''
func (pipe *Pipeline) Process(evt *event.Event) (*event.Event, error) {
	switch {
	case pipe == nil:
		return nil, errors.New("no pipeline is loaded")
	case evt == nil:
		return nil, errors.New("cannot process a nil event")
	}

	var wrapped pipelineEvent
	wrapped.data = evt
	err := pipe.process(&wrapped)
	if err != nil || wrapped.dropped {
		return nil, err
	}
	return wrapped.data, nil
}
''')),
('ref2-metrics-rec','',R(P,'func (pipe *Pipeline) Metrics(','''
func (pipe *Pipeline) Metrics() []prometheus.Collector {
	metrics := collect(nil, pipe.processors)
	return collect(metrics, pipe.onFailure)
}

func collect(out []prometheus.Collector, procs []*pipelineProcessor) []prometheus.Collector {
	for _, proc := range procs {
		out = append(out,
			proc.metricDiscardedEventsTotal,
			proc.metricErrorsTotal,
			proc.metricEventsInTotal,
			proc.metricEventsOutTotal,
		)
		out = collect(out, proc.OnFailure)
	}
	return out
}
''')),
('ref2-getproc-switch','',R(CF,'func (c ProcessorConfig) getProcessor(','''
func (c ProcessorConfig) getProcessor() (name string, opts *ProcessorOptionConfig, err error) {
	switch n := len(c); {
	case n == 0:
		return "", nil, errors.New("processor cannot be empty")
	case n > 1:
		return "", nil, errors.New("only one processor must be specified")
	}
	for name, opts = range c {
		break
	}
	if opts == nil {
		opts = new(ProcessorOptionConfig)
	}
	return name, opts, nil
}
''')),
('ref2-remove-range','',R(RM,'func (p *Remove) Process(','''
func (p *Remove) Process(evt processor.Event) error {
	for _, field := range p.config.Fields {
		deleted := evt.Delete(field)
		if deleted != nil || p.config.IgnoreMissing {
			continue
		}
		return processor.ErrorKeyMissing{Key: field}
	}
	return nil
}
''')),
('ref2-set-resolve','',R(S,'func (p *Set) Process(','''
func (p *Set) Process(evt processor.Event) error {
	v, err := p.resolve(evt)
	if err != nil {
		return err
	}
	_, err = evt.Put(p.config.TargetField, v)
	return err
}

func (p *Set) resolve(evt processor.Event) (*event.Value, error) {
	static := event.Value(p.config.Value)
	if static.Type != event.NullType {
		return static.Clone(), nil
	}
	if p.config.CopyFrom == "" {
		return nil, nil
	}
	src := evt.Get(p.config.CopyFrom)
	if src == nil {
		return nil, processor.ErrorKeyMissing{Key: p.config.CopyFrom}
	}
	return src.Clone(), nil
}
''')),
('ref2-lower-switch','',R(L,'func (p *Lowercase) Process(','''
func (p *Lowercase) Process(evt processor.Event) error {
	source, target := p.config.Field, p.config.TargetField
	if target == "" {
		target = source
	}

	v := evt.Get(source)
	switch {
	case v == nil, v.Type == event.NullType:
		return processor.ErrorKeyMissing{Key: source}
	case v.Type != event.StringType:
		return errors.New("value to lowercase is not a string")
	}

	_, err := evt.Put(target, event.String(strings.ToLower(v.String)))
	return err
}
''')),
('ref2-gen-func','',[(GEN,fn(GEN,'func hasProcessFunc('),'''func hasProcessFunc(goFile string) (bool, error) {
	f, err := parser.ParseFile(token.NewFileSet(), goFile, nil, parser.ParseComments)
	if err != nil {
		return false, err
	}

	for _, decl := range f.Decls {
		if fn, ok := decl.(*ast.FuncDecl); ok && fn.Name.Name == "Process" {
			return true, nil
		}
	}
	return false, nil
}
''')]),
('ref2-gen-flag','',[(GEN,'			if err == nil && !hasProcess {\n				templateData.IncludeProcessFunc = false\n			}\n','			templateData.IncludeProcessFunc = err != nil || hasProcess\n')]),
('ref2-doc-map','',[(DOC,fn(DOC,'func goTypeToYAMLType('),'''var yamlTypes = map[string]string{
	"github.com/andrewkroh/go-sawmill/pkg/config.EventValue": "any",
	"map[string]interface{}":                                 "map",
}

func goTypeToYAMLType(in string) string {
	if t, ok := yamlTypes[in]; ok {
		return t
	}
	return in
}
''')]),
('ref2-tmpl-abbrev','',R(T,'func goTypeName(','''
func goTypeName(name string) string {
	words := strings.FieldsFunc(name, isSeparator)
	for i, w := range words {
		words[i] = strings.Title(abbreviations(w))
	}
	return strings.Join(words, "")
}
''')),
('ref2-tmpl-imports','',R(T,'func configTypeImports(','''
func configTypeImports(opts []ConfigurationOption) []string {
	seen := map[string]bool{}
	list := []string{}
	for _, opt := range opts {
		idx := strings.LastIndex(opt.Type, ".")
		if idx < 0 {
			continue
		}
		pkg := opt.Type[:idx]
		if !seen[pkg] {
			seen[pkg] = true
			list = append(list, pkg)
		}
	}
	return list
}
''')),
('ref2-tmpl-defaults','',R(T,'func selectDefaults(','''
func selectDefaults(in []ConfigurationOption) []ConfigurationOption {
	out := in[:0:0]
	for i := range in {
		if in[i].Default == nil {
			continue
		}
		out = append(out, in[i])
	}
	return out
}
''')),
('ref2-event-reset','',[(PE,'	return e.dropped || e.cancelled\n','	if e.dropped {\n		return true\n	}\n	return e.cancelled\n')]),
]
