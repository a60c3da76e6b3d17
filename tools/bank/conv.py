P='pkg/serialization/protobuf/protobuf.go'
M='pkg/serialization/mapinterface/mapinterface.go'
V='pkg/event/value.go'
T='pkg/event/time.go'
ITEMS=[
 # protobuf from
 ('pb-from-nil-skip','C07',[(P,'			items = append(items, fromEventValue(x))','			if x == nil {\n				continue\n			}\n			items = append(items, fromEventValue(x))')]),
 ('pb-from-uint','C07',[(P,'UnsignedInteger: v.UnsignedInteger,','UnsignedInteger: uint64(v.Integer),')]),
 ('pb-from-int-float','C07',[(P,'''			Kind: &Value_Integer{
				Integer: v.Integer,
			},''','''			Kind: &Value_Float{
				Float: float64(v.Integer),
			},''')]),
 ('pb-from-ts-micro','C07',[(P,'v.Timestamp.UnixNanos,','v.Timestamp.UnixNanos / 1000 * 1000,')]),
 ('pb-from-utf8','C07',[(P,'[]byte(v.String),','[]byte(strings.ToValidUTF8(v.String, "?")),'),(P,'	"fmt"\n','	"fmt"\n	"strings"\n')]),
 ('pb-from-trunc','C07',[(P,'for _, x := range v.Array {','for i, x := range v.Array {\n			if i == 1<<16 {\n				break\n			}')]),
 ('pb-from-null-member','C07',[(P,'		fields[k] = fromEventValue(v)','		if v == nil || v.Type != event.NullType {\n			fields[k] = fromEventValue(v)\n		}')]),
 ('pb-from-empty-key','C07',[(P,'		fields[k] = fromEventValue(v)','		if k != "" {\n			fields[k] = fromEventValue(v)\n		}')]),
 ('pb-from-lower-key','C07',[(P,'		fields[k] = fromEventValue(v)','		fields[strings.TrimSpace(k)] = fromEventValue(v)'),(P,'	"fmt"\n','	"fmt"\n	"strings"\n')]),
 ('pb-from-event-nil-object','C07',[(P,'				Object: fromEventValueObject(evt.Get(".")),','				Object: rootObject(evt),'),(P,'func fromEventValue(v','func rootObject(evt *event.Event) *ValueObject {\n	v := evt.Get(".")\n	if v == nil || len(v.Object) == 0 {\n		return nil\n	}\n	return fromEventValueObject(v)\n}\n\nfunc fromEventValue(v')]),
 ('pb-from-delete','C07',[(P,'		fields[k] = fromEventValue(v)','		fields[k] = fromEventValue(v.Object0())')]) if False else
 ('pb-from-mutate','C07',[(P,'	if v == nil {\n		v = event.NullValue\n	}\n','	if v == nil {\n		v = event.NullValue\n	}\n	if v.Type == event.FloatType && v.Float != v.Float {\n		v.Float = 0\n	}\n')]),
 # protobuf to
 ('pb-to-null-missing','C07',[(P,'	case nil, *Value_Null:\n		return event.NullValue','	case nil:\n		return nil\n	case *Value_Null:\n		return event.NullValue')]),
 ('pb-to-nokind-panic','C07',[(P,'	case nil, *Value_Null:','	case *Value_Null:')]),
 ('pb-to-array-nil','C07',[(P,'range t.Array.GetItems() {','range t.Array.Items {')]),
 ('pb-to-array-null-skip','C07',[(P,'			items = append(items, toEventValue(x))','			if v := toEventValue(x); v != event.NullValue {\n				items = append(items, v)\n			}')]),
 ('pb-to-bool','C07',[(P,'event.Bool(t.Boolean)','event.Bool(true)')]),
 ('pb-to-uint','C07',[(P,'event.UnsignedInteger(t.UnsignedInteger)','event.Integer(int64(t.UnsignedInteger))')]),
 ('pb-to-uint-small','C07',[(P,'		return event.UnsignedInteger(t.UnsignedInteger)','		if t.UnsignedInteger < 1<<63 {\n			return event.Integer(int64(t.UnsignedInteger))\n		}\n		return event.UnsignedInteger(t.UnsignedInteger)')]),
 ('pb-to-empty-object','C07',[(P,'''		return event.Object(fields)
	case *Value_String_''','''		if len(fields) == 0 {
			return event.NullValue
		}
		return event.Object(fields)
	case *Value_String_''')]),
 ('pb-to-reuse-items','C07',[(P,'			items = append(items, toEventValue(x))','			items = append([]*event.Value{toEventValue(x)}, items...)')]),
 ('pb-to-log-put','C07',[(P,'	return event.NewFromFields(fields)','	evt := event.New()\n	for k, v := range fields {\n		evt.Put(k, v)\n	}\n	return evt')]),
 ('pb-to-log-skip','C07',[(P,'		fields[k] = toEventValue(v)\n	}\n	return event.NewFromFields','		if v != nil {\n			fields[k] = toEventValue(v)\n		}\n	}\n	return event.NewFromFields')]),
 ('pb-to-log-empty','',[(P,'	if l == nil || l.Object == nil {\n		return nil\n	}\n','	if l == nil || l.Object == nil {\n		return nil\n	}\n	if len(l.Object.Fields) == 0 {\n		return event.New()\n	}\n')]),
 ('pb-refactor-object','',[(P,'''		return &Value{
			Kind: &Value_Object{
				Object: fromEventValueObject(v),
			},
		}''','''		fields := map[string]*Value{}
		for name, member := range v.Object {
			fields[name] = fromEventValue(member)
		}
		obj := &ValueObject{Fields: fields}
		return &Value{Kind: &Value_Object{Object: obj}}''')]),
 ('pb-refactor-array','',[(P,'''		items := make([]*Value, 0, len(v.Array))
		for _, x := range v.Array {
			items = append(items, fromEventValue(x))
		}
''','''		items := make([]*Value, len(v.Array))
		for i := range v.Array {
			items[i] = fromEventValue(v.Array[i])
		}
''')]),
 ('pb-refactor-helper','',[(P,'''		items := make([]*event.Value, 0, len(t.Array.GetItems()))
		for _, x := range t.Array.GetItems() {
			items = append(items, toEventValue(x))
		}
		return event.Array(items...)''','''		return toArray(t.Array.GetItems())'''),(P,'func toEventValue(','''func toArray(in []*Value) *event.Value {
	var items []*event.Value
	for i := 0; i < len(in); i++ {
		items = append(items, toEventValue(in[i]))
	}
	return event.Array(items...)
}

func toMembers(in map[string]*Value) map[string]*event.Value {
	out := make(map[string]*event.Value, len(in))
	for k, v := range in {
		out[k] = toEventValue(v)
	}
	return out
}

func toEventValue('''),(P,'''	fields := make(map[string]*event.Value, len(l.Object.Fields))
	for k, v := range l.Object.Fields {
		fields[k] = toEventValue(v)
	}
	return event.NewFromFields(fields)''','''	return event.NewFromFields(toMembers(l.Object.GetFields()))'''),(P,'''		fields := make(map[string]*event.Value, len(t.Object.GetFields()))
		for k, v := range t.Object.GetFields() {
			fields[k] = toEventValue(v)
		}
		return event.Object(fields)''','''		return event.Object(toMembers(t.Object.GetFields()))''')]),
 ('pb-refactor-nil','',[(P,'	if v == nil {\n		v = event.NullValue\n	}\n','	if v == nil {\n		return &Value{Kind: &Value_Null{}}\n	}\n')]),
 ('pb-refactor-literal','',[(P,'		return event.Float(t.Float)','		out := &event.Value{Type: event.FloatType}\n		out.Float = t.Float\n		return out'),(P,'return event.Timestamp(t.Timestamp)','return &event.Value{Type: event.TimestampType, Timestamp: event.Time{UnixNanos: t.GetTimestamp0()}}')]) if False else
 ('pb-refactor-literal','',[(P,'		return event.Float(t.Float)','		out := &event.Value{Type: event.FloatType}\n		out.Float = t.Float\n		return out'),(P,'event.Integer(t.Integer)','event.Integer(v.GetInteger())')]),
 ('pb-refactor-table','',[(P,'func fromEventValue(v *event.Value) *Value {\n	if v == nil {\n		v = event.NullValue\n	}\n','func fromEventValue(v *event.Value) *Value {\n	if v == nil || v.Type == event.NullType {\n		return nullValue()\n	}\n'),(P,'func fromEventValueObject','func nullValue() *Value {\n	return &Value{Kind: &Value_Null{Null: ValueNull_NULL_VALUE}}\n}\n\nfunc fromEventValueObject')]),
 # maps
 ('map-from-uint','C08',[(M,'return v.UnsignedInteger','return v.Integer')]),
 ('map-from-float32','C08',[(M,'return v.Float\n','return float32(v.Float)\n')]),
 ('map-from-local','C08',[(T,'.UTC()','')]),
 ('map-from-nanos','C08',[(M,'return v.Timestamp.GoTime()','return v.Timestamp.UnixNanos')]),
 ('map-from-ts-sec','C08',[(M,'return v.Timestamp.GoTime()','return v.Timestamp.GoTime().Truncate(1000)')]),
 ('map-from-null-drop','C08',[(M,'		fields[k] = fromEventValue(v)','		if x := fromEventValue(v); x != nil {\n			fields[k] = x\n		}')]),
 ('map-from-elem-drop','C08',[(M,'			items = append(items, fromEventValue(x))','			if y := fromEventValue(x); y != nil {\n				items = append(items, y)\n			}')]),
 ('map-from-shared','C08',[(M,'		return items\n','		if len(items) == 1 {\n			return items[0]\n		}\n		return items\n')]),
 ('map-from-event-nil','C08',[(M,'	return fromEventValueObject(evt.Get("."))','	m := fromEventValueObject(evt.Get("."))\n	delete(m, "@metadata")\n	return m')]),
 ('map-to-noescape','C08',[(M,'evt.Put(eventutil.EscapeKey(k), v)','evt.Put(k, v)')]),
 ('map-to-try','C08',[(M,'evt.Put(eventutil.EscapeKey(k), v)','evt.TryPut(eventutil.EscapeKey(k), v)')]) if False else
 ('map-to-ignore','C08',[(M,'		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n','		evt.Put(eventutil.EscapeKey(k), v)\n')]),
 ('map-to-null-skip','C08',[(M,'	for k, v := range fields.Object {\n','	for k, v := range fields.Object {\n		if v.Type == event.NullType {\n			continue\n		}\n')]),
 ('map-to-err-event','C08',[(M,'	if err != nil {\n		return nil, err\n	}\n\n	evt','	if err != nil {\n		return event.New(), nil\n	}\n\n	evt')]),
 ('map-to-shadow','C08',[(M,'		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n	}\n\n	return evt, nil','		if _, err := evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			break\n		}\n	}\n\n	return evt, err')]),
 ('map-refactor-from','',[(M,'''		items := make([]interface{}, 0, len(v.Array))
		for _, x := range v.Array {
			items = append(items, fromEventValue(x))
		}
		return items''','''		return fromArray(v.Array)'''),(M,'func fromEventValue(v','''func fromArray(in []*event.Value) []interface{} {
	items := make([]interface{}, len(in))
	for i, x := range in {
		items[i] = fromEventValue(x)
	}
	return items
}

func fromEventValue(v''')]),
 ('map-refactor-nil','',[(M,'	case event.NullType:\n		return nil\n	default','	default'),(M,'	if v == nil {\n		return nil\n	}\n\n	switch','	if v == nil || v.Type == event.NullType {\n		return nil\n	}\n\n	switch')]),
 ('map-refactor-to','',[(M,'''	evt := event.New()
	for k, v := range fields.Object {
		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {
			return nil, err
		}
	}

	return evt, nil''','''	evt := event.New()
	if err := putAll(evt, fields.Object); err != nil {
		return nil, err
	}
	return evt, nil'''),(M,'func FromEvent','''func putAll(evt *event.Event, members map[string]*event.Value) error {
	for name, member := range members {
		key := eventutil.EscapeKey(name)
		if _, err := evt.Put(key, member); err != nil {
			return fmt.Errorf("storing %q: %w", name, err)
		}
	}
	return nil
}

func FromEvent''')]),
 ('map-refactor-time','',[(M,'return v.Timestamp.GoTime()','return time.Unix(0, v.Timestamp.UnixNanos).UTC()'),(M,'	"fmt"\n','	"fmt"\n	"time"\n')]),
 ('map-to-newfromfields','',[(M,'''	evt := event.New()
	for k, v := range fields.Object {
		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {
			return nil, err
		}
	}

	return evt, nil''','''	return event.NewFromFields(fields.Object), nil'''),(M,'	"github.com/andrewkroh/go-sawmill/pkg/eventutil"','	"github.com/andrewkroh/go-sawmill/pkg/eventutil"')]),
]
