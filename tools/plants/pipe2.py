import runpy,os
K=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'core.py'))
PIPE,EV,E,P,N,C=K['PIPE'],K['EV'],K['E'],K['P'],K['N'],K['C']
V='pkg/pipeline/event.go'
TWO=PIPE.replace('func TestPlantedDemo','''type otherProc struct {
	c  demoConf
	do func(processor.Event) error
}

func (d *otherProc) Config() demoConf                { return d.c }
func (d *otherProc) Process(e processor.Event) error { return d.do(e) }

func other(name string, do func(processor.Event) error) {
	registry.MustRegister(name, func(c demoConf) (*otherProc, error) { return &otherProc{c, do}, nil })
}

func TestPlantedDemo''')
ITEMS=[
 dict(id='c11-cancel-error', property='C11', pkg='pkg/pipeline', edits=[(P,'if err := pipe.process(pipeEvt); err != nil {','if err := pipe.process(pipeEvt); err != nil && !pipeEvt.cancelled {')],
  demo=TWO+'''
	other("stop", func(e processor.Event) error { e.Cancel(); return errors.New("failed") })
	_, out, err, _ := run(t, `{"id":"x","processors":[{"stop":{}}]}`)
	if err == nil || out != nil {
		t.Fatalf("event %v, error %v", out, err)
	}
}
''', needs='a processor that cancels the event and then fails', breaks='the failure is not reported: the event is returned as if it had been processed'),
 dict(id='c11-drop-after-cancel', property='C11', pkg='pkg/pipeline', edits=[(V,'	e.dropped = true','	e.dropped = !e.cancelled')],
  demo=TWO+'''
	other("both", func(e processor.Event) error { e.Cancel(); e.Drop(); return nil })
	_, out, err, _ := run(t, `{"id":"x","processors":[{"both":{}}]}`)
	if err != nil || out != nil {
		t.Fatalf("event %v, error %v", out, err)
	}
}
''', needs='a processor that cancels and drops the event', breaks='the dropped event is returned'),
 dict(id='c14-cancel-toggle', property='C14', pkg='pkg/pipeline', edits=[(V,'	e.cancelled = true','	e.cancelled = !e.cancelled')],
  demo=TWO+'''
	other("twice", func(e processor.Event) error { e.Cancel(); e.Cancel(); return nil })
	_, _, _, tr := run(t, `{"id":"x","processors":[{"twice":{}},{"demo":{"name":"q"}}]}`)
	if tr != "" {
		t.Fatalf("ran %q after Cancel", tr)
	}
}
''', needs='a processor that calls Cancel twice', breaks='the second Cancel revokes the first: later processors run'),
 dict(id='c13-wrapped-missing', property='C13', pkg='pkg/pipeline', edits=[(N,'if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {','if _, missing := err.(processor.ErrorKeyMissing); missing && p.IgnoreMissing {'),(N,'	"errors"\n','')],
  demo=TWO+'''
	other("wraps", func(e processor.Event) error { return fmt.Errorf("lookup: %w", processor.ErrorKeyMissing{Key: "k"}) })
	_, out, err, _ := run(t, `{"id":"x","processors":[{"wraps":{"ignore_missing":true}}]}`)
	if err != nil || out == nil {
		t.Fatalf("event %v, error %v", out, err)
	}
}
'''.replace('','') , needs='a missing-key error that a processor has wrapped, with ignore_missing', breaks='it is not ignored'),
 dict(id='c15-ignored-error-counted', property='C15', pkg='pkg/pipeline', edits=[(N,'''		// Could not recover from the error or ignore it.
		p.metricErrorsTotal.Inc()
''','''		// Could not recover from the error or ignore it.
'''),(N,'''		// Ignore Failure
''','''		p.metricErrorsTotal.Inc()

		// Ignore Failure
''')],
  demo=PIPE+'''
	p, _, _, _ := run(t, `{"id":"x","processors":[{"demo":{"name":"p","mode":"fail","ignore_failure":true}}]}`)
	m := counters(t, p)
	if m["errors_total x.processors[0].demo"] != 0 || m["sent_events_total x.processors[0].demo"] != 1 {
		t.Fatal(m)
	}
}
''', needs='a failure that is ignored', breaks='the event is counted both as failed and as sent'),
 dict(id='c16-handlers-of-handlers', property='C16', pkg='pkg/pipeline', edits=[(P,'''	for _, proc := range proc.OnFailure {
		visitProcessor(visit, proc)''','''	for _, proc := range proc.OnFailure {
		visit(proc)''')],
  demo=PIPE+'''
	p, _, _, _ := run(t, `{"id":"x","processors":[{"demo":{"name":"p","on_failure":[{"demo":{"name":"h","on_failure":[{"demo":{"name":"i"}}]}}]}}]}`)
	if m := counters(t, p); len(m) != 12 {
		t.Fatal(m)
	}
}
''', needs='a handler that has handlers itself', breaks='the counters of the inner handlers are not exposed'),
 dict(id='c17-empty-entry', property='C17', pkg='pkg/pipeline', edits=[(N,'''		procType, options, err := processorConfig.getProcessor()
		if err != nil {
			return nil, err
		}
''','''		if len(processorConfig) == 0 {
			continue
		}
		procType, options, err := processorConfig.getProcessor()
		if err != nil {
			return nil, err
		}
'''),(N,'	for i, processorConfig := range procConfigs {','	for i := range procConfigs {\n		processorConfig := procConfigs[i]')],
  demo=PIPE+'''
	if _, err := build(`{"id":"x","processors":[{"demo":{"name":"p"}},{}]}`); err == nil {
		t.Fatal("an entry without a processor was accepted")
	}
	_ = run
}
''', needs='an entry of a processor list that is empty', breaks='the entry is left out instead of rejected'),
 dict(id='c17-second-error', property='C17', pkg='pkg/pipeline', edits=[(P,'''	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)
	if err != nil {''','''	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)
	if err != nil && len(processors) == 0 {''')],
  demo=PIPE+'''
	if _, err := build(`{"id":"x","processors":[{"demo":{"name":"p"}}],"on_failure":[{"demo":{"mode":"bad"}}]}`); err == nil {
		t.Fatal("a handler that cannot be built was accepted")
	}
	_ = run
}
''', needs='a pipeline with processors whose on_failure cannot be built', breaks='the pipeline is built without its handlers'),
 dict(id='c02-literal-first', property='C02', pkg='pkg/event', edits=[(E,'	return e.get(keyToPath(key))','	if v, found := e.fields[key]; found {\n		return v\n	}\n	return e.get(keyToPath(key))')],
  demo=EV+'''
	e := New()
	e.Put(`a\\\\.b`, String("literal"))
	e.Put("a.b", String("nested"))
	if v := e.Get("a.b"); v == nil || v.String != "nested" {
		t.Fatal(v)
	}
}
'''.replace('\\\\\\\\','\\\\'), needs='an event with a member whose name has a dot and a path that reads the same', breaks='Get returns the member of the other name'),
 dict(id='c03-empty-key', property='C03', pkg='pkg/event', edits=[(E,'''	if len(path) == 0 || len(e.fields) == 0 {
		return nil
	}
''','''	if len(e.fields) == 0 {
		return nil
	}
	if len(path) == 0 {
		deleted = Object(e.fields)
		e.fields = nil
		return deleted
	}
''')],
  demo=EV+'''
	e := New()
	e.Put("a", String("b"))
	e.Delete("")
	e.Delete("..")
	if e.Get("a") == nil {
		t.Fatal("the event is empty")
	}
}
''', needs='a key that addresses nothing (empty, or dots only)', breaks='the whole event is cleared'),
 dict(id='c25-covered-fields', property='C25', pkg='pkg/processor/remove', edits=[('pkg/processor/remove/remove.go','	return &Remove{config: config}, nil','''	fields := config.Fields[:0:0]
	for i, field := range config.Fields {
		covered := false
		for j, parent := range config.Fields {
			covered = covered || i != j && strings.HasPrefix(field, parent)
		}
		if !covered {
			fields = append(fields, field)
		}
	}
	config.Fields = fields
	return &Remove{config: config}, nil'''),('pkg/processor/remove/remove.go','import (\n','import (\n	"strings"\n\n')],
  demo='''
package remove

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

type evt struct{ *event.Event }

func (evt) Cancel() {}
func (evt) Drop()   {}

func TestPlantedDemo(t *testing.T) {
	e := event.New()
	e.Put("host", event.String("a"))
	e.Put("hostname", event.String("b"))
	p, err := New(Config{Fields: []string{"host", "hostname"}})
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Process(evt{e}); err != nil {
		t.Fatal(err)
	}
	if e.Get("hostname") != nil {
		t.Fatal("hostname is still there")
	}
}
''', needs='two fields of which one begins with the name of the other', breaks='the longer one is taken to be covered by the shorter and is not removed'),
]
for i in ITEMS:
    if i['id']=='c13-wrapped-missing': i['demo']=i['demo'].replace('	"errors"\n','	"errors"\n	"fmt"\n',1)
