E='pkg/event/event.go'; P='pkg/pipeline/pipeline.go'; N='pkg/pipeline/processor.go'; C='pkg/pipeline/config.go'
EV='''
package event

import (
	"encoding/json"
	"errors"
	"testing"
)

var _ = json.Marshal
var _ = errors.Is

func TestPlantedDemo(t *testing.T) {
'''
PIPE='''
package pipeline_test

import (
	"encoding/json"
	"errors"
	"strings"
	"testing"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

type demoConf struct {
	Name          string `config:"name"`
	Mode          string `config:"mode"`
	IgnoreMissing bool   `config:"ignore_missing"`
	IgnoreFailure bool   `config:"ignore_failure"`
}
type demoProc struct{ c demoConf }

var trace []string

func (d *demoProc) Config() demoConf { return d.c }
func (d *demoProc) Process(e processor.Event) error {
	trace = append(trace, d.c.Name)
	switch d.c.Mode {
	case "drop":
		e.Drop()
	case "cancel":
		e.Cancel()
	case "fail":
		return errors.New(d.c.Name + " failed")
	case "missing":
		return processor.ErrorKeyMissing{Key: d.c.Name}
	}
	return nil
}

func init() {
	registry.MustRegister("demo", func(c demoConf) (*demoProc, error) {
		if c.Mode == "bad" {
			return nil, errors.New("bad mode")
		}
		return &demoProc{c}, nil
	})
}

func build(js string) (*pipeline.Pipeline, error) {
	var c *pipeline.Config
	if err := json.Unmarshal([]byte(js), &c); err != nil {
		return nil, err
	}
	return pipeline.New(c)
}

func run(t *testing.T, js string) (*pipeline.Pipeline, *event.Event, error, string) {
	t.Helper()
	p, err := build(js)
	if err != nil {
		t.Fatal(err)
	}
	trace = nil
	e := event.New()
	e.Put("a", event.String("b"))
	out, err := p.Process(e)
	return p, out, err, strings.Join(trace, " ")
}

func counters(t *testing.T, p *pipeline.Pipeline) map[string]float64 {
	t.Helper()
	r := prometheus.NewPedanticRegistry()
	for _, c := range p.Metrics() {
		if err := r.Register(c); err != nil {
			t.Fatal(err)
		}
	}
	fams, err := r.Gather()
	if err != nil {
		t.Fatal(err)
	}
	m := map[string]float64{}
	for _, f := range fams {
		for _, x := range f.Metric {
			id := ""
			for _, l := range x.Label {
				if l.GetName() == "component_id" {
					id = l.GetValue()
				}
			}
			m[strings.TrimPrefix(f.GetName(), "es_component_")+" "+id] = x.Counter.GetValue()
		}
	}
	_ = dto.Metric{}
	return m
}

func TestPlantedDemo(t *testing.T) {
'''
ITEMS=[
 dict(id='c01-tryput-null', property='C01', pkg='pkg/event', edits=[(E,'	if old != nil && !overwrite {','	if old != nil && old.Type != NullType && !overwrite {')],
  demo=EV+'''
	e := New()
	if _, err := e.Put("a.b", NullValue); err != nil {
		t.Fatal(err)
	}
	old, err := e.TryPut("a.b", String("x"))
	if old != NullValue || !errors.Is(err, ErrKeyExists) {
		t.Fatalf("TryPut replaced an existing null: %v, %v", old, err)
	}
	if e.Get("a.b") != NullValue {
		t.Fatal("existing null value was replaced")
	}
}
''', needs='TryPut on a key that holds an explicit null', breaks='TryPut replaces an existing (null) value without ErrKeyExists'),
 dict(id='c01-nil-put', property='C01', pkg='pkg/event', edits=[(E,'''	if val == nil {
		return nil, nil
	}

	if e.fields''','''	if e.fields'''),(E,'''	m[path[len(path)-1]] = val
''','''	if val == nil {
		// Nothing to store.
		return nil, nil
	}
	m[path[len(path)-1]] = val
''')],
  demo=EV+'''
	e := New()
	e.Put("x", String("y"))
	if _, err := e.Put("a.b.c", nil); err != nil {
		t.Fatal(err)
	}
	if v := e.Get("a"); v != nil {
		t.Fatalf("putting nothing created %v", v)
	}
}
''', needs='putting a nil value at a nested key whose parents do not exist', breaks='putting nil creates the missing parents'),
 dict(id='c02-get-null', property='C02', pkg='pkg/event', edits=[(E,'''	return m[path[len(path)-1]]
}''','''	v := m[path[len(path)-1]]
	if v != nil && v.Type == NullType && len(path) > 1 {
		return nil
	}
	return v
}''')],
  demo=EV+'''
	e := New()
	e.Put("a.b", NullValue)
	if e.Get("a.b") == nil {
		t.Fatal("Get does not return the null value stored at a.b")
	}
}
''', needs='a null value stored below the top level', breaks='Get reports a stored null value as absent'),
 dict(id='c03-null', property='C03', pkg='pkg/event', edits=[(E,'''	if len(path) == 0 || len(e.fields) == 0 {
		return nil
	}

	parent''','''	if len(path) == 0 {
		return nil
	}
	if v := e.get(path); v == nil || v.Type == NullType {
		return nil
	}

	parent''')],
  demo=EV+'''
	e := New()
	e.Put("a.b", NullValue)
	e.Put("a.c", String("x"))
	if e.Delete("a.b") != NullValue || e.Get("a.b") != nil {
		t.Fatal("a null field was not deleted")
	}
}
''', needs='deleting a field that holds an explicit null', breaks='Delete does not remove a null field and reports it as absent'),
 dict(id='c12-first-success', property='C12', pkg='pkg/pipeline', edits=[(P,'''			if err = proc.Process(evt); err != nil {
				// Failure in global on_failure.
				return err
			}
''','''			if err = proc.Process(evt); err == nil {
				// Recovered.
				return nil
			}
''')],
  demo=PIPE+'''
	_, _, err, tr := run(t, `{"id":"x","processors":[{"demo":{"name":"p","mode":"fail"}}],"on_failure":[{"demo":{"name":"h1"}},{"demo":{"name":"h2"}}]}`)
	if err != nil || tr != "p h1 h2" {
		t.Fatalf("ran %q, error %v", tr, err)
	}
}
''', needs='a failing pipeline with two or more global on_failure processors', breaks='global on_failure processors are treated as alternatives: the run stops at the first success and a failing one does not end it'),
 dict(id='c13-missing-after-handlers', property='C13', pkg='pkg/pipeline', edits=[(N,'''		// Ignore Missing
		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
			p.metricEventsOutTotal.Inc()
			return nil
		}

''',''),(N,'''		// Ignore Failure
		if p.IgnoreFailure {''','''		// Ignore Missing
		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
			p.metricEventsOutTotal.Inc()
			return nil
		}

		// Ignore Failure
		if p.IgnoreFailure {''')],
  demo=PIPE+'''
	_, out, err, tr := run(t, `{"id":"x","processors":[{"demo":{"name":"p","mode":"missing","ignore_missing":true,"on_failure":[{"demo":{"name":"h"}}]}}]}`)
	if err != nil || out == nil || tr != "p" {
		t.Fatalf("ran %q, event %v, error %v: handlers must not run for an ignored missing key", tr, out, err)
	}
}
''', needs='a processor with both ignore_missing and on_failure, and an absent field', breaks='on_failure runs although the missing key is to be ignored'),
 dict(id='c15-ignored-missing-count', property='C15', pkg='pkg/pipeline', edits=[(N,'''errors.Is(err, processor.ErrorKeyMissing{}) {
			p.metricEventsOutTotal.Inc()
			return nil''','''errors.Is(err, processor.ErrorKeyMissing{}) {
			return nil''')],
  demo=PIPE+'''
	p, _, _, _ := run(t, `{"id":"x","processors":[{"demo":{"name":"p","mode":"missing","ignore_missing":true}}]}`)
	m := counters(t, p)
	if m["received_events_total x.processors[0].demo"] != 1 || m["sent_events_total x.processors[0].demo"] != 1 {
		t.Fatal(m)
	}
}
''', needs='a missing key that is ignored', breaks='the event is received but counted under no outcome'),
 dict(id='c16-nested-id', property='C16', pkg='pkg/pipeline', edits=[(N,'newPipelineProcessors(id+".on_failure", config.OnFailure)','newPipelineProcessors(baseID+".on_failure", config.OnFailure)')],
  demo=PIPE+'''
	p, _, _, _ := run(t, `{"id":"x","processors":[{"demo":{"name":"p","on_failure":[{"demo":{"name":"h"}}]}},{"demo":{"name":"q","on_failure":[{"demo":{"name":"i"}}]}}]}`)
	if m := counters(t, p); len(m) != 16 {
		t.Fatal(m)
	}
}
''', needs='two processors of one list that both have on_failure processors of the same type at the same index', breaks='their handlers share one component id, so their counters collide'),
 dict(id='c17-two-types', property='C17', pkg='pkg/pipeline', edits=[(C,'''	if len(c) > 1 {
		return "", nil, errors.New("only one processor must be specified")
	}
	for k, v := range c {''','''	set := 0
	for _, v := range c {
		if v != nil {
			set++
		}
	}
	if set > 1 {
		return "", nil, errors.New("only one processor must be specified")
	}
	for k, v := range c {''')],
  demo=PIPE+'''
	if _, err := build(`{"id":"x","processors":[{"demo":{"name":"p"},"set":null}]}`); err == nil {
		t.Fatal("an entry that names two processors was accepted")
	}
	_, _ = build, run
}
''', needs='an entry with two processor names of which one has no options', breaks='an entry naming two processors is accepted and one of them, picked at random, is used'),
]
