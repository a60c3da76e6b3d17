import importlib.util, os
spec = importlib.util.spec_from_file_location('procs', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'procs.py')); procs = importlib.util.module_from_spec(spec); spec.loader.exec_module(procs)
PROC=procs.PROC
A='pkg/processor/append/process.go'
AG='pkg/processor/append/append.go'
L='pkg/processor/lowercase/process.go'
LG='pkg/processor/lowercase/lowercase.go'
V='pkg/event/value.go'
E='pkg/event/event.go'
PP='pkg/pipeline/pipeline.go'
ITEMS=[
dict(id='c18-fixed-backing', property='C18', pkg='pkg/processor/append',
 edits=[(A,'	v.Array = append(v.Array, event.String(p.config.Value))\n','	v.Array = append(append(p.buf[:0], v.Array...), event.String(p.config.Value))\n'),
  (AG,'	config Config\n}','	config Config\n	buf    []*event.Value // saves growing the array\n}'),
  (AG,'&Append{config: config}','&Append{config: config, buf: make([]*event.Value, 0, 16)}'),
  (AG,'import (\n','import (\n	"github.com/andrewkroh/go-sawmill/pkg/event"\n')],
 needs='two events processed by the same append processor, the first one looked at afterwards',
 breaks='the arrays stored in both events share one backing array',
 demo=PROC%'append'+'''
	p, err := New(Config{Field: "tags", Value: "new"})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("tags", event.Array(event.String("a")))
	other := demoEvent{event.New()}
	other.Put("tags", event.Array(event.String("b")))
	if err := p.Process(evt); err != nil {
		t.Fatal(err)
	}
	if err := p.Process(other); err != nil {
		t.Fatal(err)
	}
	if s := evt.Get("tags").Array[0].String; s != "a" {
		t.Fatalf("the first event changed to %q", s)
	}
}
'''),
dict(id='c18-overwrite-null', property='C18', pkg='pkg/event',
 edits=[(E,'	m[path[len(path)-1]] = val\n	return old, nil\n','''	if old != nil {
		prev := *old
		*old = *val
		return &prev, nil
	}
	m[path[len(path)-1]] = val
	return nil, nil
''')],
 needs='a field with an explicit null is overwritten in one event, another event holds a null',
 breaks='the null value all events share takes the new value',
 demo='''
package event

import (
	"encoding/json"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	a, b := New(), New()
	for _, e := range []*Event{a, b} {
		if err := json.Unmarshal([]byte(`{"x":null}`), e); err != nil {
			t.Fatal(err)
		}
	}
	a.Put("y", NullValue)
	b.Put("y", NullValue)
	a.Put("y", String("secret"))
	if v := b.Get("y"); v == nil || v.Type != NullType {
		t.Fatalf("the other event now has %v", v)
	}
}
'''),
dict(id='c18-pipe-scratch', property='C18', pkg='pkg/pipeline',
 edits=[(PP,'	pipeEvt := &pipelineEvent{data: evt}\n','	pipe.evt = pipelineEvent{data: evt}\n	pipeEvt := &pipe.evt\n'),(PP,'	onFailure  []*pipelineProcessor\n','	onFailure  []*pipelineProcessor\n	evt        pipelineEvent // reused for every event\n')],
 needs='one pipeline that processes two events at the same time, the second one completed while the first is in a processor',
 breaks='the result for the first event is the second event',
 demo='''
package pipeline

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

type waitConfig struct{}

type waitProcessor struct{ in, out chan bool }

var wait = waitProcessor{make(chan bool), make(chan bool)}

func newWait(c waitConfig) (*waitProcessor, error) { return &wait, nil }

func (p waitProcessor) Process(e processor.Event) error {
	if e.Get("wait") != nil {
		p.in <- true
		<-p.out
	}
	return nil
}

func (p waitProcessor) String() string { return "wait" }

func (p waitProcessor) Config() waitConfig { return waitConfig{} }

func TestPlantedDemo(t *testing.T) {
	registry.MustRegister("planted_wait", newWait)
	pipe, err := New(&Config{ID: "planted", Processors: []ProcessorConfig{{"planted_wait": &ProcessorOptionConfig{}}}})
	if err != nil {
		t.Fatal(err)
	}
	first, second := event.New(), event.New()
	first.Put("wait", event.Bool(true))
	got := make(chan *event.Event)
	go func() {
		e, err := pipe.Process(first)
		if err != nil {
			t.Error(err)
		}
		got <- e
	}()
	<-wait.in
	if _, err := pipe.Process(second); err != nil {
		t.Fatal(err)
	}
	wait.out <- true
	if e := <-got; e != first {
		t.Fatal("the result is another event")
	}
}
'''),
dict(id='c18-memo', property='C18', pkg='pkg/processor/lowercase',
 edits=[(L,'	out := strings.ToLower(v.String)\n','''	out, ok := p.seen[v.String]
	if !ok {
		out = event.String(strings.ToLower(v.String))
		p.seen[v.String] = out
	}
'''),(L,'event.String(out)','out'),(LG,'	config Config\n}','	config Config\n	seen   map[string]*event.Value\n}'),(LG,'&Lowercase{config: config}','&Lowercase{config: config, seen: map[string]*event.Value{}}'),(LG,'import (\n','import (\n	"github.com/andrewkroh/go-sawmill/pkg/event"\n')],
 needs='two events with the same string, and a change of the value stored in one of them',
 breaks='the lower-case values are memoised, so different events hold the same value',
 demo=PROC%'lowercase'+'''
	p, err := New(Config{Field: "a"})
	if err != nil {
		t.Fatal(err)
	}
	other := demoEvent{event.New()}
	for _, e := range []demoEvent{evt, other} {
		e.Put("a", event.String("X"))
		if err := p.Process(e); err != nil {
			t.Fatal(err)
		}
	}
	evt.Get("a").String = "changed"
	if s := other.Get("a").String; s != "x" {
		t.Fatalf("the other event has %q", s)
	}
}
'''),
dict(id='c18-scratch', property='C18', pkg='pkg/event',
 edits=[(E,'	var pathScratch []byte\n','	pathScratch := keyScratch[:0]\n'),(E,'func keyToPath(','// keyScratch saves an allocation for each key.\nvar keyScratch = make([]byte, 0, 256)\n\nfunc keyToPath(')],
 needs='two goroutines that look up different keys in different events at the same time',
 breaks='the key parser uses one buffer for all goroutines, so a lookup can use the key of another one',
 demo='''
package event

import (
	"strings"
	"sync"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		key := strings.Repeat(string(rune('a'+g)), 40)
		go func() {
			defer wg.Done()
			e := New()
			e.Put(key, Bool(true))
			for i := 0; i < 2000000 && !t.Failed(); i++ {
				if v := e.Get(key); v == nil {
					t.Errorf("%s is missing", key)
				}
			}
		}()
	}
	wg.Wait()
}
'''),
]
