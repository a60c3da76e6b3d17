import importlib.util, os
def _load(n):
    s = importlib.util.spec_from_file_location(n+'_', os.path.join(os.path.dirname(os.path.abspath(__file__)), n+'.py')); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
core = _load('core'); procs = _load('procs')
PIPE = core.PIPE; PROC = procs.PROC
G='pkg/processor/registry/registry.go'; N='pkg/pipeline/processor.go'; P='pkg/pipeline/pipeline.go'
L='pkg/processor/lowercase/'; U='pkg/processor/uppercase/'; A='pkg/processor/append/'; R='pkg/processor/remove/'; S='pkg/processor/set/'
V='pkg/event/value.go'; MI='pkg/serialization/mapinterface/mapinterface.go'; B='pkg/serialization/protobuf/protobuf.go'
ITEMS=[
dict(id='c30-lower-new', property='C30', pkg='pkg/processor/lowercase',
 edits=[(L+'lowercase.go','	return &Lowercase{config: config}, nil','	p := &Lowercase{}\n	p.config.Field = config.Field\n	p.config.IgnoreMissing = config.IgnoreMissing\n	if config.TargetField != "" && !config.IgnoreMissing {\n		p.config.TargetField = config.TargetField\n	}\n	return p, nil')],
 needs='target_field together with ignore_missing', breaks='lowercase ignores target_field if ignore_missing is set: the source field is overwritten',
 demo=PROC%'lowercase'+'''
	p, err := New(Config{Field: "a", TargetField: "b", IgnoreMissing: true})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("a", event.String("X"))
	if err := p.Process(evt); err != nil {
		t.Fatal(err)
	}
	if v := evt.Get("b"); v == nil || v.String != "x" || evt.Get("a").String != "X" {
		t.Fatalf("got %v", v)
	}
}
'''),
dict(id='c30-upper-config', property='C30', pkg='pkg/processor/uppercase',
 edits=[(U+'uppercase.go','	return p.config\n','	c := Config{Field: p.config.Field, IgnoreMissing: p.config.IgnoreMissing}\n	if p.config.TargetField != "" {\n		// The target differs from the source.\n		c = Config{Field: p.config.Field, TargetField: p.config.TargetField}\n	}\n	return c\n')],
 needs='ignore_missing together with target_field', breaks='Config of uppercase loses ignore_missing, which the pipeline reads from there: an absent field is an error',
 demo='''
package uppercase_test

import (
	"encoding/json"
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"
)

func TestPlantedDemo(t *testing.T) {
	for _, js := range []string{
		`{"id":"x","processors":[{"uppercase":{"field":"a","ignore_missing":true}}]}`,
		`{"id":"x","processors":[{"uppercase":{"field":"a","target_field":"b","ignore_missing":true}}]}`,
	} {
		var c *pipeline.Config
		if err := json.Unmarshal([]byte(js), &c); err != nil {
			t.Fatal(err)
		}
		p, err := pipeline.New(c)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := p.Process(event.New()); err != nil {
			t.Fatal(js, err)
		}
	}
}
'''),
dict(id='c30-upper-nested-target', property='C30', pkg='pkg/processor/uppercase',
 edits=[(U+'process.go','	if p.config.TargetField != "" {\n','	if p.config.TargetField != "" && !strings.HasPrefix(p.config.Field, p.config.TargetField+".") {\n		// The target must not replace an object that holds the source.\n')],
 needs='a target_field that names an object holding the source field', breaks='uppercase ignores such a target_field and updates the source in place',
 demo=PROC%'uppercase'+'''
	p, err := New(Config{Field: "a.b", TargetField: "a"})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("a.b", event.String("x"))
	if err := p.Process(evt); err != nil {
		t.Fatal(err)
	}
	if v := evt.Get("a"); v == nil || v.Type != event.StringType || v.String != "X" {
		t.Fatalf("got %v", v)
	}
}
'''),
dict(id='c30-append-missing-dup', property='C30', pkg='pkg/processor/append',
 edits=[(A+'append.go','	return &Append{config: config}, nil','	if config.IgnoreMissing {\n		// Nothing is appended to absent fields, so there is nothing to compare.\n		config.AllowDuplicates = true\n	}\n	return &Append{config: config}, nil')],
 needs='ignore_missing, a field that exists and a value that it holds already', breaks='allow_duplicates: false is ignored if ignore_missing is set',
 demo=PROC%'append'+'''
	p, err := New(Config{Field: "a", Value: "x", IgnoreMissing: true})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("a", event.Array(event.String("x")))
	if err := p.Process(evt); err != nil {
		t.Fatal(err)
	}
	if v := evt.Get("a"); len(v.Array) != 1 {
		t.Fatalf("got %v", v)
	}
}
'''),
dict(id='c30-remove-new', property='C30', pkg='pkg/processor/remove',
 edits=[(R+'remove.go','	return &Remove{config: config}, nil','	seen := map[string]bool{}\n	p := &Remove{config: Config{IgnoreMissing: config.IgnoreMissing}}\n	for _, f := range config.Fields {\n		// Fields inside of a removed object are gone already.\n		if root := strings.SplitN(f, ".", 2)[0]; !seen[root] {\n			p.config.Fields = append(p.config.Fields, f)\n			seen[f] = true\n		}\n	}\n	return p, nil'),
        (R+'remove.go','import (\n','import (\n	"strings"\n\n')],
 needs='fields that name an object and later, an absent field inside of it', breaks='the later field is ignored: its absence is not an error',
 demo=PROC%'remove'+'''
	p, err := New(Config{Fields: []string{"a", "a.b"}})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("a", event.String("x"))
	if err := p.Process(evt); !errors.Is(err, processor.ErrorKeyMissing{}) {
		t.Fatal(err)
	}
}
'''),
dict(id='c30-set-empty-value', property='C30', pkg='pkg/processor/set',
 edits=[(S+'process.go','	if p.config.Value.Type != event.NullType {\n','	hasValue := p.config.Value.Type != event.NullType\n	if p.config.Value.Type == event.StringType {\n		hasValue = p.config.Value.String != ""\n	}\n	if hasValue {\n')],
 needs='the empty string as value', breaks='set ignores a value that is the empty string: it stores null',
 demo=PROC%'set'+'''
	c := Config{TargetField: "a"}
	if err := c.Value.Unpack(""); err != nil {
		t.Fatal(err)
	}
	p, err := New(c)
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Process(evt); err != nil {
		t.Fatal(err)
	}
	if v := evt.Get("a"); v == nil || v.Type != event.StringType {
		t.Fatalf("got %v", v)
	}
}
'''),
dict(id='c30-failure-nesting', property='C30', pkg='pkg/pipeline',
 edits=[(N,'	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)\n','	var handlers []ProcessorConfig\n	if strings.Count(id, ".on_failure[") < 2 {\n		handlers = config.OnFailure\n	}\n	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", handlers)\n'),
        (N,'	"strconv"\n','	"strconv"\n	"strings"\n')],
 needs='on_failure processors nested three levels deep', breaks='the on_failure option of the entries of the third level is ignored',
 demo=PIPE+'''
	_, _, err, tr := run(t, `{"id":"x","processors":[{"demo":{"name":"p","mode":"fail","on_failure":[{"demo":{"name":"h","mode":"fail","on_failure":[{"demo":{"name":"i","mode":"fail","on_failure":[{"demo":{"name":"j"}}]}}]}}]}}]}`)
	if err != nil || tr != "p h i j" {
		t.Fatal(tr, err)
	}
	_ = counters
}
'''),
dict(id='c30-shared-flags', property='C30', pkg='pkg/pipeline',
 edits=[(N,'	if ignoreFailurePtr != nil {\n		p.IgnoreFailure = *ignoreFailurePtr\n','	if ignoreFailurePtr != nil && !p.IgnoreMissing {\n		// ignore_missing is the more specific of the two.\n		p.IgnoreFailure = *ignoreFailurePtr\n')],
 needs='both ignore_missing and ignore_failure, and a failure other than an absent field', breaks='ignore_failure is ignored if ignore_missing is set',
 demo=PIPE+'''
	_, _, err, tr := run(t, `{"id":"x","processors":[{"demo":{"name":"p","mode":"fail","ignore_missing":true,"ignore_failure":true}},{"demo":{"name":"q"}}]}`)
	if err != nil || tr != "p q" {
		t.Fatal(tr, err)
	}
	_ = counters
}
'''),
dict(id='c30-shared-config', property='C30', pkg='pkg/processor/registry',
 edits=[(G,'''	pc := &processorConstructor{
		newConfig: func() reflect.Value {
			return reflect.New(configType)
		},''','''	newConfig := reflect.New(configType)
	_, hasDefaults := newConfig.Interface().(interface{ InitDefaults() })

	pc := &processorConstructor{
		newConfig: func() reflect.Value {
			if hasDefaults {
				// The defaults replace the options of earlier processors.
				return newConfig
			}
			return reflect.New(configType)
		},''')],
 needs='two processors of one type of which the first sets an option that the second leaves out', breaks='options of one processor are taken over by later ones of the same type',
 demo='''
package registry

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
)
'''+_load('safe').PROC+'''
type plantedOpts struct {
	A, B string
}
type plantedP2 struct{ c plantedOpts }

func (*plantedOpts) InitDefaults() {}

func (*plantedP2) Process(processor.Event) error { return nil }

func TestPlantedDemo(t *testing.T) {
	_ = plantedConfig{}
	r := NewRegistry()
	if err := r.Register("x", func(c plantedOpts) (*plantedP2, error) { return &plantedP2{c}, nil }); err != nil {
		t.Fatal(err)
	}
	if _, err := r.NewProcessor("x", map[string]interface{}{"a": "1"}); err != nil {
		t.Fatal(err)
	}
	p, err := r.NewProcessor("x", map[string]interface{}{"b": "2"})
	if err != nil {
		t.Fatal(err)
	}
	if c := p.(*plantedP2).c; c.A != "" || c.B != "2" {
		t.Fatal(c)
	}
}
'''),
dict(id='c30-pipe-failure-same', property='C30', pkg='pkg/pipeline',
 edits=[(P,'	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)\n','	var handlers []ProcessorConfig\n	if len(processors) > 0 {\n		// Not needed if the last processor handles its failures.\n		if last := processors[len(processors)-1]; !last.IgnoreFailure {\n			handlers = config.OnFailure\n		}\n	}\n	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", handlers)\n')],
 needs='a last processor with ignore_failure and a failure of an earlier one', breaks='the on_failure processors of the pipeline are ignored',
 demo=PIPE+'''
	_, _, err, tr := run(t, `{"id":"x","processors":[{"demo":{"name":"p","mode":"fail"}},{"demo":{"name":"q","ignore_failure":true}}],"on_failure":[{"demo":{"name":"h"}}]}`)
	if err != nil || tr != "p h" {
		t.Fatal(tr, err)
	}
	_ = counters
}
'''),
# truncation in conversions
dict(id='c06-clone-many', property='C06', pkg='pkg/event',
 edits=[(V,'''		for _, elem := range v.Array {''','''		for i, elem := range v.Array {
			if i == 1<<10 {
				break
			}''')],
 needs='an array with more than 1024 elements', breaks='the copy has nil in place of the later elements',
 demo='''
package event

import "testing"

func TestPlantedDemo(t *testing.T) {
	a := Array()
	for i := 0; i < 1030; i++ {
		a.Array = append(a.Array, Integer(int64(i)))
	}
	c := a.Clone()
	if len(c.Array) != 1030 || c.Array[1029] == nil || c.Array[1029].Integer != 1029 {
		t.Fatal(len(c.Array))
	}
}
'''),
dict(id='c08-map-many', property='C08', pkg='pkg/serialization/mapinterface',
 edits=[(MI,'		for _, x := range v.Array {','		for i, x := range v.Array {\n			if i > 0xff {\n				break\n			}')],
 needs='an array with more than 256 elements', breaks='the later elements are dropped',
 demo='''
package mapinterface

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	a := event.Array()
	for i := 0; i < 300; i++ {
		a.Array = append(a.Array, event.Integer(int64(i)))
	}
	e := event.New()
	e.Put("a", a)
	m := FromEvent(e)
	if l, ok := m["a"].([]interface{}); !ok || len(l) != 300 || l[299] != int64(299) {
		t.Fatal(m)
	}
}
'''),
dict(id='c07-pb-many', property='C07', pkg='pkg/serialization/protobuf',
 edits=[(B,'		for _, x := range t.Array.GetItems() {','		list := t.Array.GetItems()\n		if len(list) > 4096 {\n			list = list[:4096]\n		}\n		for _, x := range list {')],
 needs='an array with more than 4096 elements', breaks='decoding drops the later elements',
 demo='''
package protobuf

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	a := event.Array()
	for i := 0; i < 4100; i++ {
		a.Array = append(a.Array, event.Integer(int64(i)))
	}
	e := event.New()
	e.Put("a", a)
	l := FromEvent(e).GetLog()
	if l == nil {
		t.Fatal("no log")
	}
	d := ToLogEvent(l)
	if n := len(d.Get("a").Array); n != 4100 {
		t.Fatal(n)
	}
}
'''),
]
