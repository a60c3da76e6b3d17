import importlib.util,os
_s=importlib.util.spec_from_file_location('cli_',os.path.join(os.path.dirname(os.path.abspath(__file__)),'cli.py')); _c=importlib.util.module_from_spec(_s); _s.loader.exec_module(_c)
M='cmd/sawmill/sawmill.go'; MI='pkg/serialization/mapinterface/mapinterface.go'; P='pkg/pipeline/pipeline.go'; N='pkg/pipeline/processor.go'
VA='pkg/event/value.go'; EU='pkg/eventutil/event.go'; RE='pkg/eventutil/reflect.go'; SET='pkg/processor/set/process.go'; CO='pkg/config/config.go'; CF='pkg/pipeline/config.go'
D=_c.D
LOWER=_c.LOWER
ITEMS=[
dict(id='c27-map-last-wins', property='C27', pkg='pkg/serialization/mapinterface',
 edits=[(MI,'		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {\n			return nil, err\n		}\n	}\n\n	return evt, nil','		_, err = evt.Put(eventutil.EscapeKey(k), v)\n	}\n	if err != nil {\n		return nil, err\n	}\n\n	return evt, nil')],
 needs='a map with a key that cannot be stored and others that can, which the iteration visits later', breaks='only the error of the last key is reported',
 demo='''
package mapinterface

import "testing"

func TestPlantedDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		if _, err := ToEvent(map[string]interface{}{"": 1, "a": 2, "b": 3, "c": 4}); err == nil {
			t.Fatal("the empty key was dropped without an error")
		}
	}
}
'''),
dict(id='c27-on-failure-build', property='C27', pkg='pkg/pipeline',
 edits=[(P,'	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)\n	if err != nil {','	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)\n	if err != nil && len(processors) == 0 {')],
 needs='a pipeline with processors whose on_failure list cannot be built', breaks='the pipeline is built without its on_failure processors',
 demo='''
package pipeline

import (
	"testing"

	_ "github.com/andrewkroh/go-sawmill/pkg/processor/lowercase"
)

func TestPlantedDemo(t *testing.T) {
	opts := &ProcessorOptionConfig{Config: map[string]interface{}{"field": "a"}}
	if _, err := New(&Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": opts}}}); err != nil {
		t.Fatal(err)
	}
	if _, err := New(&Config{ID: "p", OnFailure: []ProcessorConfig{{"nosuch": opts}}}); err == nil {
		t.Fatal("no error without processors")
	}
	if _, err := New(&Config{ID: "p", Processors: []ProcessorConfig{{"lowercase": opts}}, OnFailure: []ProcessorConfig{{"nosuch": opts}}}); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='c27-array-element', property='C27', pkg='pkg/event',
 edits=[(VA,'		if err = json.Unmarshal(data, &array); err != nil {\n			return err\n		}\n','		if err = json.Unmarshal(data, &array); err != nil && len(array) == 0 {\n			return err\n		}\n')],
 needs='a JSON array with an element that cannot be decoded after ones that can', breaks='the value is decoded with a broken array and no error',
 demo='''
package event

import (
	"encoding/json"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	var v Value
	if err := json.Unmarshal([]byte(`[1, 2]`), &v); err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal([]byte(`[1e999, 2]`), &v); err == nil {
		t.Fatalf("no error for a number out of range: %v", v.Array)
	}
}
'''),
dict(id='c27-append-conflict', property='C27', pkg='pkg/eventutil',
 edits=[(EU,'	_, err := evt.Put(key, targetValue)\n	return err','	if _, err := evt.Put(key, targetValue); err != nil && len(targetValue.Array) > 1 {\n		return err\n	}\n	return nil')],
 needs='an item appended under a parent that is not an object', breaks='the item is dropped without an error',
 demo='''
package eventutil

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	evt := event.New()
	evt.Put("a", event.String("text"))
	if err := Append(evt, "b", event.String("x")); err != nil {
		t.Fatal(err)
	}
	if err := Append(evt, "a.b", event.String("x")); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='c27-scan-later', property='C27', pkg='cmd/sawmill',
 edits=[(M,'	if err := s.Err(); err != nil {\n','	if err := s.Err(); err != nil && lineNumber == 0 {\n')],
 needs='a line that is too long after other lines', breaks='the rest of the input is dropped without an error',
 sh=D(LOWER+"printf 'A\\n' | run || die failed\n{ printf 'A\\n'; head -c 200000 /dev/zero | tr '\\0' a; printf '\\nB\\n'; } | run && die 'no error'\nexit 0")),
dict(id='c27-scan-overwritten', property='C27', pkg='cmd/sawmill',
 edits=[(M,'	for s.Scan() {\n','	err := s.Err()\n	for s.Scan() {\n'),(M,'	if err := s.Err(); err != nil {\n','	if err != nil {\n')],
 needs='a line that is too long', breaks='the error is asked for before the input is read',
 sh=D(LOWER+"printf 'A\\n' | run || die failed\n{ printf 'A\\n'; head -c 200000 /dev/zero | tr '\\0' a; printf '\\nB\\n'; } | run && die 'no error'\nexit 0")),
dict(id='c27-yaml-type-error', property='C27', pkg='cmd/sawmill',
 edits=[(M,'	if err := yaml.NewDecoder(f).Decode(&c); err != nil {\n','	if err := yaml.NewDecoder(f).Decode(&c); err != nil && c == nil {\n')],
 needs='a pipeline file of which a part has the wrong type', breaks='the pipeline runs with the part that could be decoded',
 sh=D(LOWER+'''printf 'A\\n' | run || die failed
cat >"$T/p.yml" <<'Y'
id: p
on_failure: none
processors:
  - lowercase: {field: event.original, target_field: low}
Y
printf 'A\\n' | run && die 'no error'
exit 0''')),
dict(id='c27-map-value', property='C27', pkg='pkg/eventutil',
 edits=[(RE,'		val, err := interfaceToValue(m.Value().Interface())\n		if err != nil {\n			return nil, err\n		}\n','		val, err := interfaceToValue(m.Value().Interface())\n		if err != nil && len(obj) == 0 {\n			return nil, err\n		}\n')],
 needs='a map with a value that cannot be represented and others that can, visited earlier', breaks='the value becomes null and there is no error',
 demo='''
package eventutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		if _, err := ReflectValue(map[interface{}]interface{}{"x": make(chan int), "a": 2, "b": 3, "c": 4}); err == nil {
			t.Fatal("a channel was accepted")
		}
	}
}
'''),
dict(id='c27-set-empty', property='C27', pkg='pkg/processor/set',
 edits=[(SET,'import (\n','import (\n	"errors"\n\n'),(SET,'	return err\n}','	if errors.Is(err, event.ErrEmptyKey) {\n		return nil\n	}\n	return err\n}'),],
 needs='an empty target field', breaks='the processor succeeds without having stored anything',
 demo='''
package set

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/config"
	"github.com/andrewkroh/go-sawmill/pkg/event"
)

type evt struct{ *event.Event }

func (evt) Cancel() {}
func (evt) Drop()   {}

func TestPlantedDemo(t *testing.T) {
	p, err := New(Config{TargetField: "", Value: config.EventValue(*event.String("x"))})
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Process(evt{event.New()}); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='c27-config-default', property='C27', pkg='pkg/config',
 edits=[(CO,'	if err != nil {\n		return err\n	}\n	*v = ','	if err != nil {\n		if v.Type == event.NullType {\n			return err\n		}\n		return nil\n	}\n	*v = ')],
 needs='an option that has a value already and is given one that cannot be represented', breaks='the option keeps its value without an error',
 demo='''
package config

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	v := EventValue(*event.String("default"))
	if err := v.Unpack("text"); err != nil {
		t.Fatal(err)
	}
	if err := v.Unpack(make(chan int)); err == nil {
		t.Fatal("no error")
	}
}
'''),
]
