C='pkg/pipeline/config.go'
H='''
package pipeline

import (
	"encoding/json"
	"reflect"
	"testing"

	"gopkg.in/yaml.v3"
)

func both(t *testing.T, doc string) (y, j ProcessorOptionConfig) {
	t.Helper()
	ye := yaml.Unmarshal([]byte(doc), &y)
	je := json.Unmarshal([]byte(doc), &j)
	if (ye == nil) != (je == nil) {
		t.Fatalf("%s: YAML: %v, JSON: %v", doc, ye, je)
	}
	return y, j
}

func same(t *testing.T, doc string) {
	t.Helper()
	if y, j := both(t, doc); !reflect.DeepEqual(y, j) {
		t.Fatalf("%s: YAML gives %+v, JSON gives %+v", doc, y, j)
	}
}

func TestPlantedDemo(t *testing.T) {
'''
def D(body): return H+body+'}\n'
ITEMS=[
dict(id='c19-empty-handlers', property='C19', pkg='pkg/pipeline',
 edits=[(C,'	delete(raw, "on_failure")\n','	if len(c.OnFailure) > 0 {\n		delete(raw, "on_failure")\n	}\n')],
 needs='a JSON definition with an empty list of on_failure processors',
 breaks='on_failure is also handed to the processor as an option, which then rejects its configuration',
 demo=D('''	same(t, `{"id": "a", "field": "x", "on_failure": [{"set": {"value": "1"}}]}`)
	same(t, `{"id": "a", "if": "b", "field": "x"}`)
	if _, j := both(t, `{"field": "x", "on_failure": []}`); len(j.Config) != 1 {
		t.Fatalf("options %v", j.Config)
	}
''')),
dict(id='c19-null-option', property='C19', pkg='pkg/pipeline',
 edits=[(C,'		c.Config[k] = v\n','		if v != nil {\n			c.Config[k] = v\n		}\n')],
 needs='a JSON definition with an option whose value is null',
 breaks='the option is lost in JSON, but not in YAML',
 demo=D('''	same(t, `{"field": "x", "value": "1"}`)
	same(t, `{"field": "x", "value": null}`)
''')),
dict(id='c19-condition-name', property='C19', pkg='pkg/pipeline',
 edits=[(C,'json:"if,omitempty"`','json:"condition,omitempty"`'),(C,'	delete(raw, "if")\n','	delete(raw, "condition")\n'),(C,'data["if"] = c.If','data["condition"] = c.If')],
 needs='a JSON definition of a processor with a condition',
 breaks='the condition has another name in JSON than in YAML (three sites agree with each other)',
 demo=D('''	same(t, `{"field": "x", "id": "i"}`)
	same(t, `{"field": "x", "if": "a == b"}`)
''')),
dict(id='c19-value-receiver', property='C19', pkg='pkg/pipeline',
 edits=[(C,'func (c ProcessorOptionConfig) MarshalJSON','func (c *ProcessorOptionConfig) MarshalJSON')],
 needs='encoding options that are not addressable: passed by value',
 breaks='the options are left out of the JSON form',
 demo=D('''	o := ProcessorOptionConfig{ID: "i", Config: map[string]interface{}{"field": "x"}}
	for _, v := range []interface{}{&o, o} {
		b, err := json.Marshal(v)
		if err != nil || string(b) != `{"field":"x","id":"i"}` {
			t.Fatalf("%s %v", b, err)
		}
	}
''')),
dict(id='c19-encode-nothing', property='C19', pkg='pkg/pipeline',
 edits=[(C,'	for k, v := range c.Config {\n		data[k] = v\n','	for k, v := range c.Config {\n		if v == nil || v == "" {\n			continue\n		}\n		data[k] = v\n')],
 needs='encoding a configuration with an option that is an empty string or null',
 breaks='the option is not written, so that decoding the result gives the default of the option',
 demo=D('''	o := ProcessorOptionConfig{Config: map[string]interface{}{"field": "x", "value": ""}}
	b, err := json.Marshal(o)
	if err != nil || string(b) != `{"field":"x","value":""}` {
		t.Fatalf("%s %v", b, err)
	}
''')),
dict(id='c19-keep-options', property='C19', pkg='pkg/pipeline',
 edits=[(C,'	if err := json.Unmarshal(data, (*opts)(c)); err != nil {\n		return err\n	}\n','	if err := json.Unmarshal(data, (*opts)(c)); err != nil && c.OnFailure == nil {\n		return err\n	}\n')],
 needs='a JSON definition with an error that follows valid on_failure processors',
 breaks='a malformed definition is accepted',
 demo=D('''	both(t, `{"id": ["x"], "field": "x"}`)
	both(t, `{"on_failure": [{"set": {}}], "id": ["x"], "field": "x"}`)
''')),
]
