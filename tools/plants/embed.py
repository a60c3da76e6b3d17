P='pkg/pipeline/pipeline.go'
ITEMS=[
dict(id='c29-partial-pipeline', property='C29', pkg='pkg/pipeline',
 edits=[(P,'''	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}
''','''	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)
	if err != nil {
		return &Pipeline{id: config.ID, processors: processors}, err
	}
''')],
 needs='a definition whose processors can be built and whose on_failure processors cannot',
 breaks='New gives a pipeline together with the error, and the C entry point, which keeps what New returns, then processes events with a pipeline that failed to load',
 demo='''
package pipeline

import (
	"encoding/json"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	var config *Config
	if err := json.Unmarshal([]byte(`{"id": "x", "on_failure": [{"no_such_processor": {}}]}`), &config); err != nil {
		t.Fatal(err)
	}
	p, err := New(config)
	if err == nil {
		t.Fatal("no error")
	}
	if p != nil {
		t.Error("a pipeline that failed to load")
	}
}
'''),
]
