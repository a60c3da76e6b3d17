R='pkg/eventutil/reflect.go'
G='pkg/processor/registry/registry.go'
P='pkg/pipeline/processor.go'
PROC='''
type plantedConfig struct {
	A int `config:"a"`
}

func (c *plantedConfig) InitDefaults() { c.A = 7 }

type plantedProc struct{ cfg plantedConfig }

func (*plantedProc) Process(processor.Event) error { return nil }
'''
ITEMS=[
dict(id='c10-error-kind', property='C10', pkg='pkg/processor/registry',
 edits=[(G,'''	errorType := t.Out(1)
	if k := errorType.Kind(); (k != reflect.Interface && k != reflect.Ptr) || !errorType.Implements(errorInterface) {
''','''	if !t.Out(1).Implements(errorInterface) {
''')],
 needs='a registered constructor whose second result is a struct that implements error, and a processor of that name',
 breaks='creating the processor panics instead of failing or registration being refused',
 demo='''
package registry

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
)
'''+PROC+'''
type plantedError struct{}

func (plantedError) Error() string { return "planted" }

func TestPlantedDemo(t *testing.T) {
	r := NewRegistry()
	if err := r.Register("x", func(c plantedConfig) (*plantedProc, plantedError) { return &plantedProc{c}, plantedError{} }); err != nil {
		return
	}
	r.NewProcessor("x", nil)
}
'''),
dict(id='c10-embedded', property='C10', pkg='pkg/eventutil',
 edits=[(R,'		if field.PkgPath != "" {','		if field.PkgPath != "" && !field.Anonymous {')],
 needs='a struct that embeds an unexported map type',
 breaks='converting the struct panics because the value of the unexported field is read',
 demo='''
package eventutil

import "testing"

type plantedTags map[string]string

type plantedResult struct {
	plantedTags
	Name string
}

func TestPlantedDemo(t *testing.T) {
	if v, err := ReflectValue(map[string]interface{}{"r": &[]plantedResult{{plantedTags{"a": "b"}, "c"}}}); err == nil && v == nil {
		t.Fatal("neither a value nor an error")
	}
}
'''),
dict(id='c10-flag-kind', property='C10', pkg='pkg/pipeline',
 edits=[(P,'''"IgnoreFailure"); v != zeroValue && v.Kind() == reflect.Bool {
		boolValue := v.Bool()
		ignoreFailure''','''"IgnoreFailure"); v != zeroValue && v.Type().String() != "string" {
		boolValue := reflect.Indirect(v).Bool()
		ignoreFailure''')],
 needs='a processor whose configuration declares IgnoreFailure as an optional *bool that is not set',
 breaks='building a pipeline with the processor panics',
 demo='''
package pipeline

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

type plantedConfig struct {
	IgnoreFailure *bool `config:"ignore_failure"`
}

type plantedProc struct{ cfg plantedConfig }

func (*plantedProc) Process(processor.Event) error { return nil }
func (p *plantedProc) Config() plantedConfig        { return p.cfg }

func TestPlantedDemo(t *testing.T) {
	registry.MustRegister("planted_flag", func(c plantedConfig) (*plantedProc, error) { return &plantedProc{c}, nil })
	if _, err := New(&Config{ID: "p", Processors: []ProcessorConfig{{"planted_flag": &ProcessorOptionConfig{}}}}); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c20-loose-name', property='C20', pkg='pkg/processor/registry',
 edits=[(G,'''	"fmt"
	"reflect"
''','''	"fmt"
	"reflect"
	"strings"
'''),(G,'''	pc, found := r.procs[name]
	if !found {
''','''	pc, found := r.procs[name]
	for other := range r.procs {
		if !found && strings.EqualFold(name, other) {
			pc, found = r.procs[other]
		}
	}
	if !found {
''')],
 needs='an unknown type that differs from a registered one in case only',
 breaks='a processor of another type is created instead of an unknown-type error',
 demo='''
package registry

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
)
'''+PROC+'''
func TestPlantedDemo(t *testing.T) {
	r := NewRegistry()
	if err := r.Register("x", func(c plantedConfig) (*plantedProc, error) { return &plantedProc{c}, nil }); err != nil {
		t.Fatal(err)
	}
	if _, err := r.NewProcessor("X", nil); err == nil {
		t.Fatal("created a processor of an unknown type")
	}
}
'''),
dict(id='c20-error-lost', property='C20', pkg='pkg/processor/registry',
 edits=[(G,'			if !out[1].IsNil() {','			if !out[1].IsNil() && out[0].IsNil() {')],
 needs='a constructor that returns both a processor and an error',
 breaks='the error of the constructor is lost and its processor is used',
 demo='''
package registry

import (
	"errors"
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
)
'''+PROC+'''
func TestPlantedDemo(t *testing.T) {
	r := NewRegistry()
	if err := r.Register("x", func(c plantedConfig) (*plantedProc, error) { return &plantedProc{c}, errors.New("bad") }); err != nil {
		t.Fatal(err)
	}
	if _, err := r.NewProcessor("x", nil); err == nil {
		t.Fatal("the error is lost")
	}
}
'''),
dict(id='c20-no-defaults', property='C20', pkg='pkg/processor/registry',
 edits=[(G,'''	uConf, err := ucfg.NewFrom(config)
''','''	if len(config) == 0 {
		return pc.newProc(procConfigValue)
	}

	uConf, err := ucfg.NewFrom(config)
''')],
 needs='a processor without any options whose configuration has defaults or required options',
 breaks='defaults are not applied and required options are not enforced',
 demo='''
package registry

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
)
'''+PROC+'''
func TestPlantedDemo(t *testing.T) {
	r := NewRegistry()
	if err := r.Register("x", func(c plantedConfig) (*plantedProc, error) { return &plantedProc{c}, nil }); err != nil {
		t.Fatal(err)
	}
	p, err := r.NewProcessor("x", nil)
	if err != nil {
		t.Fatal(err)
	}
	if a := p.(*plantedProc).cfg.A; a != 7 {
		t.Fatal("default is not applied:", a)
	}
}
'''),
dict(id='c20-half-registered', property='C20', pkg='pkg/processor/registry',
 edits=[(G,'''	if _, found := r.procs[name]; found {
		return fmt.Errorf("%q processor is already registered", name)
	}
	pc, err := validateConfig(constructorFunc)
	if err != nil {
		return err
	}
	r.procs[name] = *pc
	return nil
''','''	pc, err := validateConfig(constructorFunc)
	if err != nil {
		return err
	}
	n := len(r.procs)
	r.procs[name] = *pc
	if len(r.procs) == n {
		return fmt.Errorf("%q processor is already registered", name)
	}
	return nil
''')],
 needs='registering a second constructor under a used name, and creating a processor of that name afterwards',
 breaks='the refused constructor replaces the registered one',
 demo='''
package registry

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
)
'''+PROC+'''
func TestPlantedDemo(t *testing.T) {
	r := NewRegistry()
	if err := r.Register("x", func(c plantedConfig) (*plantedProc, error) { return &plantedProc{c}, nil }); err != nil {
		t.Fatal(err)
	}
	if err := r.Register("x", func(c plantedConfig) (*plantedProc, error) { c.A = 100; return &plantedProc{c}, nil }); err == nil {
		t.Fatal("registered twice")
	}
	p, err := r.NewProcessor("x", nil)
	if err != nil {
		t.Fatal(err)
	}
	if a := p.(*plantedProc).cfg.A; a != 7 {
		t.Fatal("the refused constructor is used")
	}
}
'''),
]
