// Demonstrations of the genuine defects described in DESIGN.md. Not part of any
// check: run with
//   go test -overlay /verif/defects/overlay.json -run TestDefect ./pkg/pipeline
package pipeline_test

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/community_id"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
	_ "github.com/andrewkroh/go-sawmill/pkg/processor/remove"
	"github.com/andrewkroh/go-sawmill/pkg/processor/uppercase"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

type fnConf struct{ Mode string `config:"mode"` }
type fnProc struct{ c fnConf }

func (f *fnProc) Config() fnConf { return f.c }
func (f *fnProc) Process(e processor.Event) error {
	switch f.c.Mode {
	case "drop":
		e.Drop()
	case "cancel":
		e.Cancel()
	case "droperr":
		e.Drop()
		return errors.New("dropped")
	case "fail":
		return errors.New("failed")
	}
	return nil
}

func init() {
	registry.MustRegister("fn", func(c fnConf) (*fnProc, error) { return &fnProc{c}, nil })
}

func mk(t *testing.T, js string) *pipeline.Pipeline {
	t.Helper()
	var c *pipeline.Config
	if err := json.Unmarshal([]byte(js), &c); err != nil {
		t.Fatal(err)
	}
	p, err := pipeline.New(c)
	if err != nil {
		t.Fatal(err)
	}
	return p
}

func ev(t *testing.T, js string) *event.Event {
	t.Helper()
	var e *event.Event
	if err := json.Unmarshal([]byte(js), &e); err != nil {
		t.Fatal(err)
	}
	return e
}

func js(v interface{}) string { b, err := json.Marshal(v); return fmt.Sprint(string(b), errS(err)) }
func errS(err error) string {
	if err == nil {
		return ""
	}
	return " err=" + err.Error()
}

func nopanic(t *testing.T) {
	if r := recover(); r != nil {
		t.Errorf("panic: %v", r)
	}
}

func TestDefectDeleteNested(t *testing.T) {
	e := ev(t, `{"a":{"b":1,"c":2}}`)
	e.Delete("a.b")
	if g := js(e); g != `{"a":{"c":2}}` {
		t.Error(g)
	}
}

func TestDefectNullGet(t *testing.T) { defer nopanic(t); ev(t, `{"a":null}`).Get("a.b") }
func TestDefectNullPut(t *testing.T) {
	defer nopanic(t)
	ev(t, `{"a":null}`).Put("a.b", event.Integer(1))
}
func TestDefectNilObjectPut(t *testing.T) {
	defer nopanic(t)
	e := event.New()
	e.Put("a", event.Object(nil))
	e.Put("a.b", event.Integer(1))
}
func TestDefectNullTryPut(t *testing.T) {
	e := ev(t, `{"a":null}`)
	if _, err := e.TryPut("a", event.Integer(1)); !errors.Is(err, event.ErrKeyExists) {
		t.Error("overwrote existing null", js(e))
	}
}
func TestDefectDrop(t *testing.T) {
	for _, m := range []string{"drop", "droperr"} {
		p := mk(t, `{"id":"x","processors":[{"fn":{"mode":"`+m+`"}},{"set":{"target_field":"z","value":1}}]}`)
		out, err := p.Process(ev(t, `{"a":1}`))
		if out != nil || err != nil {
			t.Error(m, js(out), err)
		}
	}
}
func TestDefectCancel(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"fn":{"mode":"cancel"}},{"set":{"target_field":"z","value":1}}]}`)
	out, err := p.Process(ev(t, `{"a":1}`))
	if js(out) != `{"a":1}` || err != nil {
		t.Error(js(out), err)
	}
}
func counters(p *pipeline.Pipeline) map[string]float64 {
	m := map[string]float64{}
	reg := prometheus.NewRegistry()
	for _, c := range p.Metrics() {
		reg.MustRegister(c)
	}
	fams, _ := reg.Gather()
	for _, f := range fams {
		for _, mm := range f.Metric {
			id := ""
			for _, l := range mm.Label {
				if l.GetName() == "component_id" {
					id = l.GetValue()
				}
			}
			m[id+" "+f.GetName()] = mm.Counter.GetValue()
		}
	}
	_ = dto.Metric{}
	return m
}
func TestDefectMetricsRecovered(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"fn":{"mode":"fail","on_failure":[{"fn":{}}]}}]}`)
	if _, err := p.Process(ev(t, `{"a":1}`)); err != nil {
		t.Fatal(err)
	}
	c := counters(p)
	if c["x.processors[0].fn es_component_errors_total"] != 0 || c["x.processors[0].fn es_component_sent_events_total"] != 1 {
		t.Error(c)
	}
}
func TestDefectMetricsDropped(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"fn":{"mode":"drop"}}]}`)
	p.Process(ev(t, `{"a":1}`))
	c := counters(p)
	if c["x.processors[0].fn es_component_discarded_events_total"] != 1 || c["x.processors[0].fn es_component_sent_events_total"] != 0 {
		t.Error(c)
	}
}
func TestDefectMetricsGlobal(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"fn":{}}],"on_failure":[{"fn":{}}]}`)
	if len(p.Metrics()) != 8 {
		t.Error(len(p.Metrics()))
	}
}
func TestDefectSetAlias(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"set":{"target_field":"tags","value":["a"]}},{"append":{"field":"tags","value":"b"}}]}`)
	p.Process(ev(t, `{}`))
	out, _ := p.Process(ev(t, `{}`))
	if g := js(out); g != `{"tags":["a","b"]}` {
		t.Error(g)
	}
	p = mk(t, `{"id":"x","processors":[{"set":{"target_field":"o","value":{"k":1}}},{"set":{"target_field":"o.ts","copy_from":"ts"}}]}`)
	p.Process(ev(t, `{"ts":1}`))
	out, _ = p.Process(ev(t, `{}`))
	if out != nil {
		t.Error(js(out))
	}
	e := event.New()
	p = mk(t, `{"id":"x","processors":[{"set":{"target_field":"o","value":{"k":1}}}]}`)
	p.Process(e)
	e.Put("o.leak", event.Integer(1))
	out, _ = p.Process(event.New())
	if g := js(out); g != `{"o":{"k":1}}` {
		t.Error("config leaked between events", g)
	}
}
func TestDefectSetCopyAlias(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"set":{"target_field":"b","copy_from":"a"}},{"append":{"field":"b","value":"z"}}]}`)
	out, _ := p.Process(ev(t, `{"a":["x"]}`))
	if g := js(out); g != `{"a":["x"],"b":["x","z"]}` {
		t.Error(g)
	}
}
func TestDefectAppendScalar(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"append":{"field":"a","value":"b"}}]}`)
	out, err := p.Process(ev(t, `{"a":"x"}`))
	if g := js(out); g != `{"a":["x","b"]}` {
		t.Error(g, err)
	}
	out, err = p.Process(ev(t, `{"a":1}`))
	if g := js(out); g != `{"a":[1,"b"]}` {
		t.Error(g, err)
	}
}
func TestDefectAppendDup(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"append":{"field":"a","value":"b"}}]}`)
	out, err := p.Process(ev(t, `{"a":["b"]}`))
	if g := js(out); g != `{"a":["b"]}` {
		t.Error(g, err)
	}
}
func TestDefectAppendError(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"append":{"field":"a.b","value":"b"}}]}`)
	if out, err := p.Process(ev(t, `{"a":1}`)); err == nil {
		t.Error("error lost", js(out))
	}
}
func TestDefectNullIsMissing(t *testing.T) {
	u, _ := uppercase.New(uppercase.Config{Field: "a", IgnoreMissing: true})
	e := event.New()
	e.Put("a", event.NullValue)
	if err := u.Process(pe{e}); !errors.Is(err, processor.ErrorKeyMissing{}) {
		t.Error(err)
	}
}

type pe struct{ *event.Event }

func (pe) Cancel() {}
func (pe) Drop()   {}

type myErr struct{ s string }

func (m *myErr) Error() string { return m.s }

func TestDefectReflectNilErr(t *testing.T) {
	defer nopanic(t)
	v, err := eventutil.ReflectValue((*myErr)(nil))
	if err != nil || v.Type != event.NullType {
		t.Error(v, err)
	}
}
func TestDefectReflectNilErrField(t *testing.T) {
	defer nopanic(t)
	v, err := eventutil.ReflectValue(struct{ Err error }{})
	if err != nil || v.Object["err"].Type != event.NullType {
		t.Error(v, err)
	}
}
func TestDefectReflectIfaceField(t *testing.T) {
	v, err := eventutil.ReflectValue(struct{ X interface{} }{5})
	if err != nil || v.Object["x"].Integer != 5 {
		t.Error(v, err)
	}
}

func TestDefectReflectSameKey(t *testing.T) {
	if v, err := eventutil.ReflectValue(map[interface{}]int{1: 1, "1": 2}); err == nil {
		t.Error(v, err)
	}
}
func TestDefectReflectSameField(t *testing.T) {
	if v, err := eventutil.ReflectValue(struct{ ID, Id int }{1, 2}); err == nil {
		t.Error(v, err)
	}
}

type up uintptr

func TestDefectReflectUintptr(t *testing.T) {
	if v, err := eventutil.ReflectValue(up(5)); err != nil || v.UnsignedInteger != 5 {
		t.Error(v, err)
	}
}
func TestDefectReflectTypedNilErrSlice(t *testing.T) {
	defer nopanic(t)
	if _, err := eventutil.ReflectValue([]error{nil, errors.New("x")}); err != nil {
		t.Error(err)
	}
}
func TestDefectMapNestedDots(t *testing.T) {
	in := map[string]interface{}{"a": map[string]interface{}{"b.c": "x"}}
	e, _ := mapinterface.ToEvent(in)
	if e.Get(`a.b\.c`) == nil || !reflect.DeepEqual(mapinterface.FromEvent(e), in) {
		t.Error(js(e))
	}
}
func TestDefectMapEmptyKey(t *testing.T) {
	e, err := mapinterface.ToEvent(map[string]interface{}{"": "x"})
	if err == nil {
		t.Error("dropped silently", js(e))
	}
}
func TestDefectMapBackslash(t *testing.T) {
	in := map[string]interface{}{`a\b`: "x"}
	e, _ := mapinterface.ToEvent(in)
	if !reflect.DeepEqual(mapinterface.FromEvent(e), in) {
		t.Error(js(e))
	}
}
func pbrt(t *testing.T, e *event.Event) *event.Event {
	b, err := proto.Marshal(protobuf.FromEvent(e))
	if err != nil {
		t.Fatal(err)
	}
	var m protobuf.MessageWrapper
	if err := proto.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	return protobuf.ToLogEvent(m.GetLog())
}
func TestDefectPBNestedDots(t *testing.T) {
	if g := js(pbrt(t, ev(t, `{"a":{"b.c":1}}`))); g != `{"a":{"b.c":1}}` {
		t.Error(g)
	}
}
func TestDefectPBNull(t *testing.T) {
	defer nopanic(t)
	if g := js(pbrt(t, ev(t, `{"a":null,"b":[null],"c":{"d":null}}`))); g != `{"a":null,"b":[null],"c":{"d":null}}` {
		t.Error(g)
	}
}
func TestDefectPBUnset(t *testing.T) {
	defer nopanic(t)
	protobuf.ToLogEvent(&protobuf.Log{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{"a": {}}}})
}
func TestDefectPBEmpty(t *testing.T) {
	if e := pbrt(t, event.New()); e == nil {
		t.Error("empty event became nil")
	}
}
func TestDefectNewNil(t *testing.T) {
	defer nopanic(t)
	if _, err := pipeline.New(nil); err == nil {
		t.Error("nil config accepted")
	}
}
func TestDefectProcessNil(t *testing.T) {
	defer nopanic(t)
	p := mk(t, `{"id":"x","processors":[{"set":{"target_field":"o","value":1}}]}`)
	p.Process(nil)
}
func TestDefectSeed(t *testing.T) {
	if _, err := registry.NewProcessor("community_id", map[string]interface{}{"seed": 40000}); err != nil {
		t.Error(err)
	}
}
func TestDefectRemove(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"remove":{"fields":["a"]}}]}`)
	if out, err := p.Process(ev(t, `{"a":1,"b":2}`)); err != nil || js(out) != `{"b":2}` {
		t.Error(js(out), err)
	}
	if out, err := p.Process(ev(t, `{"b":2}`)); err == nil {
		t.Error(js(out), err)
	}
}
func TestDefectIf(t *testing.T) {
	p := mk(t, `{"id":"x","processors":[{"set":{"if":"false","target_field":"o","value":1}}]}`)
	if out, _ := p.Process(event.New()); out.Get("o") != nil {
		t.Error("condition ignored")
	}
}
func TestDefectJSONInt(t *testing.T) {
	if g := js(ev(t, `{"a":9007199254740993}`)); g != `{"a":9007199254740993}` {
		t.Error(g)
	}
}
func TestDefectJSONEmptyArray(t *testing.T) {
	if g := js(event.Array()); g != `[]` {
		t.Error(g)
	}
	if g := js(event.New()); g != `{}` {
		t.Error(g)
	}
}

type badConf struct{}

func (b *badConf) Process(processor.Event) error { return nil }
func (b *badConf) Config() *fnConf               { return &fnConf{} }
func TestDefectConfigPtr(t *testing.T) {
	defer nopanic(t)
	registry.MustRegister("badconf", func(c fnConf) (*badConf, error) { return &badConf{}, nil })
	pipeline.New(&pipeline.Config{ID: "x", Processors: []pipeline.ProcessorConfig{{"badconf": nil}}})
}
func TestDefectRegisterNil(t *testing.T) {
	defer nopanic(t)
	registry.NewRegistry().Register("x", nil)
}
func TestDefectMapOrder(t *testing.T) {
	in := map[string]interface{}{"a.b": 1, "s": struct {
		A int `event:"x,string"`
	}{1}}
	e, err := mapinterface.ToEvent(in)
	t.Log(js(e), err)
}
func TestDefectJSONConfigRoundTrip(t *testing.T) {
	var c pipeline.ProcessorOptionConfig
	if err := json.Unmarshal([]byte(`{"ID":"x","value":1}`), &c); err != nil {
		t.Fatal(err)
	}
	t.Logf("%+v", c)
}

func TestDefectToLogEventNames(t *testing.T) {
	l := &protobuf.Log{Object: &protobuf.ValueObject{Fields: map[string]*protobuf.Value{
		"":     {Kind: &protobuf.Value_Boolean{Boolean: true}},
		`a\b`: {Kind: &protobuf.Value_Boolean{Boolean: true}},
	}}}
	if g := js(protobuf.ToLogEvent(l)); g != `{"":true,"a\\b":true}` {
		t.Error(g)
	}
}

func TestDefectJSONReuse(t *testing.T) {
	v := new(event.Value)
	for _, d := range []string{`[null]`, `[5]`} {
		if err := json.Unmarshal([]byte(d), v); err != nil {
			t.Fatal(err)
		}
	}
	if event.NullValue.Type != event.NullType {
		t.Errorf("NullValue is %v", event.NullValue)
	}
}
