import importlib.util, os
spec = importlib.util.spec_from_file_location('core', os.path.join(os.path.dirname(__file__), 'core.py')); core = importlib.util.module_from_spec(spec); spec.loader.exec_module(core)
PROC='''
package %s

import (
	"errors"
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
)

type demoEvent struct{ *event.Event }

func (demoEvent) Drop()   {}
func (demoEvent) Cancel() {}

var _ processor.Event = demoEvent{}
var _ = errors.Is

func TestPlantedDemo(t *testing.T) {
	evt := demoEvent{event.New()}
'''
ITEMS=[
dict(id='c22-title-case', property='C22', pkg='pkg/processor/uppercase',
 edits=[('pkg/processor/uppercase/process.go','strings.ToUpper(v.String)','strings.ToTitle(v.String)')],
 needs='a string with a letter whose title case differs from its upper case (a digraph such as U+01C6)',
 breaks='uppercase stores the title-case form of the string instead of its upper-case form',
 demo=PROC%'uppercase'+'''
	p, err := New(Config{Field: "a"})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("a", event.String("x\\u01c6"))
	if err := p.Process(evt); err != nil {
		t.Fatal(err)
	}
	if got := evt.Get("a").String; got != "X\\u01c4" {
		t.Fatalf("got %q", got)
	}
}
'''),
dict(id='c22-unchanged', property='C22', pkg='pkg/processor/uppercase',
 edits=[('pkg/processor/uppercase/process.go','	_, err := evt.Put(targetField, event.String(out))','	if out == v.String {\n		// Nothing to convert.\n		return nil\n	}\n\n	_, err := evt.Put(targetField, event.String(out))'),
        ('pkg/processor/uppercase/process.go','	out := strings.ToUpper(v.String)\n\n	targetField','	out := strings.ToUpper(v.String)\n	targetField')],
 needs='a target_field and a source string that is upper case already',
 breaks='uppercase does not store the converted string in target_field if the conversion does not change it',
 demo=PROC%'uppercase'+'''
	p, err := New(Config{Field: "a", TargetField: "b"})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("a", event.String("X"))
	if err := p.Process(evt); err != nil {
		t.Fatal(err)
	}
	if v := evt.Get("b"); v == nil || v.String != "X" {
		t.Fatalf("got %v", v)
	}
}
'''),
dict(id='c23-alias', property='C23', pkg='pkg/processor/set',
 edits=[('pkg/processor/set/process.go','''		v = evt.Get(p.config.CopyFrom)
		if v == nil {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
		v = v.Clone()
''','''		src := evt.Get(p.config.CopyFrom)
		if src == nil {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
		c := *src
		v = &c
''')],
 needs='an object or array copied with copy_from whose members are changed later through one of the two fields',
 breaks='set makes a shallow copy: members of source and target are shared',
 demo=PROC%'set'+'''
	p, err := New(Config{CopyFrom: "a", TargetField: "b"})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("a.x", event.Integer(1))
	if err := p.Process(evt); err != nil {
		t.Fatal(err)
	}
	evt.Put("b.x", event.Integer(2))
	if got := evt.Get("a.x").Integer; got != 1 {
		t.Fatalf("a.x is %d", got)
	}
}
'''),
dict(id='c24-null-elements', property='C24', pkg='pkg/eventutil',
 edits=[('pkg/eventutil/event.go','''			targetValue.Array = append(targetValue.Array, v)
''','''			if v != nil && v.Type != event.NullType {
				targetValue.Array = append(targetValue.Array, v)
			}
''')],
 needs='appending an array that has a null element',
 breaks='null elements of the appended array are dropped',
 demo='''
package eventutil

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	evt := event.New()
	evt.Put("a", event.Array(event.Integer(1)))
	if err := Append(evt, "a", event.Array(event.Integer(2), event.NullValue, event.Integer(3))); err != nil {
		t.Fatal(err)
	}
	if got := len(evt.Get("a").Array); got != 4 {
		t.Fatalf("%d elements", got)
	}
}
'''),
dict(id='c24-not-stored', property='C24', pkg='pkg/eventutil',
 edits=[('pkg/eventutil/event.go','''	// Overwrite the existing value.
	_, err := evt.Put(key, targetValue)
	return err
''','''	// Arrays are extended in place, anything else is overwritten.
	if v := evt.Get(key); v != nil && v.Type == item.Type {
		return nil
	}
	_, err := evt.Put(key, targetValue)
	return err
''')],
 needs='a scalar field to which a scalar of the same type is appended',
 breaks='the new array is not stored when the existing scalar has the type of the appended item',
 demo='''
package eventutil

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	evt := event.New()
	evt.Put("a", event.Bool(true))
	if err := Append(evt, "a", event.Bool(false)); err != nil {
		t.Fatal(err)
	}
	if v := evt.Get("a"); v.Type != event.ArrayType || len(v.Array) != 2 {
		t.Fatalf("got %v", v)
	}
}
'''),
dict(id='c25-sorted', property='C25', pkg='pkg/processor/remove',
 edits=[('pkg/processor/remove/remove.go','	return &Remove{config: config}, nil','	fields := append([]string(nil), config.Fields...)\n	sort.Strings(fields)\n	config.Fields = fields\n	p := &Remove{config: config}\n	return p, nil'),
        ('pkg/processor/remove/remove.go','import (\n','import (\n	"sort"\n\n')],
 needs='fields that are not in alphabetical order, one of which is absent',
 breaks='fields are removed in alphabetical instead of the configured order, so a missing one stops the removal of fields listed before it',
 demo=PROC%'remove'+'''
	p, err := New(Config{Fields: []string{"z", "a"}})
	if err != nil {
		t.Fatal(err)
	}
	evt.Put("z", event.Integer(1))
	if err := p.Process(evt); !errors.Is(err, processor.ErrorKeyMissing{}) {
		t.Fatal(err)
	}
	if evt.Get("z") != nil {
		t.Fatal("z is still there")
	}
}
'''),
dict(id='c26-key-length', property='C26', pkg='pkg/processor',
 edits=[('pkg/processor/error.go','''	_, ok := target.(ErrorKeyMissing)
	return ok
''','''	t, ok := target.(ErrorKeyMissing)
	return ok && len(t.Key) <= len(e.Key)
''')],
 needs='a missing-key error compared with one for a longer key',
 breaks='whether a missing-key error matches depends on the keys',
 demo='''
package processor

import (
	"errors"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	if !errors.Is(ErrorKeyMissing{Key: "a"}, ErrorKeyMissing{Key: "some.key"}) {
		t.Fatal("no match")
	}
}
'''),
dict(id='c26-null-source', property='C26', pkg='pkg/processor/uppercase',
 edits=[('pkg/processor/uppercase/process.go','''	if v == nil || v.Type == event.NullType {
		return processor.ErrorKeyMissing{Key: p.config.Field}
	}
''','''	if v == nil || v.Type == event.NullType {
		return processor.ErrorKeyMissing{Key: p.config.TargetField}
	}
''')],
 needs='a missing source field',
 breaks='the missing-key error names the target field instead of the missing one',
 demo=PROC%'uppercase'+'''
	p, err := New(Config{Field: "a", TargetField: "b"})
	if err != nil {
		t.Fatal(err)
	}
	var e processor.ErrorKeyMissing
	if err := p.Process(evt); !errors.As(err, &e) || e.Key != "a" {
		t.Fatal(err)
	}
}
'''),
]
