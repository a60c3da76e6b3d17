E='pkg/event/event.go'
EU='pkg/eventutil/event.go'
PB='pkg/serialization/protobuf/protobuf.go'
MI='pkg/serialization/mapinterface/mapinterface.go'
S='pkg/processor/set/process.go'
ITEMS=[
dict(id='c04-exists-detail', property='C04', pkg='pkg/event',
 edits=[(E,'	if old != nil && !overwrite {\n		return old, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)\n','	if old != nil && !overwrite {\n		return old, fmt.Errorf("event put failed for path <%s> (%s): %w", pathString(path), old.summary(), ErrKeyExists)\n'),
  (E,'func pathString(','''// summary describes the value for error messages.
func (v *Value) summary() string {
	switch v.Type {
	case ArrayType:
		return "array of " + v.Array[0].Type.String()
	case ObjectType:
		return "object"
	}
	return v.Type.String()
}

func pathString(''')],
 needs='TryPut on a key that holds an array without elements (or with a nil element first)',
 breaks='describing the existing value for the error panics',
 demo='''
package event

import "testing"

func TestPlantedDemo(t *testing.T) {
	e := New()
	e.Put("tags", Array(String("a")))
	if _, err := e.TryPut("tags", String("x")); err == nil {
		t.Fatal("no error")
	}
	e.Put("tags", Array())
	if _, err := e.TryPut("tags", String("x")); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='c04-append-homogeneous', property='C04', pkg='pkg/eventutil',
 edits=[(EU,'	if item.Type == event.ArrayType {\n','	if item.Type == event.ArrayType && item.Array[0] != targetValue {\n')],
 needs='an array without elements is appended',
 breaks='the first element of the appended array is read although there may be none',
 demo='''
package eventutil

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	e := event.New()
	if err := Append(e, "tags", event.Array(event.String("a"))); err != nil {
		t.Fatal(err)
	}
	if err := Append(e, "tags", event.Array()); err != nil {
		t.Fatal(err)
	}
	if n := len(e.Get("tags").Array); n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id='c04-proto-kind', property='C04', pkg='pkg/serialization/protobuf',
 edits=[(PB,'	switch t := v.GetKind().(type) {\n','	switch t := v.Kind.(type) {\n')],
 needs='a message whose list or map has a nil entry',
 breaks='decoding such a message panics instead of giving a null',
 demo='''
package protobuf

import "testing"

func TestPlantedDemo(t *testing.T) {
	l := &Log{Object: &ValueObject{Fields: map[string]*Value{"a": {Kind: &Value_Array{Array: &ValueArray{Items: []*Value{nil}}}}}}}
	if e := ToLogEvent(l); e.Get("a") == nil {
		t.Fatal("a is missing")
	}
}
'''),
dict(id='c04-map-nil-element', property='C04', pkg='pkg/serialization/mapinterface',
 edits=[(MI,'''	for k, v := range v.Object {
		fields[k] = fromEventValue(v)
''','''	for k, v := range v.Object {
		if v == nil {
			fields[k] = nil
			continue
		}
		fields[k] = fromEventValue(v)
'''),(MI,'''func fromEventValue(v *event.Value) interface{} {
	if v == nil {
		return nil
	}

''','''func fromEventValue(v *event.Value) interface{} {
''')],
 needs='an array with a nil element somewhere in the event',
 breaks='the check for an absent value moved to the members of objects, elements of arrays are not covered',
 demo='''
package mapinterface

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	e := event.New()
	e.Put("o.m", event.Object(map[string]*event.Value{"x": nil}))
	FromEvent(e)
	e.Put("a", event.Array(event.String("x"), nil))
	if l := FromEvent(e)["a"].([]interface{}); len(l) != 2 || l[1] != nil {
		t.Fatal(l)
	}
}
'''),
dict(id='c04-delete-prune', property='C04', pkg='pkg/event',
 edits=[(E,'	delete(parent.Object, key)\n	return v\n','''	delete(parent.Object, key)
	if len(parent.Object) == 0 && v != nil && len(v.Object) == 0 && v.Type == ObjectType {
		// nothing is left there, remove the parent if it is empty, too
		up := e.get(path[:len(path)-2])
		if len(up.Object[path[len(path)-2]].Object) == 0 {
			delete(up.Object, path[len(path)-2])
		}
	}
	return v
''')],
 needs='the only field of an event is an object without members and is deleted',
 breaks='the parent of the root is looked up',
 demo='''
package event

import "testing"

func TestPlantedDemo(t *testing.T) {
	e := New()
	e.Put("o", Object(nil))
	if v := e.Delete("o"); v == nil {
		t.Fatal("nothing deleted")
	}
}
'''),
]
