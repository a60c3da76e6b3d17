V='pkg/event/value.go'
E='pkg/event/event.go'
T='pkg/event/time.go'
P='pkg/serialization/protobuf/protobuf.go'
ITEMS=[
dict(id='c06-unsigned-form', property='C06', pkg='pkg/event',
 edits=[(V,'		return v.UnsignedInteger\n','		return int64(v.UnsignedInteger)\n')],
 needs='an unsigned integer of 2^63 or more, formatted or encoded as JSON',
 breaks='large unsigned integers are shown as negative numbers',
 demo='''
package event

import (
	"encoding/json"
	"fmt"
	"math"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	v := UnsignedInteger(math.MaxUint64)
	if b, _ := json.Marshal(v); string(b) != "18446744073709551615" {
		t.Errorf("got %s", b)
	}
	if s := fmt.Sprintf("%v", v); s != "unsigned_integer_type:18446744073709551615" {
		t.Errorf("got %s", s)
	}
}
'''),
dict(id='c06-shared-empty', property='C06', pkg='pkg/event',
 edits=[(V,'	return &Value{Type: ArrayType, Array: v}','''	if len(v) == 0 {
		return emptyArray
	}
	return &Value{Type: ArrayType, Array: v}'''),(V,'type ValueType uint8','var emptyArray = &Value{Type: ArrayType}\n\ntype ValueType uint8')],
 needs='two empty arrays made by event.Array, one of which is changed',
 breaks='all empty arrays are the same value, so changing one changes the others',
 demo='''
package event

import "testing"

func TestPlantedDemo(t *testing.T) {
	a, b := Array(), Array()
	a.Array = append(a.Array, Bool(true))
	if len(b.Array) != 0 {
		t.Fatal("another array has changed")
	}
}
'''),
dict(id='c06-proto-unsigned', property='C06', pkg='pkg/serialization/protobuf',
 edits=[(P,'return event.UnsignedInteger(t.UnsignedInteger)','return event.Integer(int64(t.UnsignedInteger))')],
 needs='an unsigned integer that is read from protobuf',
 breaks='unsigned integers become signed integers, negative ones from 2^63',
 demo='''
package protobuf

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	evt := event.New()
	evt.Put("a", event.UnsignedInteger(1<<63))
	if v := ToLogEvent(FromEvent(evt).GetLog()).Get("a"); v.Type != event.UnsignedIntegerType || v.UnsignedInteger != 1<<63 {
		t.Fatalf("got %v", v)
	}
}
'''),
dict(id='c32-event-merge', property='C32', pkg='pkg/event',
 edits=[(E,'	var fields map[string]*Value\n','	fields := e.fields\n')],
 needs='an event that is decoded into twice',
 breaks='members of the previous document remain in the event',
 demo='''
package event

import (
	"encoding/json"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	evt := New()
	for _, d := range []string{`{"a":1,"b":2}`, `{"a":3}`} {
		if err := json.Unmarshal([]byte(d), evt); err != nil {
			t.Fatal(err)
		}
	}
	if v := evt.Get("b"); v != nil {
		t.Fatalf("b is %v", v)
	}
}
'''),
dict(id='c32-zero-time', property='C32', pkg='pkg/event',
 edits=[(T,"""	return []byte(`"` + t.GoTime().Format(time.RFC3339Nano) + `"`), nil""","""	gt := t.GoTime()
	if gt.Unix() == 0 {
		return []byte("null"), nil
	}
	return []byte(`"` + gt.Format(time.RFC3339Nano) + `"`), nil""")],
 needs='the timestamp 1970-01-01T00:00:00Z',
 breaks='the timestamp is encoded as null',
 demo='''
package event

import (
	"encoding/json"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	b, err := json.Marshal(Timestamp(0))
	if err != nil || string(b) != `"1970-01-01T00:00:00Z"` {
		t.Fatalf("got %s, %v", b, err)
	}
}
'''),
dict(id='c32-nul', property='C32', pkg='pkg/event',
 edits=[(V,'json.Unmarshal(data, &value)','json.Unmarshal(bytes.ReplaceAll(data, []byte("\\\\u0000"), nil), &value)')],
 needs='a JSON string that contains \\u0000',
 breaks='NUL characters are dropped from decoded strings',
 demo='''
package event

import (
	"encoding/json"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	evt := New()
	if err := json.Unmarshal([]byte(`{"a":"x\\u0000y"}`), evt); err != nil {
		t.Fatal(err)
	}
	if s := evt.Get("a").String; s != "x\\x00y" {
		t.Fatalf("got %q", s)
	}
}
'''),
]
