P='pkg/serialization/protobuf/protobuf.go'
M='pkg/serialization/mapinterface/mapinterface.go'
ITEMS=[
dict(id='c07-utf8', property='C07', pkg='pkg/serialization/protobuf',
 edits=[(P,'[]byte(v.String),','bytes.ToValidUTF8([]byte(v.String), nil),'),(P,'import (\n','import (\n	"bytes"\n')],
 needs='a string value with bytes that are not valid UTF-8',
 breaks='invalid bytes of a string are dropped from the protobuf message',
 demo='''
package protobuf

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	evt := event.New()
	evt.Put("a.b", event.String("x\\xffy"))
	got := ToLogEvent(FromEvent(evt).GetLog())
	if s := got.Get("a.b").String; s != "x\\xffy" {
		t.Fatalf("got %q", s)
	}
}
'''),
dict(id='c07-null-elements', property='C07', pkg='pkg/serialization/protobuf',
 edits=[(P,'''			items = append(items, fromEventValue(x))
''','''			if x == nil || x.Type == event.NullType {
				continue
			}
			items = append(items, fromEventValue(x))
''')],
 needs='an array with a null element',
 breaks='null elements of arrays are dropped from the protobuf message',
 demo='''
package protobuf

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	evt := event.New()
	evt.Put("a", event.Array(event.NullValue, event.Integer(1)))
	got := ToLogEvent(FromEvent(evt).GetLog())
	if n := len(got.Get("a").Array); n != 2 {
		t.Fatalf("%d elements", n)
	}
}
'''),
dict(id='c08-empty-array', property='C08', pkg='pkg/serialization/mapinterface',
 edits=[(M,'''		items := make([]interface{}, 0, len(v.Array))
''','''		if len(v.Array) == 0 {
			return nil
		}
		items := make([]interface{}, 0, len(v.Array))
''')],
 needs='an empty array',
 breaks='an empty array becomes null when an event is converted to a map',
 demo='''
package mapinterface

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	evt := event.New()
	evt.Put("a", event.Array())
	if x, ok := FromEvent(evt)["a"].([]interface{}); !ok || len(x) != 0 {
		t.Fatal(FromEvent(evt))
	}
}
'''),
dict(id='c08-large-unsigned', property='C08', pkg='pkg/serialization/mapinterface',
 edits=[(M,'''		return v.UnsignedInteger
''','''		if n := int64(v.UnsignedInteger); n >= 0 {
			return v.UnsignedInteger
		}
		return float64(v.UnsignedInteger)
''')],
 needs='an unsigned integer of 2^63 or more',
 breaks='large unsigned integers become floating point numbers',
 demo='''
package mapinterface

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	evt := event.New()
	evt.Put("a", event.UnsignedInteger(1<<63+1))
	if x, ok := FromEvent(evt)["a"].(uint64); !ok || x != 1<<63+1 {
		t.Fatal(FromEvent(evt))
	}
}
'''),
]
