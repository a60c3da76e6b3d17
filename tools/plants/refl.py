R='pkg/eventutil/reflect.go'
C='pkg/config/config.go'
ITEMS=[
dict(id='c09-omitempty', property='C09', pkg='pkg/eventutil',
 edits=[(R,'			if reflect.DeepEqual(current, zero) {','			if reflect.DeepEqual(current, zero) || val.Kind() == reflect.Struct && len(structFields(val)) == 0 {')],
 needs='an omitempty field holding a struct whose fields are all unexported, such as a named time type, that is not zero',
 breaks='a non-zero omitempty field is left out of the object',
 demo='''
package eventutil

import (
	"testing"
	"time"
)

type plantedStamp time.Time

type plantedT struct {
	At plantedStamp `event:"at,omitempty"`
}

func TestPlantedDemo(t *testing.T) {
	v, err := ReflectValue(plantedT{At: plantedStamp(time.Unix(1600000000, 0))})
	if err != nil {
		t.Fatal(err)
	}
	if v.Object["at"] == nil {
		t.Fatal("the field is missing")
	}
}
'''),
dict(id='c09-map-key', property='C09', pkg='pkg/eventutil',
 edits=[(R,'		key := fmt.Sprintf("%v", m.Key())','		key := strings.TrimSpace(fmt.Sprintf("%v", m.Key()))')],
 needs='map keys that begin or end with a space',
 breaks='spaces around map keys are dropped, so members can overwrite each other',
 demo='''
package eventutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	v, err := ReflectValue(map[interface{}]string{"1": "a", "1 ": "b"})
	if err != nil {
		t.Fatal(err)
	}
	if len(v.Object) != 2 || v.Object["1"] == nil {
		t.Fatal("members are lost")
	}
}
'''),
dict(id='c09-nested-unsupported', property='C09', pkg='pkg/eventutil',
 edits=[(R,'''		val, err := interfaceToValue(m.Value().Interface())
		if err != nil {
''','''		val, err := interfaceToValue(m.Value().Interface())
		if unsupported, ok := err.(*UnsupportedTypeError); ok && unsupported.Type.Kind() == reflect.Func {
			continue
		}
		if err != nil {
''')],
 needs='a function as a member of a nested map of a type other than map[string]interface{}',
 breaks='a value that cannot be represented is dropped instead of failing the conversion',
 demo='''
package eventutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	_, err := ReflectValue(map[string]interface{}{"a": map[string]func(){"f": func() {}}})
	if err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='c09-named-unsigned', property='C09', pkg='pkg/eventutil',
 edits=[(R,'		return event.UnsignedInteger(rv.Uint()), nil','		return event.UnsignedInteger(uint64(uint32(rv.Uint()))<<32>>32 | rv.Uint()>>33<<33), nil')],
 needs='a named unsigned integer (or a pointer to an unsigned integer) with bit 32 set',
 breaks='bit 32 of unsigned integers converted through reflection is lost',
 demo='''
package eventutil

import "testing"

func TestPlantedDemo(t *testing.T) {
	u := uint64(1) << 32
	v, err := ReflectValue(&u)
	if err != nil {
		t.Fatal(err)
	}
	if v.UnsignedInteger != u {
		t.Fatal(v.UnsignedInteger)
	}
}
'''),
]
