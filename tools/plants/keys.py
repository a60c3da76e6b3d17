E='pkg/event/event.go'
EU='pkg/eventutil/event.go'
PARSE='''
package event

import (
	"reflect"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	for key, want := range map[string][]string{
%s	} {
		e := New()
		if _, err := e.Put(key, String("x")); err != nil {
			t.Fatalf("%%q: %%v", key, err)
		}
		v := Object(e.fields)
		var got []string
		for v.Type == ObjectType {
			if len(v.Object) != 1 {
				t.Fatalf("%%q: %%d members", key, len(v.Object))
			}
			for k, m := range v.Object {
				got = append(got, k)
				v = m
			}
		}
		if !reflect.DeepEqual(got, want) {
			t.Fatalf("%%q: got %%q, want %%q", key, got, want)
		}
	}
}
'''
def demo(*cases):
    return PARSE % ''.join('\t\t%s: {%s},\n' % (k, ', '.join(s)) for k, s in cases)
ESC='''
package eventutil

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

func TestPlantedDemo(t *testing.T) {
	for _, name := range []string{"a", "a.b", "a.b.c", ".a", "a.", "a..b", "."} {
		e := event.New()
		if _, err := e.Put(EscapeKey(name), event.String("x")); err != nil {
			t.Fatalf("%q: %v", name, err)
		}
		data, err := e.MarshalJSON()
		if err != nil {
			t.Fatal(err)
		}
		if got, want := string(data), `{"`+name+`":"x"}`; got != want {
			t.Fatalf("%q: got %s, want %s", name, got, want)
		}
	}
}
'''
ITEMS=[
dict(id='c05-parse-runes', property='C05', pkg='pkg/event',
 edits=[(E,'	for i := 0; i < len(key); i++ {\n		switch c := key[i]; c {\n','	for _, r := range key {\n		switch c := byte(r); c {\n')],
 needs='a key with a character that takes more than one byte',
 breaks='characters outside ASCII are cut to their low byte in the segments',
 demo=demo(('"a.b"',['"a"','"b"']),('"größe.b"',['"größe"','"b"']))),
dict(id='c05-escape-sticky', property='C05', pkg='pkg/event',
 edits=[(E,"""				pathScratch = append(pathScratch, '.')
			} else {
				if len(pathScratch) > 0 {
					paths = append(paths, string(pathScratch))
					pathScratch = pathScratch[:0]
				}
			}
			escape = false
""","""				pathScratch = append(pathScratch, '.')
			} else {
				if len(pathScratch) > 0 {
					paths = append(paths, string(pathScratch))
					pathScratch = pathScratch[:0]
				}
				escape = false
			}
""")],
 needs='an escaped dot that is followed at once by a separating dot',
 breaks='the second dot of an escaped pair counts as escaped as well',
 demo=demo((r'"a\\.b.c"',['"a.b"','"c"']),(r'"a\\..b"',['"a."','"b"']))),
dict(id='c05-escape-far', property='C05', pkg='pkg/event',
 edits=[(E,"""		default:
			pathScratch = append(pathScratch, c)
			escape = false
		}
""","""		default:
			pathScratch = append(pathScratch, c)
		}
""")],
 needs='a backslash before a character that is not a dot, and a dot later',
 breaks='a backslash escapes the next dot however far away it is',
 demo=demo((r'"a\\.b"',['"a.b"']),(r'"c\\d.e"',['"cd"','"e"']))),
dict(id='c05-split-fast', property='C05', pkg='pkg/event',
 edits=[(E,"""	var paths []string
	var pathScratch []byte
""","""	if strings.IndexByte(key, '\\\\') < 0 {
		// Nothing is escaped.
		if key = strings.Trim(key, "."); key == "" {
			return nil
		}
		return strings.Split(key, ".")
	}

	var paths []string
	var pathScratch []byte
"""),(E,"	var escape bool\n	for i := 0; i < len(key); i++ {\n","	escape := false\n	for i := 0; i < len(key); i++ {\n")],
 needs='a key without backslashes that has two dots in a row inside',
 breaks='an empty segment is addressed between two dots',
 demo=demo(('".a.b."',['"a"','"b"']),('"a..b"',['"a"','"b"']))),
dict(id='c05-trailing-backslash', property='C05', pkg='pkg/event',
 edits=[(E,"""	if len(pathScratch) > 0 {
		paths = append(paths, string(pathScratch))
	}

	return paths
""","""	if len(pathScratch) > 0 || escape {
		paths = append(paths, string(pathScratch))
	}

	return paths
""")],
 needs='a key that ends in a separating dot and a backslash',
 breaks='a segment with an empty name is addressed',
 demo=demo(('"a."',['"a"']),(r'"a.\\"',['"a"']))),
dict(id='c05-scratch-share', property='C05', pkg='pkg/event',
 edits=[(E,"""			escape = false
		default:
			pathScratch = append(pathScratch, c)
			escape = false
""","""			escape = false
		default:
			if pathScratch == nil {
				pathScratch = make([]byte, 0, 32)
			}
			if len(pathScratch) < cap(pathScratch) {
				pathScratch = append(pathScratch, c)
			}
			escape = false
""")],
 needs='a key with a segment of more than 32 characters',
 breaks='segments longer than the scratch buffer are cut off, so that different keys address the same value',
 demo=demo(('"a.b"',['"a"','"b"']),('"a234567890123456789012345678901234.b"',['"a234567890123456789012345678901234"','"b"']))),
dict(id='c05-escape-first', property='C05', pkg='pkg/eventutil',
 edits=[(EU,"""	if strings.IndexByte(key, '.') == -1 {
		return key
	}
	return strings.ReplaceAll(key, ".", `\\.`)
""","""	i := strings.IndexByte(key, '.')
	if i == -1 {
		return key
	}
	return key[:i] + `\\` + key[i:]
""")],
 needs='a name with more than one dot',
 breaks='only the first dot is escaped, so the name addresses more than one segment',
 demo=ESC),
dict(id='c05-escape-fields', property='C05', pkg='pkg/eventutil',
 edits=[(EU,"	return strings.ReplaceAll(key, \".\", `\\.`)\n","	return strings.Join(strings.FieldsFunc(key, func(r rune) bool { return r == '.' }), `\\.`)\n")],
 needs='a name that starts or ends with a dot or has two dots in a row',
 breaks='dots at the ends of a name and doubled dots disappear',
 demo=ESC),
]
