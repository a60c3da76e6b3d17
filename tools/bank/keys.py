E='pkg/event/event.go'
U='pkg/eventutil/event.go'
src=open('/repo/'+E).read()
i=src.index('func keyToPath('); j=src.index('func pathString(')
BODY=src[i:j]
us=open('/repo/'+U).read()
UB=us[us.index('func EscapeKey('):]
def K(body): return [(E,BODY,body.strip('\n')+'\n\n')]
def sub(*prs):
    b=BODY
    for a,c in prs:
        assert a in b,a
        b=b.replace(a,c,1)
    return [(E,BODY,b)]
def X(body,imp=None):
    r=[(U,UB,body.strip('\n')+'\n')]
    if imp: r.insert(0,(U,'import (\n','import (\n'+imp))
    return r
ITEMS=[
 ('key-escape-sticky','C05',sub(("				pathScratch = append(pathScratch, '.')\n			} else {","				pathScratch = append(pathScratch, '.')\n				continue\n			} else {"))),
 ('key-escape-other-keeps','C05',sub(("			pathScratch = append(pathScratch, c)\n			escape = false","			pathScratch = append(pathScratch, c)"))),
 ('key-empty-segments','C05',sub(("				if len(pathScratch) > 0 {\n					paths","				if len(paths) > 0 || len(pathScratch) > 0 {\n					paths"))),
 ('key-trailing','C05',sub(("	if len(pathScratch) > 0 {\n		paths = append(paths, string(pathScratch))\n	}\n\n	return","	if len(pathScratch) > 1 {\n		paths = append(paths, string(pathScratch))\n	}\n\n	return"))),
 ('key-scratch-not-reset','C05',sub(("					pathScratch = pathScratch[:0]\n","					if len(paths) < 8 {\n						pathScratch = pathScratch[:0]\n					}\n"))),
 ('key-double-backslash','C05',sub(("			escape = true","			if escape {\n				pathScratch = append(pathScratch, c)\n				escape = false\n				continue\n			}\n			escape = true"))),
 ('key-toggle','C05',sub(("			escape = true","			escape = !escape"))),
 ('key-other-backslash-kept','C05',sub(("			pathScratch = append(pathScratch, c)\n","			if escape {\n				pathScratch = append(pathScratch, '\\\\')\n			}\n			pathScratch = append(pathScratch, c)\n"))),
 ('key-range-runes','C05',sub(("for i := 0; i < len(key); i++ {","for _, r := range key {"),("switch c := key[i]; c {","switch c := byte(r); c {"))),
 ('key-range-index','C05',sub(("for i := 0; i < len(key); i++ {","for i := range key {"))),
 ('key-skip-last','C05',sub(("i < len(key); i++","i < len(key) && len(paths) < 32; i++"))),
 ('key-start-one','C05',sub(("for i := 0; i","for i := len(key) & 0; i"),("	for i","	if len(key) > 0 && key[0] == '\\\\' {\n		key = key[1:]\n	}\n	for i"))),
 ('key-space','C05',sub(("		default:\n","		case ' ':\n			escape = false\n		default:\n"))),
 ('key-lower','C05',sub(("append(pathScratch, c)","append(pathScratch, c|0x20)"))),
 ('key-fast-path','C05',sub(("	var paths []string\n","	if strings.IndexByte(key, '.') < 0 {\n		return []string{key}\n	}\n	var paths []string\n"))),
 ('key-fast-empty','C05',sub(("	var paths []string\n","	if !strings.ContainsAny(key, `.\\`) {\n		return []string{key}\n	}\n	var paths []string\n"))),
 ('key-lookahead-skip','C05',K('''
func keyToPath(key string) []string {
	var paths []string
	var seg []byte
	for i := 0; i < len(key); i++ {
		c := key[i]
		if c == '\\\\' && i+1 < len(key) {
			i++
			seg = append(seg, key[i])
			continue
		}
		if c == '.' {
			if len(seg) > 0 {
				paths = append(paths, string(seg))
			}
			seg = seg[:0]
			continue
		}
		seg = append(seg, c)
	}
	if len(seg) > 0 {
		paths = append(paths, string(seg))
	}
	return paths
}''')),
 ('key-runes-writerune','C05',K('''
func keyToPath(key string) []string {
	var paths []string
	var seg strings.Builder
	escape := false
	for i := 0; i < len(key); i++ {
		switch c := key[i]; {
		case c == '\\\\':
			escape = true
			continue
		case c == '.' && !escape:
			if seg.Len() > 0 {
				paths = append(paths, seg.String())
				seg.Reset()
			}
		default:
			seg.WriteRune(rune(c))
		}
		escape = false
	}
	if seg.Len() > 0 {
		paths = append(paths, seg.String())
	}
	return paths
}''')),
 ('key-prepend','C05',sub(("					paths = append(paths, string(pathScratch))","					paths = append([]string{string(pathScratch)}, paths...)"))),
 ('esc-first-only','C05',X('''
func EscapeKey(key string) string {
	if strings.IndexByte(key, '.') == -1 {
		return key
	}
	return strings.Replace(key, ".", `\\.`, 1)
}''')),
 ('esc-idempotent','C05',X('''
func EscapeKey(key string) string {
	if strings.IndexByte(key, '.') < 1 {
		return key
	}
	return strings.ReplaceAll(key, ".", `\\.`)
}''')),
 ('esc-loop-skip','C05',X('''
func EscapeKey(key string) string {
	var sb strings.Builder
	for i := 0; i < len(key); i++ {
		if key[i] == '.' && i > 0 {
			sb.WriteByte('\\\\')
		}
		sb.WriteByte(key[i])
	}
	return sb.String()
}''')),
 ('esc-double','C05',X('''
func EscapeKey(key string) string {
	if strings.IndexByte(key, '.') == -1 {
		return key
	}
	return strings.ReplaceAll(key, ".", `\\\\.`)+""
}''')),
 ('esc-trim','C05',X('''
func EscapeKey(key string) string {
	return strings.ReplaceAll(strings.Trim(key, "."), ".", `\\.`)
}''')),
 # ---- keep the behaviour
 ('ref-key-if','',sub(("		switch c := key[i]; c {\n		case '\\\\':\n			escape = true\n		case '.':\n			if escape {","		c := key[i]\n		if c == '\\\\' {\n			escape = true\n		} else if c == '.' {\n			if escape {"),("			escape = false\n		default:\n","			escape = false\n		} else {\n"))),
 ('ref-key-bytes','',sub(("for i := 0; i < len(key); i++ {","for _, c := range []byte(key) {"),("switch c := key[i]; c {","switch c {"))),
 ('ref-key-builder','',K('''
func keyToPath(key string) []string {
	var paths []string
	var seg strings.Builder
	escape := false
	for i := 0; i < len(key); i++ {
		switch c := key[i]; {
		case c == '\\\\':
			escape = true
			continue
		case c == '.' && !escape:
			if seg.Len() > 0 {
				paths = append(paths, seg.String())
				seg.Reset()
			}
		default:
			seg.WriteByte(c)
		}
		escape = false
	}
	if seg.Len() > 0 {
		paths = append(paths, seg.String())
	}
	return paths
}''')),
 ('ref-key-flush','',K('''
func keyToPath(key string) []string {
	var paths []string
	var scratch []byte
	flush := func() {
		if len(scratch) == 0 {
			return
		}
		paths = append(paths, string(scratch))
		scratch = scratch[:0]
	}
	var escape bool
	for i := 0; i < len(key); i++ {
		c := key[i]
		if c == '\\\\' {
			escape = true
			continue
		}
		if c == '.' && !escape {
			flush()
		} else {
			scratch = append(scratch, c)
		}
		escape = false
	}
	flush()
	return paths
}''')),
 ('ref-key-prev','',K('''
func keyToPath(key string) []string {
	paths := make([]string, 0, strings.Count(key, ".")+1)
	scratch := make([]byte, 0, len(key))
	var prev byte
	for i := 0; i < len(key); i++ {
		c := key[i]
		if c == '.' && prev != '\\\\' {
			if len(scratch) > 0 {
				paths = append(paths, string(scratch))
				scratch = scratch[:0]
			}
		} else if c != '\\\\' {
			scratch = append(scratch, c)
		}
		prev = c
	}
	if len(scratch) > 0 {
		paths = append(paths, string(scratch))
	}
	return paths
}''')),
 ('ref-key-lookback','',K('''
func keyToPath(key string) []string {
	var paths []string
	var seg string
	for i := 0; i < len(key); i++ {
		switch c := key[i]; {
		case c == '\\\\':
		case c == '.' && (i == 0 || key[i-1] != '\\\\'):
			if seg != "" {
				paths = append(paths, seg)
				seg = ""
			}
		default:
			seg += key[i : i+1]
		}
	}
	if seg != "" {
		paths = append(paths, seg)
	}
	return paths
}''')),
 ('ref-key-lookahead','',K('''
func keyToPath(key string) []string {
	var paths []string
	var seg []byte
	for i := 0; i < len(key); i++ {
		c := key[i]
		if c == '\\\\' {
			if i+1 < len(key) && key[i+1] == '.' {
				seg = append(seg, '.')
				i++
			}
			continue
		}
		if c != '.' {
			seg = append(seg, c)
			continue
		}
		if len(seg) > 0 {
			paths = append(paths, string(seg))
			seg = nil
		}
	}
	if len(seg) > 0 {
		paths = append(paths, string(seg))
	}
	return paths
}''')),
 ('ref-key-rest','',K('''
func keyToPath(key string) []string {
	var paths []string
	var seg []byte
	escape := false
	for rest := key; rest != ""; rest = rest[1:] {
		switch c := rest[0]; {
		case c == '\\\\':
			escape = true
		case c == '.' && !escape:
			if len(seg) > 0 {
				paths = append(paths, string(seg))
				seg = seg[:0]
			}
		default:
			seg = append(seg, c)
			escape = false
		}
	}
	if len(seg) > 0 {
		paths = append(paths, string(seg))
	}
	return paths
}'''.replace("seg = seg[:0]\n			}","seg = seg[:0]\n			}\n			escape = false"))),
 ('ref-key-nested','',K('''
func nextSegment(key string) (seg string, rest string) {
	var buf []byte
	escape := false
	for i := 0; i < len(key); i++ {
		c := key[i]
		if c == '.' && !escape {
			return string(buf), key[i+1:]
		}
		if c != '\\\\' {
			buf = append(buf, c)
		}
		escape = c == '\\\\'
	}
	return string(buf), ""
}

func keyToPath(key string) []string {
	var paths []string
	for len(key) > 0 {
		var seg string
		seg, key = nextSegment(key)
		if seg != "" {
			paths = append(paths, seg)
		}
	}
	return paths
}''')),
 ('ref-key-struct','',K('''
type keyParser struct {
	paths   []string
	scratch []byte
	escape  bool
}

func (p *keyParser) flush() {
	if len(p.scratch) > 0 {
		p.paths = append(p.paths, string(p.scratch))
		p.scratch = p.scratch[:0]
	}
}

func (p *keyParser) add(c byte) {
	switch c {
	case '\\\\':
		p.escape = true
		return
	case '.':
		if p.escape {
			p.scratch = append(p.scratch, c)
		} else {
			p.flush()
		}
	default:
		p.scratch = append(p.scratch, c)
	}
	p.escape = false
}

func keyToPath(key string) []string {
	var p keyParser
	for i := 0; i < len(key); i++ {
		p.add(key[i])
	}
	p.flush()
	return p.paths
}''')),
 ('ref-key-fast','',sub(("	var paths []string\n","	if key == \"\" {\n		return nil\n	}\n	if !strings.ContainsAny(key, `.\\`) {\n		return []string{key}\n	}\n	var paths []string\n"))),
 ('ref-key-fast2','',sub(("	var paths []string\n","	if key != \"\" && strings.IndexByte(key, '.') < 0 && strings.IndexByte(key, '\\\\') < 0 {\n		return []string{key}\n	}\n	var paths []string\n"))),
 ('ref-key-helper','',sub(("				if len(pathScratch) > 0 {\n					paths = append(paths, string(pathScratch))\n					pathScratch = pathScratch[:0]\n				}","				paths = addSegment(paths, pathScratch)\n				pathScratch = pathScratch[:0]"),("	if len(pathScratch) > 0 {\n		paths = append(paths, string(pathScratch))\n	}\n\n	return paths\n}","	return addSegment(paths, pathScratch)\n}\n\nfunc addSegment(paths []string, seg []byte) []string {\n	if len(seg) == 0 {\n		return paths\n	}\n	return append(paths, string(seg))\n}"))),
 ('ref-key-while','',sub(("for i := 0; i < len(key); i++ {","for i, n := 0, len(key); i < n; i++ {"))),
 ('ref-key-wrapper','',[(E,BODY,BODY.replace('func keyToPath(','func splitPath(',1)+'func keyToPath(key string) []string {\n	return splitPath(key)\n}\n\n')]),
 ('ref-esc-direct','',X('''
func EscapeKey(key string) string {
	return strings.ReplaceAll(key, ".", `\\.`)
}''')),
 ('ref-esc-contains','',X('''
func EscapeKey(key string) string {
	if strings.Contains(key, ".") {
		return strings.ReplaceAll(key, ".", `\\.`)
	}
	return key
}''')),
 ('ref-esc-loop','',X('''
func EscapeKey(key string) string {
	var sb strings.Builder
	for i := 0; i < len(key); i++ {
		if key[i] == '.' {
			sb.WriteByte('\\\\')
		}
		sb.WriteByte(key[i])
	}
	return sb.String()
}''')),
 ('ref-esc-bytes','',X('''
func EscapeKey(key string) string {
	n := strings.Count(key, ".")
	if n == 0 {
		return key
	}
	out := make([]byte, 0, len(key)+n)
	for _, c := range []byte(key) {
		if c == '.' {
			out = append(out, '\\\\', '.')
		} else {
			out = append(out, c)
		}
	}
	return string(out)
}''')),
 ('ref-esc-join','',X('''
func EscapeKey(key string) string {
	return strings.Join(strings.Split(key, "."), `\\.`)
}''')),
]
