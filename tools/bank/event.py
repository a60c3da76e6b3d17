E='pkg/event/event.go'
GETLOOP='''	m := e.fields
	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if !found || inner == nil || len(inner.Object) == 0 {
			return nil
		}
		m = inner.Object
	}

	return m[path[len(path)-1]]
}'''
PUTLOOP='''	m := e.fields
	for _, key := range path[:len(path)-1] {
		inner, found := m[key]
		if found {
			if inner == nil || inner.Type != ObjectType {
				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
			}
			if inner.Object == nil {
				inner.Object = map[string]*Value{}
			}
			m = inner.Object
			continue
		}
		newObj := Object(map[string]*Value{})
		m[key] = newObj
		m = newObj.Object
	}
	m[path[len(path)-1]] = val
	return old, nil
}'''
DEL='''	parent := e.get(path[:len(path)-1])
	if parent == nil {
		return nil
	}

	key := path[len(path)-1]
	v := parent.Object[key]
	delete(parent.Object, key)
	return v
}'''
OLD='''	old = e.get(path)
	if old != nil && !overwrite {
		return old, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrKeyExists)
	}

'''
ITEMS=[
 ('put-no-exists-check','C01',[(E,'if old != nil && !overwrite {','if old != nil && !overwrite && old.Type != NullType {')]),
 ('put-replace-nonobject','C01',[(E,'''			if inner == nil || inner.Type != ObjectType {
				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
			}''','''			if inner == nil {
				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
			}''')]),
 ('put-partial','C01',[(E,PUTLOOP,PUTLOOP.replace('''		inner, found := m[key]
''','''		inner, found := m[key]
		delete(m, "")
'''))]),
 ('put-create-first','C01',[(E,PUTLOOP,PUTLOOP.replace('''			if inner == nil || inner.Type != ObjectType {
				return''','''			if inner == nil || inner.Type != ObjectType {
				m[key] = Object(map[string]*Value{})
				return'''))]),
 ('put-flatten','C01',[(E,'	m[path[len(path)-1]] = val','	m[path[len(path)-1]] = val\n	if len(path) > 8 {\n		e.fields[pathString(path)] = val\n	}')]),
 ('put-depth-limit','C01',[(E,PUTLOOP,PUTLOOP.replace('range path[:len(path)-1] {','range path[:len(path)-1] {\n		if len(m) > 1000 {\n			continue\n		}'))]),
 ('put-wrong-sentinel','C01',[(E,'pathString(path), ErrTargetKeyNotObject','pathString(path), ErrEmptyKey')]),
 ('put-err-not-wrapped','C01',[(E,'"event put failed for path <%s>: %w", pathString(path), ErrKeyExists','"event put failed for path <%s>: %v", pathString(path), ErrKeyExists')]),
 ('put-old-lost','C01',[(E,'	m[path[len(path)-1]] = val\n	return old, nil','	m[path[len(path)-1]] = val\n	if len(path) > 3 {\n		return nil, nil\n	}\n	return old, nil')]),
 ('put-nil-creates','C01',[(E,'''	if val == nil {
		return nil, nil
	}

''',''),(E,PUTLOOP,PUTLOOP.replace('	m[path[len(path)-1]] = val','	if val == nil {\n		return nil, nil\n	}\n	m[path[len(path)-1]] = val'))]),
 ('put-empty-parent-replaced','C01',[(E,'''		if found {
			if inner == nil''','''		if found && len(m) > 1 {
			if inner == nil''')]),
 ('get-stop-early','C02',[(E,'''		if !found || inner == nil || len(inner.Object) == 0 {
			return nil
		}
		m = inner.Object
	}

	return''','''		if !found || inner == nil {
			return nil
		}
		if len(inner.Object) == 0 {
			break
		}
		m = inner.Object
	}

	return''')]),
 ('get-one-deep','C02',[(E,GETLOOP,GETLOOP.replace('len(inner.Object) == 0','len(inner.Object) <= 1'))]),
 ('get-creates','C02',[(E,GETLOOP,GETLOOP.replace('''		if !found ||''','''		if found && inner != nil && inner.Type == ObjectType && inner.Object == nil {
			inner.Object = map[string]*Value{"": nil}
		}
		if !found ||'''))]),
 ('get-skips','C02',[(E,GETLOOP,GETLOOP.replace('range path[:len(path)-1]','range path[:len(path)/2]'))]),
 ('get-flat-key','C02',[(E,GETLOOP,GETLOOP.replace('	m := e.fields\n','	m := e.fields\n	if v, ok := m[strings.Join(path, ".")]; ok {\n		return v\n	}\n'))]),
 ('del-parent','C03',[(E,DEL,DEL.replace('	delete(parent.Object, key)','	delete(parent.Object, key)\n	if len(parent.Object) == 0 && len(path) > 1 {\n		e.delete(path[:len(path)-1])\n	}'))]),
 ('del-null-kept','C03',[(E,DEL,DEL.replace('	delete(parent.Object, key)','	if v == nil || v.Type != NullType {\n		delete(parent.Object, key)\n	}'))]),
 ('del-wrong-level','C03',[(E,DEL,DEL.replace('	delete(parent.Object, key)','	delete(parent.Object, key)\n	delete(e.fields, key)'))]),
 ('del-returns-parent','C03',[(E,DEL,DEL.replace('	return v\n','	if v == nil {\n		return parent\n	}\n	return v\n'))]),
 # refactorings
 ('ref-put-index','',[(E,PUTLOOP,PUTLOOP.replace('for _, key := range path[:len(path)-1] {','last := len(path) - 1\n	for i := 0; i < last; i++ {\n		key := path[i]').replace('path[len(path)-1]','path[last]'))]),
 ('ref-put-rest','',[(E,PUTLOOP,PUTLOOP.replace('for _, key := range path[:len(path)-1] {','rest := path\n	for ; len(rest) > 1; rest = rest[1:] {\n		key := rest[0]').replace('path[len(path)-1]','rest[0]'))]),
 ('ref-put-else','',[(E,PUTLOOP,'''	parent, err := e.parentOf(path)
	if err != nil {
		return nil, err
	}
	parent[path[len(path)-1]] = val
	return old, nil
}

func (e *Event) parentOf(path []string) (map[string]*Value, error) {
	cur := e.fields
	for i := range path[:len(path)-1] {
		child, ok := cur[path[i]]
		switch {
		case !ok:
			child = Object(map[string]*Value{})
			cur[path[i]] = child
		case child == nil || child.Type != ObjectType:
			return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
		case child.Object == nil:
			child.Object = map[string]*Value{}
		}
		cur = child.Object
	}
	return cur, nil
}''')]),
 ('ref-get-cursor','',[(E,GETLOOP,'''	cur := &Value{Type: ObjectType, Object: e.fields}
	for _, key := range path {
		if cur == nil {
			return nil
		}
		cur = cur.Object[key]
	}
	return cur
}''')]),
 ('ref-get-index','',[(E,GETLOOP,'''	fields := e.fields
	last := len(path) - 1
	for i := 0; i < last; i++ {
		v := fields[path[i]]
		if v == nil || len(v.Object) == 0 {
			return nil
		}
		fields = v.Object
	}
	return fields[path[last]]
}''')]),
 ('ref-del-comma','',[(E,DEL,'''	parentPath, key := path[:len(path)-1], path[len(path)-1]
	parent := e.get(parentPath)
	if parent == nil || len(parent.Object) == 0 {
		return nil
	}
	v, ok := parent.Object[key]
	if !ok {
		return nil
	}
	delete(parent.Object, key)
	return v
}''')]),
 ('ref-put-exists-split','',[(E,OLD,'''	old = e.get(path)
	if !overwrite {
		if existing := old; existing != nil {
			msg := pathString(path)
			return existing, fmt.Errorf("event put failed for path <%s>: %w", msg, ErrKeyExists)
		}
	}

''')]),
 ('ref-put-sentinel-var','',[(E,PUTLOOP,PUTLOOP.replace('''				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)''','''				return nil, putError(path, ErrTargetKeyNotObject)''')),(E,'func pathString','''func putError(path []string, err error) error {
	return fmt.Errorf("event put failed for path <%s>: %w", pathString(path), err)
}

func pathString''')]),
]
