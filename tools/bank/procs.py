A='pkg/processor/append/process.go'
L='pkg/processor/lowercase/process.go'
U='pkg/processor/uppercase/process.go'
S='pkg/processor/set/process.go'
R='pkg/processor/remove/process.go'
V='pkg/event/value.go'
EU='pkg/eventutil/event.go'
PE='pkg/pipeline/event.go'
ER='pkg/processor/error.go'
LG='pkg/processor/lowercase/lowercase.go'
ABODY='''	if !p.config.AllowDuplicates {
		for _, elem := range v.Array {
			if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {
				return nil
			}
		}
	}

	v.Array = append(v.Array, event.String(p.config.Value))
	_, err := evt.Put(p.config.Field, v)
	return err
'''
RBODY='''	for _, field := range p.config.Fields {
		if v := evt.Delete(field); v == nil && !p.config.IgnoreMissing {
			return processor.ErrorKeyMissing{Key: field}
		}
	}
	return nil
'''
CLONE='''	c := *v
	if v.Array != nil {
		c.Array = make([]*Value, 0, len(v.Array))
		for _, elem := range v.Array {
			c.Array = append(c.Array, elem.Clone())
		}
	}
	if v.Object != nil {
		c.Object = make(map[string]*Value, len(v.Object))
		for k, elem := range v.Object {
			c.Object[k] = elem.Clone()
		}
	}
	return &c
'''
ITEMS=[
 # C22
 ('case-null-ok','C22',[(L,'if v == nil || v.Type == event.NullType {','if v == nil {')]),
 ('case-target-swap','C22',[(U,'if p.config.TargetField != "" {','if p.config.TargetField == "" {')]),
 ('case-missing-target','C22',[(L,'ErrorKeyMissing{Key: p.config.Field}','ErrorKeyMissing{Key: p.config.TargetField}')]),
 ('case-inplace','C22',[(L,'	_, err := evt.Put(targetField, event.String(out))','	v.String = out\n	_, err := evt.Put(targetField, v)')]),
 ('case-trim','C22',[(U,'strings.ToUpper(v.String)','strings.ToUpper(strings.TrimSpace(v.String))')]),
 ('case-title','C22',[(U,'strings.ToUpper(v.String)','strings.ToTitle(v.String)')]),
 ('case-tryput','C22',[(L,'evt.Put(targetField','evt.TryPut(targetField')]),
 ('case-swallow','C22',[(L,'	_, err := evt.Put(targetField, event.String(out))\n	return err','	_, _ = evt.Put(targetField, event.String(out))\n	return nil')]),
 ('case-delete-source','C22',[(U,'	_, err := evt.Put(targetField','	if targetField != p.config.Field {\n		evt.Delete(p.config.Field)\n	}\n	_, err := evt.Put(targetField')]),
 ('case-error-kind','C22 C26',[(L,'errors.New("value to lowercase is not a string")','processor.ErrorKeyMissing{Key: p.config.Field}'),(L,'	"errors"\n','')]),
 ('case-ctor-field','C22',[(LG,'	return &Lowercase{config: config}, nil','	if config.TargetField == "" {\n		config.TargetField = config.Field + "_lower"\n	}\n	return &Lowercase{config: config}, nil')]),
 ('case-skip-unchanged','C22',[(L,'	targetField := p.config.Field','	if out == v.String {\n		return nil\n	}\n	targetField := p.config.Field')]),
 ('case-helper','',[(L,'''	targetField := p.config.Field
	if p.config.TargetField != "" {
		targetField = p.config.TargetField
	}

	_, err := evt.Put(targetField, event.String(out))
	return err
}''','''	return store(evt, p.target(), out)
}

func (p *Lowercase) target() string {
	if t := p.config.TargetField; t != "" {
		return t
	}
	return p.config.Field
}

func store(evt processor.Event, key, s string) error {
	if _, err := evt.Put(key, event.String(s)); err != nil {
		return err
	}
	return nil
}''')]),
 ('case-switch','',[(U,'''	if v == nil || v.Type == event.NullType {
		return processor.ErrorKeyMissing{Key: p.config.Field}
	}

	if v.Type != event.StringType {
		return errors.New("value to uppercase is not a string")
	}

	out := strings.ToUpper(v.String)
''','''	if v == nil {
		return processor.ErrorKeyMissing{Key: p.config.Field}
	}
	var out string
	switch v.Type {
	case event.StringType:
		out = strings.ToUpper(v.String)
	case event.NullType:
		return processor.ErrorKeyMissing{Key: p.config.Field}
	default:
		return errors.New("value to uppercase is not a string")
	}
''')]),
 ('case-ctor-precompute','',[(LG,'type Lowercase struct {\n	config Config\n}','type Lowercase struct {\n	config Config\n	target string\n}'),(LG,'	return &Lowercase{config: config}, nil','	p := &Lowercase{config: config, target: config.TargetField}\n	if p.target == "" {\n		p.target = config.Field\n	}\n	return p, nil'),(L,'''	targetField := p.config.Field
	if p.config.TargetField != "" {
		targetField = p.config.TargetField
	}

	_, err := evt.Put(targetField,''','	_, err := evt.Put(p.target,')]),
 # clone / set
 ('clone-shallow-array','C23',[(V,'c.Array = append(c.Array, elem.Clone())','c.Array = append(c.Array, elem)')]),
 ('clone-shallow-object','C23',[(V,'c.Object[k] = elem.Clone()','c.Object[k] = elem')]),
 ('clone-no-object','C23',[(V,'	if v.Object != nil {\n		c.Object = make','	if v.Object != nil && v.Type == ArrayType {\n		c.Object = make')]),
 ('clone-skip-null','C23',[(V,'			c.Array = append(c.Array, elem.Clone())','			if elem == nil {\n				continue\n			}\n			c.Array = append(c.Array, elem.Clone())')]),
 ('clone-skip-empty-key','C23',[(V,'			c.Object[k] = elem.Clone()','			if k != "" {\n				c.Object[k] = elem.Clone()\n			}')]),
 ('clone-break','C23',[(V,'			c.Array = append(c.Array, elem.Clone())','			c.Array = append(c.Array, elem.Clone())\n			if len(c.Array) == 1000 {\n				break\n			}')]),
 ('clone-lose-bool','C23',[(V,'	c := *v\n','	c := Value{Type: v.Type, Integer: v.Integer, UnsignedInteger: v.UnsignedInteger, Float: v.Float, Timestamp: v.Timestamp, String: v.String}\n')]),
 ('clone-switch','',[(V,CLONE,'''	c := *v
	switch v.Type {
	case ArrayType:
		c.Array = cloneArray(v.Array)
	case ObjectType:
		c.Object = cloneObject(v.Object)
	}
	if v.Type != ArrayType {
		c.Array = nil
	}
	if v.Type != ObjectType {
		c.Object = nil
	}
	return &c
}

func cloneArray(in []*Value) []*Value {
	if in == nil {
		return nil
	}
	out := make([]*Value, len(in))
	for i := range in {
		out[i] = in[i].Clone()
	}
	return out
}

func cloneObject(in map[string]*Value) map[string]*Value {
	if in == nil {
		return nil
	}
	out := map[string]*Value{}
	for name, member := range in {
		out[name] = member.Clone()
	}
	return out
''')]),
 ('clone-index-loop','',[(V,'''		for _, elem := range v.Array {
			c.Array = append(c.Array, elem.Clone())
		}''','''		for i := 0; i < len(v.Array); i++ {
			x := v.Array[i].Clone()
			c.Array = append(c.Array, x)
		}''')]),
 ('clone-off-by-one','C23',[(V,'''		for _, elem := range v.Array {
			c.Array = append(c.Array, elem.Clone())
		}''','''		for i := 1; i < len(v.Array); i++ {
			x := v.Array[i].Clone()
			c.Array = append(c.Array, x)
		}''')]),
 ('set-no-clone-value','C23',[(S,'(*event.Value)(&p.config.Value).Clone()','(*event.Value)(&p.config.Value)')]),
 ('set-no-clone-field','C23',[(S,'		v = v.Clone()\n','')]),
 ('set-precedence','C23',[(S,'if p.config.Value.Type != event.NullType {','if p.config.Value.Type != event.NullType && p.config.CopyFrom == "" {')]),
 ('set-missing-key','C23',[(S,'ErrorKeyMissing{Key: p.config.CopyFrom}','ErrorKeyMissing{Key: p.config.TargetField}')]),
 ('set-remove-source','C23',[(S,'v = evt.Get(p.config.CopyFrom)','v = evt.Delete(p.config.CopyFrom)')]),
 ('set-helper','',[(S,'''	var v *event.Value
	if p.config.Value.Type != event.NullType {
		v = (*event.Value)(&p.config.Value).Clone()
	} else if p.config.CopyFrom != "" {
		v = evt.Get(p.config.CopyFrom)
		if v == nil {
			return processor.ErrorKeyMissing{Key: p.config.CopyFrom}
		}
		v = v.Clone()
	}

	_, err := evt.Put(p.config.TargetField, v)
	return err
''','''	v, err := p.source(evt)
	if err != nil {
		return err
	}
	_, err = evt.Put(p.config.TargetField, v)
	return err
}

func (p *Set) source(evt processor.Event) (*event.Value, error) {
	configured := event.Value(p.config.Value)
	switch {
	case configured.Type != event.NullType:
		return configured.Clone(), nil
	case p.config.CopyFrom == "":
		return nil, nil
	}
	v := evt.Get(p.config.CopyFrom)
	if v == nil {
		return nil, processor.ErrorKeyMissing{Key: p.config.CopyFrom}
	}
	return v.Clone(), nil
''')]),
 # append
 ('append-no-store','C24',[(A,'	_, err := evt.Put(p.config.Field, v)\n	return err','	if evt.Get(p.config.Field) != nil {\n		return nil\n	}\n	_, err := evt.Put(p.config.Field, v)\n	return err')]),
 ('append-dup-nil','C24',[(A,'elem.Type == event.StringType && elem.String == p.config.Value','elem.String == p.config.Value')]),
 ('append-dup-first','C24',[(A,'				return nil\n			}\n		}\n','				return nil\n			}\n			break\n		}\n')]),
 ('append-dup-inverted','C24',[(A,'if !p.config.AllowDuplicates {','if p.config.AllowDuplicates {')]),
 ('append-front','C24',[(A,'v.Array = append(v.Array, event.String(p.config.Value))','v.Array = append([]*event.Value{event.String(p.config.Value)}, v.Array...)')]),
 ('append-scalar-lost','C24',[(A,'v = event.Array(v)','v = event.Array()')]),
 ('append-object','C24',[(A,'''	} else if v.Type == event.ObjectType {
		return errors.New("value to append to is not array")
	}''','	}'),(A,'	"errors"\n','')]),
 ('append-ignore-always','C24',[(A,'		if p.config.IgnoreMissing {\n			return nil\n		}\n','		return nil\n')]),
 ('append-null-kept','C24',[(A,'if v == nil || v.Type == event.NullType {','if v == nil {')]),
 ('append-flag','',[(A,ABODY,'''	if !p.config.AllowDuplicates && contains(v.Array, p.config.Value) {
		return nil
	}

	list := make([]*event.Value, 0, len(v.Array)+1)
	list = append(list, v.Array...)
	list = append(list, event.String(p.config.Value))
	_, err := evt.Put(p.config.Field, event.Array(list...))
	return err
}

func contains(list []*event.Value, s string) bool {
	found := false
	for i := 0; i < len(list) && !found; i++ {
		e := list[i]
		if e == nil || e.Type != event.StringType {
			continue
		}
		if e.String == s {
			found = true
		}
	}
	return found
''')]),
 ('append-helper','',[(A,ABODY,'''	if !p.config.AllowDuplicates && contains(v.Array, p.config.Value) {
		return nil
	}
	v.Array = append(v.Array, event.String(p.config.Value))
	if _, err := evt.Put(p.config.Field, v); err != nil {
		return err
	}
	return nil
}

func contains(list []*event.Value, s string) bool {
	for _, e := range list {
		if e != nil && e.Type == event.StringType && s == e.String {
			return true
		}
	}
	return false
''')]),
 ('util-no-put','C24',[(EU,'	_, err := evt.Put(key, targetValue)\n	return err','	if targetValue.Array == nil {\n		_, err := evt.Put(key, targetValue)\n		return err\n	}\n	return nil')]),
 ('util-nested','C24',[(EU,'	if item.Type == event.ArrayType {','	if item.Type == event.ArrayType && len(item.Array) < 2 {')]),
 ('util-reverse','C24',[(EU,'targetValue.Array = append(targetValue.Array, v)','targetValue.Array = append([]*event.Value{v}, targetValue.Array...)')]),
 ('util-tryput','C24',[(EU,'evt.Put(key, targetValue)','evt.TryPut(key, targetValue)')]),
 ('util-object-lost','C24',[(EU,'} else if targetValue.Type != event.ArrayType {','} else if targetValue.Type == event.ObjectType {\n		targetValue = event.Array()\n	} else if targetValue.Type != event.ArrayType {')]),
 ('util-spread','',[(EU,'''		for _, v := range item.Array {
			targetValue.Array = append(targetValue.Array, v)
		}''','''		targetValue.Array = append(targetValue.Array, item.Array...)''')]),
 ('util-local','',[(EU,'''	// Append the new item to the array.
	if item.Type == event.ArrayType {
		for _, v := range item.Array {
			targetValue.Array = append(targetValue.Array, v)
		}
	} else {
		targetValue.Array = append(targetValue.Array, item)
	}
''','''	items := targetValue.Array
	switch item.Type {
	case event.ArrayType:
		for i := range item.Array {
			items = append(items, item.Array[i])
		}
	default:
		items = append(items, item)
	}
	targetValue.Array = items
''')]),
 # remove
 ('remove-stop-ignored','C25',[(R,RBODY,'''	for _, field := range p.config.Fields {
		if v := evt.Delete(field); v == nil {
			if p.config.IgnoreMissing {
				return nil
			}
			return processor.ErrorKeyMissing{Key: field}
		}
	}
	return nil
''')]),
 ('remove-null-missing','C25',[(R,'v == nil && !p.config.IgnoreMissing','(v == nil || v.Type == 0) && !p.config.IgnoreMissing')]),
 ('remove-skip-first','C25',[(R,'range p.config.Fields {','range p.config.Fields[1:] {')]),
 ('remove-late-error','C25',[(R,RBODY,'''	var err error
	for _, field := range p.config.Fields {
		if v := evt.Delete(field); v == nil && !p.config.IgnoreMissing {
			err = processor.ErrorKeyMissing{Key: field}
		}
	}
	return err
''')]),
 ('remove-wrong-key','C25 C26',[(R,'ErrorKeyMissing{Key: field}','ErrorKeyMissing{Key: p.config.Fields[0]}')]),
 ('remove-prefix','C25',[(R,'evt.Delete(field)','evt.Delete(strings.TrimSpace(field))'),(R,'import (','import (\n	"strings"\n')]),
 ('remove-helper','',[(R,RBODY,'''	for i := 0; i < len(p.config.Fields); i++ {
		if err := p.remove(evt, p.config.Fields[i]); err != nil {
			return err
		}
	}
	return nil
}

func (p *Remove) remove(evt processor.Event, key string) error {
	if evt.Delete(key) != nil || p.config.IgnoreMissing {
		return nil
	}
	return processor.ErrorKeyMissing{Key: key}
''')]),
 # C26
 ('missing-is-key','C26',[(ER,'	_, ok := target.(ErrorKeyMissing)\n	return ok','	t, ok := target.(ErrorKeyMissing)\n	return ok && t.Key == e.Key')]),
 ('missing-is-any','C26',[(ER,'	_, ok := target.(ErrorKeyMissing)\n	return ok','	_, ok := target.(error)\n	return ok')]),
 ('missing-msg','C26',[(ER,'"key <" + e.Key + "> is missing from event"','"a key is missing from event"')]),
 ('missing-embed','C26',[(ER,'func (e ErrorKeyMissing) Error','// NotString is a type error.\ntype NotString struct {\n	ErrorKeyMissing\n}\n\nfunc (e ErrorKeyMissing) Error')]),
 ('missing-wrapped-put','C26 C22',[(L,'	_, err := evt.Put(targetField, event.String(out))\n	return err','	if _, err := evt.Put(targetField, event.String(out)); err != nil {\n		return processor.ErrorKeyMissing{Key: targetField}\n	}\n	return nil')]),
 ('missing-plain','C22 C26',[(U,'return processor.ErrorKeyMissing{Key: p.config.Field}','return errors.New("key <" + p.config.Field + "> is missing from event")'),(U,'	"github.com/andrewkroh/go-sawmill/pkg/processor"\n)','	"github.com/andrewkroh/go-sawmill/pkg/processor"\n)\n\nvar _ = processor.ErrorKeyMissing{}')]),
 ('missing-wrapped-ok','',[(U,'return processor.ErrorKeyMissing{Key: p.config.Field}','return fmt.Errorf("uppercase: %w", processor.ErrorKeyMissing{Key: p.config.Field})'),(U,'	"errors"\n','	"errors"\n	"fmt"\n')]),
 # facade
 ('facade-tryput','C01',[(PE,'return e.data.TryPut(key, v)','return e.data.Put(key, v)')]),
 ('facade-put-guard','C01',[(PE,'	return e.data.Put(key, v)','	if e.cancelled {\n		return nil, nil\n	}\n	return e.data.Put(key, v)')]),
 ('facade-get','C02',[(PE,'	return e.data.Get(key)','	v := e.data.Get(key)\n	if v != nil && v.Type == event.NullType {\n		return nil\n	}\n	return v')]),
 ('facade-delete','C03',[(PE,'return e.data.Delete(key)','v := e.data.Get(key)\n	if v == nil || v.Type == event.NullType {\n		return nil\n	}\n	return e.data.Delete(key)')]),
 ('facade-ok','',[(PE,'	return e.data.Put(key, v)','	old, err := e.data.Put(key, v)\n	if err != nil {\n		return old, err\n	}\n	return old, nil')]),
]
