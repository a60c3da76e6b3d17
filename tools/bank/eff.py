A='pkg/processor/append/process.go'
AG='pkg/processor/append/append.go'
L='pkg/processor/lowercase/process.go'
LG='pkg/processor/lowercase/lowercase.go'
U='pkg/processor/uppercase/process.go'
S='pkg/processor/set/process.go'
SG='pkg/processor/set/set.go'
R='pkg/processor/remove/process.go'
V='pkg/event/value.go'
E='pkg/event/event.go'
EU='pkg/eventutil/event.go'
PP='pkg/pipeline/pipeline.go'
PR='pkg/pipeline/processor.go'
LBODY='''	targetField := p.config.Field
	if p.config.TargetField != "" {
		targetField = p.config.TargetField
	}
'''
ITEMS=[
 # processors that change themselves
 ('eff-lazy-default','C18',[(L,LBODY,'''	if p.config.TargetField == "" {
		p.config.TargetField = p.config.Field
	}
	targetField := p.config.TargetField
''')]),
 ('eff-remember','C18',[(L,'	out := strings.ToLower(v.String)\n','''	if v.String != p.lastIn {
		p.lastIn, p.lastOut = v.String, strings.ToLower(v.String)
	}
	out := p.lastOut
'''),(LG,'	config Config\n}','	config          Config\n	lastIn, lastOut string\n}')]),
 ('eff-cache-map','C18',[(L,'	out := strings.ToLower(v.String)\n','''	out, ok := p.cache[v.String]
	if !ok {
		out = strings.ToLower(v.String)
		p.cache[v.String] = out
	}
'''),(LG,'	config Config\n}','	config Config\n	cache  map[string]string\n}'),(LG,'&Lowercase{config: config}','&Lowercase{config: config, cache: map[string]string{}}')]),
 ('eff-global-cache','C18',[(L,'	out := strings.ToLower(v.String)\n','''	out, ok := lowered[v.String]
	if !ok {
		out = strings.ToLower(v.String)
		lowered[v.String] = out
	}
'''),(L,'func (p *Lowercase) Process','var lowered = map[string]string{}\n\nfunc (p *Lowercase) Process')]),
 ('eff-reused-value','C18',[(L,'event.String(out)','p.set(out)'),(LG,'	config Config\n}','	config Config\n	out    event.Value\n}\n\nfunc (p *Lowercase) set(s string) *event.Value {\n	p.out = event.Value{Type: event.StringType, String: s}\n	return &p.out\n}'),(LG,'import (\n','import (\n	"github.com/andrewkroh/go-sawmill/pkg/event"\n')]),
 ('eff-fixed-value','C18',[(A,'event.String(p.config.Value)','p.value'),(AG,'	config Config\n}','	config Config\n	value  *event.Value\n}'),(AG,'&Append{config: config}','&Append{config: config, value: event.String(config.Value)}'),(AG,'import (\n','import (\n	"github.com/andrewkroh/go-sawmill/pkg/event"\n')]),
 ('eff-fixed-empty','C18',[(A,'		v = event.Array()\n','		v = emptyArray\n'),(A,'func (p *Append) Process','var emptyArray = event.Array()\n\nfunc (p *Append) Process')]),
 ('eff-fixed-backing','C18',[(A,'	v.Array = append(v.Array, event.String(p.config.Value))\n','	v.Array = append(append(p.buf[:0], v.Array...), event.String(p.config.Value))\n'),(AG,'	config Config\n}','	config Config\n	buf    []*event.Value\n}'),(AG,'&Append{config: config}','&Append{config: config, buf: make([]*event.Value, 16)}'),(AG,'import (\n','import (\n	"github.com/andrewkroh/go-sawmill/pkg/event"\n')]),
 ('eff-set-alias','C18',[(S,'		v = (*event.Value)(&p.config.Value).Clone()','		v = (*event.Value)(&p.config.Value)')]),
 ('eff-set-shallow','C18',[(S,'		v = (*event.Value)(&p.config.Value).Clone()','''		c := event.Value(p.config.Value)
		v = &c''')]),
 ('eff-set-shallow-scalar','C18',[(S,'		v = (*event.Value)(&p.config.Value).Clone()','''		c := event.Value(p.config.Value)
		if v = &c; c.Type == event.ArrayType {
			v = c.Clone()
		}''')]),
 ('eff-set-members','C18',[(S,'		v = (*event.Value)(&p.config.Value).Clone()','''		c := event.Value(p.config.Value)
		v = &c
		if c.Type == event.ObjectType {
			m := make(map[string]*event.Value, len(c.Object))
			for k, x := range c.Object {
				m[k] = x
			}
			v.Object = m
		}
		if c.Type == event.ArrayType {
			v = c.Clone()
		}''')]),
 ('eff-set-copy','C18',[(S,'		v = v.Clone()\n','')]),
 ('eff-set-copy-once','C18',[(S,'''		v = (*event.Value)(&p.config.Value).Clone()''','''		if p.made == nil {
			p.made = (*event.Value)(&p.config.Value).Clone()
		}
		v = p.made'''),(SG,'	config Config\n}','	config Config\n	made   *event.Value\n}'),(SG,'import (\n','import (\n	"github.com/andrewkroh/go-sawmill/pkg/event"\n')]),
 ('eff-set-swap','C18',[(S,'''	_, err := evt.Put(p.config.TargetField, v)
''','''	if v != nil && v.Type == event.ArrayType && len(p.config.Value.Array) > 0 {
		v.Array = p.config.Value.Array[:len(v.Array)]
	}
	_, err := evt.Put(p.config.TargetField, v)
''')]),
 ('eff-remove-drain','C18',[(R,'	for _, field := range p.config.Fields {\n','	for len(p.config.Fields) > 0 {\n		field := p.config.Fields[0]\n		p.config.Fields = p.config.Fields[1:]\n')]),
 ('eff-remove-sort','C18',[(R,'	for _, field := range p.config.Fields {\n','	sort.Strings(p.config.Fields)\n	for _, field := range p.config.Fields {\n'),(R,'import (\n','import (\n	"sort"\n')]),
 ('eff-remove-swap','C18',[(R,'	return nil\n}','''	if n := len(p.config.Fields); n > 1 {
		p.config.Fields[0], p.config.Fields[n-1] = p.config.Fields[n-1], p.config.Fields[0]
	}
	return nil
}''')]),
 ('eff-remove-append','C18',[(R,'	for _, field := range p.config.Fields {\n','	for _, field := range append(p.config.Fields, p.config.Fields...) {\n')]),
 ('eff-clone-array','C18 C23',[(V,'		c.Array = make([]*Value, 0, len(v.Array))\n','		c.Array = v.Array[:0]\n')]),
 ('eff-clone-object','C18',[(V,'			c.Object[k] = elem.Clone()\n','			c.Object[k] = elem\n')]),
 # the pipeline
 ('eff-pipe-scratch','C18',[(PP,'	pipeEvt := &pipelineEvent{data: evt}\n','	pipe.evt = pipelineEvent{data: evt}\n	pipeEvt := &pipe.evt\n'),(PP,'	onFailure  []*pipelineProcessor\n','	onFailure  []*pipelineProcessor\n	evt        pipelineEvent\n')]),
 ('eff-pipe-last-error','C18',[(PP,'''	if err := pipe.process(pipeEvt); err != nil {
''','''	if err := pipe.process(pipeEvt); err != nil {
		pipe.id = pipe.id + "!"
''')]),
 ('eff-node-disable','C18',[(PR,'''		p.metricErrorsTotal.Inc()
		return err
''','''		p.metricErrorsTotal.Inc()
		p.failures++
		return err
'''),(PR,'	IgnoreFailure bool\n','	IgnoreFailure bool\n	failures      int\n')]),
 ('eff-node-ignore','C18',[(PR,'		if p.IgnoreFailure {\n','		if errors.Is(err, processor.ErrorKeyMissing{}) {\n			p.IgnoreMissing = true\n		}\n		if p.IgnoreFailure {\n')]),
 ('eff-pipe-reorder','C18',[(PP,'''			// Go to global on_failure handler.
			break
''','''			// Go to global on_failure handler.
			pipe.processors[0] = proc
			break
''')]),
 ('eff-pipe-global','C18',[(PP,'	pipeEvt := &pipelineEvent{data: evt}\n','	pipeEvt := &pipelineEvent{data: evt}\n	current = pipeEvt\n'),(PP,'type Pipeline struct','var current *pipelineEvent\n\ntype Pipeline struct')]),
 ('eff-pipe-go','C18',[(PP,'	return pipeEvt.data, nil\n','	go pipe.Metrics()\n	return pipeEvt.data, nil\n')]),
 # the event
 ('eff-path-cache','C18',[(E,'func keyToPath(key string) []string {\n	var paths []string\n','''var pathCache = map[string][]string{}

func keyToPath(key string) []string {
	if p, ok := pathCache[key]; ok {
		return p
	}
	paths := splitKey(key)
	pathCache[key] = paths
	return paths
}

func splitKey(key string) []string {
	var paths []string
''')]),
 ('eff-scratch','C18',[(E,'	var pathScratch []byte\n','	pathScratch := scratch[:0]\n'),(E,'func keyToPath(','var scratch = make([]byte, 0, 64)\n\nfunc keyToPath(')]),
 ('eff-null-to-object','C18',[(E,'''			if inner == nil || inner.Type != ObjectType {
''','''			if inner != nil && inner.Type == NullType {
				*inner = Value{Type: ObjectType}
			}
			if inner == nil || inner.Type != ObjectType {
''')]),
 ('eff-null-object-field','C18',[(E,'''			if inner == nil || inner.Type != ObjectType {
''','''			if inner == nil || inner.Type != ObjectType && inner.Type != NullType {
''')]),
 ('eff-stats','C18',[(E,'	m[path[len(path)-1]] = val\n','	m[path[len(path)-1]] = val\n	lastPath = path\n'),(E,'type Event struct','var lastPath []string\n\ntype Event struct')]),
 ('eff-put-overwrite','C18 C01',[(E,'	m[path[len(path)-1]] = val\n','	if old != nil {\n		*old = *val\n		return old, nil\n	}\n	m[path[len(path)-1]] = val\n')]),
 # behaviour-preserving
 ('ref-eff-target','',[(L,LBODY,'''	targetField := p.target()
'''),(L,'func (p *Lowercase) Process','''func (p *Lowercase) target() string {
	c := p.config
	if c.TargetField == "" {
		c.TargetField = c.Field
	}
	return c.TargetField
}

func (p *Lowercase) Process''')]),
 ('ref-eff-ctor','',[(L,LBODY,'	targetField := p.config.TargetField\n'),(LG,'	return &Lowercase{config: config}, nil','''	p := &Lowercase{config: config}
	if p.target = config.TargetField; p.target == "" {
		p.target = config.Field
	}
	return p, nil'''),(L,'	targetField := p.config.TargetField\n','	targetField := p.target\n'),(LG,'	config Config\n}','	config Config\n	target string\n}')]),
 ('ref-eff-set-shallow-scalar','',[(S,'		v = (*event.Value)(&p.config.Value).Clone()','''		c := event.Value(p.config.Value)
		v = c.Clone()''')]),
 ('ref-eff-append-copy','',[(A,'	v.Array = append(v.Array, event.String(p.config.Value))\n	_, err := evt.Put(p.config.Field, v)','''	items := make([]*event.Value, 0, len(v.Array)+1)
	items = append(items, v.Array...)
	items = append(items, event.String(p.config.Value))
	_, err := evt.Put(p.config.Field, event.Array(items...))''')]),
 ('ref-eff-append-index','',[(A,'	v.Array = append(v.Array, event.String(p.config.Value))\n	_, err := evt.Put(p.config.Field, v)','''	items := make([]*event.Value, len(v.Array)+1)
	for i, x := range v.Array {
		items[i] = x
	}
	items[len(v.Array)] = event.String(p.config.Value)
	_, err := evt.Put(p.config.Field, event.Array(items...))''')]),
 ('ref-eff-remove-copy','',[(R,'	for _, field := range p.config.Fields {\n','	fields := append([]string(nil), p.config.Fields...)\n	for _, field := range fields {\n')]),
 ('ref-eff-remove-rest','',[(R,'	for _, field := range p.config.Fields {\n','	for fields := p.config.Fields; len(fields) > 0; fields = fields[1:] {\n		field := fields[0]\n')]),
 ('ref-eff-node-helper','',[(PR,'''				if err = proc.Process(event); err != nil || event.done() {
					break
				}
''','''				if err = p.handle(proc, event); err != nil || event.done() {
					break
				}
'''),(PR,'func newPipelineProcessors(','''func (p *pipelineProcessor) handle(h *pipelineProcessor, event *pipelineEvent) error {
	return h.Process(event)
}

func newPipelineProcessors(''')]),
 ('ref-eff-pipe-value','',[(PP,'	pipeEvt := &pipelineEvent{data: evt}\n','	var wrapped pipelineEvent\n	wrapped.data = evt\n	pipeEvt := &wrapped\n')]),
 ('ref-eff-pipe-list','',[(PP,'	for _, proc := range pipe.processors {\n		if err','	procs := pipe.processors[:len(pipe.processors):len(pipe.processors)]\n	for _, proc := range procs {\n		if err')]),
 ('ref-eff-put-local','',[(E,'	m := e.fields\n	for _, key := range path[:len(path)-1] {\n		inner, found := m[key]\n		if found {','	m, dirs := e.fields, path[:len(path)-1]\n	for _, key := range dirs {\n		inner, found := m[key]\n		if found {')]),
 ('ref-eff-put-rec','',[(E,'	m := e.fields\n	for _, key := range path[:len(path)-1] {\n		inner, found := m[key]\n		if found {','	m, dirs := e.fields, path[:len(path)-1]\n	for ; len(dirs) > 0; dirs = dirs[1:] {\n		key := dirs[0]\n		inner, found := m[key]\n		if found {')]),
 ('ref-eff-append-util','',[(EU,'''		for _, v := range item.Array {
			targetValue.Array = append(targetValue.Array, v)
		}
''','''		targetValue.Array = append(targetValue.Array, item.Array...)
''')]),
]
