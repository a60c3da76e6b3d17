L='pkg/processor/lowercase/'; U='pkg/processor/uppercase/'; A='pkg/processor/append/'; R='pkg/processor/remove/'; S='pkg/processor/set/'
RG='pkg/processor/registry/registry.go'; N='pkg/pipeline/processor.go'; P='pkg/pipeline/pipeline.go'; CF='pkg/pipeline/config.go'
C='C30'
def x(f,*prs): return [(f,a,b) for a,b in prs]
ITEMS=[
 ('opt-new-drops',C,x(L+'lowercase.go',('	return &Lowercase{config: config}, nil','	return &Lowercase{config: Config{Field: config.Field, IgnoreMissing: config.IgnoreMissing}}, nil'))),
 ('opt-new-resets',C,x(U+'uppercase.go',('	return &Uppercase{config: config}, nil','	config.InitDefaults()\n	return &Uppercase{config: config}, nil'))),
 ('opt-config-empty',C,x(L+'lowercase.go',('	return p.config\n','	return Config{Field: p.config.Field, TargetField: p.config.TargetField}\n'))),
 ('opt-config-swap',C,x(L+'lowercase.go',('	return p.config\n','	c := p.config\n	c.IgnoreMissing = c.IgnoreMissing && c.TargetField == ""\n	return c\n'))),
 ('opt-target-dead',C,x(L+'process.go',('	if p.config.TargetField != "" {\n		targetField = p.config.TargetField\n	}\n','	if p.config.TargetField != "" {\n		targetField = p.config.Field\n	}\n'))),
 ('opt-target-same',C,x(U+'process.go',('	if p.config.TargetField != "" {\n','	if p.config.TargetField != "" && len(p.config.TargetField) > 1 {\n'))),
 ('opt-target-prefix',C,x(U+'process.go',('	if p.config.TargetField != "" {\n','	if p.config.TargetField != "" && !strings.HasPrefix(p.config.TargetField, p.config.Field) {\n'))),
 ('opt-dup-dead',C,x(A+'process.go',('			if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {\n				return nil\n			}\n','			if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {\n				continue\n			}\n'))),
 ('opt-dup-first',C,x(A+'process.go',('			if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {\n				return nil\n			}\n','			if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {\n				return nil\n			}\n			break\n'))),
 ('opt-dup-inv',C,x(A+'process.go',('!p.config.AllowDuplicates','p.config.AllowDuplicates'))),
 ('opt-app-missing',C,x(A+'process.go',('		if p.config.IgnoreMissing {\n			return nil\n		}\n',''))),
 ('opt-app-missing-null',C,x(A+'process.go',('		if p.config.IgnoreMissing {','		if p.config.IgnoreMissing && v == nil {'))),
 ('opt-app-value',C,x(A+'process.go',('event.String(p.config.Value))','event.String(p.config.Field))'))),
 ('opt-rm-ignore',C,x(R+'process.go',(' && !p.config.IgnoreMissing',''))),
 ('opt-rm-ignore2',C,x(R+'process.go',('v == nil && !p.config.IgnoreMissing','v == nil && !(p.config.IgnoreMissing && len(p.config.Fields) == 1)'))),
 ('opt-rm-first',C,x(R+'process.go',('range p.config.Fields {','range p.config.Fields[:1] {'))),
 ('opt-set-from',C,x(S+'process.go',('		v = evt.Get(p.config.CopyFrom)\n','		v = evt.Get(p.config.TargetField)\n'))),
 ('opt-set-value-wins',C,x(S+'process.go',('	if p.config.Value.Type != event.NullType {\n','	if p.config.Value.Type != event.NullType && p.config.CopyFrom == "" {\n'))),
 ('opt-set-bool',C,x(S+'process.go',('	if p.config.Value.Type != event.NullType {\n','	if p.config.Value.Type != event.NullType && p.config.Value.Type != event.BoolType {\n'))),
 ('opt-entry-onfail',C,x(N,('newPipelineProcessors(id+".on_failure", config.OnFailure)','newPipelineProcessors(id+".on_failure", nil)'))),
 ('opt-entry-onfail2',C,x(N,('		OnFailure: onFailureProcessors,\n','		OnFailure: onFailureProcessors[:0],\n'))),
 ('opt-pipe-onfail',C,x(P,('newPipelineProcessors(config.ID+".on_failure", config.OnFailure)','newPipelineProcessors(config.ID+".on_failure", config.Processors[:0])'))),
 ('opt-flag-and',C,x(N,('		p.IgnoreFailure = *ignoreFailurePtr\n','		p.IgnoreFailure = *ignoreFailurePtr && len(onFailureProcessors) == 0\n'))),
 ('opt-flag-run',C,x(N,('		if p.IgnoreFailure {','		if p.IgnoreFailure && len(p.OnFailure) == 0 {'))),
 ('opt-entry-config',C,x(N,('registry.NewProcessor(processorType, config.Config)','registry.NewProcessor(processorType, map[string]interface{}{})'))),
 ('opt-reg-config',C,x(RG,('ucfg.NewFrom(config)','ucfg.NewFrom(map[string]interface{}{})'))),
 ('opt-reg-value',C,x(RG,('	return pc.newProc(procConfigValue)\n','	return pc.newProc(pc.newConfig())\n'))),
 ('opt-unexported',C,x(A+'append.go',('	AllowDuplicates bool','	allowDuplicates bool'),('	c.AllowDuplicates = false','	c.allowDuplicates = false'))+x(A+'process.go',('p.config.AllowDuplicates','p.config.allowDuplicates'))),
 ('opt-read-only',C,x(L+'lowercase.go',('	// If true and field','	// Locale.\n	Locale string `config:"locale"`\n\n	// If true and field'))+x(L+'process.go',('	targetField := p.config.Field','	if p.config.Locale != "" {\n		out += ""\n	}\n	targetField := p.config.Field'))),
 ('opt-read-only2',C,x(L+'lowercase.go',('	// If true and field','	// Locale.\n	Locale string `config:"locale"`\n\n	// If true and field'))+x(L+'process.go',('	targetField := p.config.Field','	locale := p.config.Locale\n	_ = locale\n	targetField := p.config.Field'))),
 ('opt-entry-tag',C,x(CF,('	OnFailure []ProcessorConfig           `','	Tag       string                      `yaml:"tag,omitempty"         json:"tag,omitempty"`\n	OnFailure []ProcessorConfig           `'))),
 ('opt-entry-tag-err',C,x(CF,('	OnFailure []ProcessorConfig           `','	Tag       string                      `yaml:"tag,omitempty"         json:"tag,omitempty"`\n	OnFailure []ProcessorConfig           `'))+x(N,('		return nil, fmt.Errorf("failed constructing processor with ID %s: %w", id, err)','		return nil, fmt.Errorf("failed constructing processor with ID %s (%s): %w", id, config.Tag, err)'))),
 ('opt-entry-if-dead',C,x(N,('	// TODO: Check Condition before executing.\n','	cond := p.Condition\n	_ = cond\n'))+x(CF,('	OnFailure []ProcessorConfig           `','	Tag       string                      `yaml:"tag,omitempty"         json:"tag,omitempty"`\n	OnFailure []ProcessorConfig           `'))),
 # behaviour-preserving
 ('ref-opt-fields','',x(L+'lowercase.go',('	config Config\n','	config Config\n	field  string\n	target string\n'),('	return &Lowercase{config: config}, nil','	target := config.TargetField\n	if target == "" {\n		target = config.Field\n	}\n	return &Lowercase{config: config, field: config.Field, target: target}, nil'))+x(L+'process.go',('	targetField := p.config.Field\n	if p.config.TargetField != "" {\n		targetField = p.config.TargetField\n	}\n',''),('evt.Put(targetField,','evt.Put(p.target,'),('evt.Get(p.config.Field)','evt.Get(p.field)'))),
 ('ref-opt-ptr','',x(R+'remove.go',('	config Config\n','	config *Config\n'),('Remove{config: config}','Remove{config: &config}'),('	return p.config\n','	return *p.config\n'),('ConfigString(processorName, p.config)','ConfigString(processorName, *p.config)'))),
 ('ref-opt-config-copy','',x(L+'lowercase.go',('	return p.config\n','	c := p.config\n	return c\n'))),
 ('ref-opt-helper','',x(A+'process.go',('	if !p.config.AllowDuplicates {\n		for _, elem := range v.Array {\n			if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {\n				return nil\n			}\n		}\n	}\n','	if !p.config.AllowDuplicates && p.contains(v.Array) {\n		return nil\n	}\n'),('func (p *Append) Process(','func (p *Append) contains(list []*event.Value) bool {\n	for _, elem := range list {\n		if elem != nil && elem.Type == event.StringType && elem.String == p.config.Value {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (p *Append) Process('))),
 ('opt-new-option','C21',x(L+'lowercase.go',('	// If true and field','	// Suffix is appended.\n	Suffix string `config:"suffix"`\n\n	// If true and field'))+x(L+'process.go',('strings.ToLower(v.String)','strings.ToLower(v.String) + p.config.Suffix'))),
 ('ref-opt-entry-local','',x(N,('	proc, err := registry.NewProcessor(processorType, config.Config)\n','	options := config.Config\n	proc, err := registry.NewProcessor(processorType, options)\n'),('		Condition: string(config.If),\n',''),('	if ignoreMissingPtr != nil {\n','	p.Condition = string(config.If)\n	if ignoreMissingPtr != nil {\n'))),
 ('ref-opt-rm-cond','',x(R+'process.go',('		if v := evt.Delete(field); v == nil && !p.config.IgnoreMissing {\n			return processor.ErrorKeyMissing{Key: field}\n		}\n','		if v := evt.Delete(field); v != nil {\n			continue\n		}\n		if p.config.IgnoreMissing {\n			continue\n		}\n		return processor.ErrorKeyMissing{Key: field}\n'))),
 ('ref-opt-description','',x(P,('	processors, err := newPipelineProcessors(config.ID+".processors"','	id := config.ID\n	processors, err := newPipelineProcessors(id+".processors"'))),
]
