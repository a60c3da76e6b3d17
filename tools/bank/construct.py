P='pkg/pipeline/pipeline.go'
N='pkg/pipeline/processor.go'
C='pkg/pipeline/config.go'
M='pkg/metrics/metrics.go'
VIS='''func (pipe *Pipeline) Metrics() []prometheus.Collector {
	var metrics []prometheus.Collector
	pipe.visitProcessors(func(proc *pipelineProcessor) {
		metrics = append(metrics,
			proc.metricDiscardedEventsTotal,
			proc.metricErrorsTotal,
			proc.metricEventsInTotal,
			proc.metricEventsOutTotal,
		)
	})
	return metrics
}'''
LOOP='''		procType, options, err := processorConfig.getProcessor()
		if err != nil {
			return nil, err
		}
'''
ITEMS=[
 ('met-missing-errors','C16',[(P,'			proc.metricErrorsTotal,\n','')]),
 ('met-dup','C16',[(P,'			proc.metricErrorsTotal,\n','			proc.metricEventsInTotal,\n')]),
 ('met-register-first','C16',[(M,'	for _, coll := range c {\n		if err','	for _, coll := range c[1:] {\n		if err')]),
 ('met-noindex','C16',[(N,'id := baseID + "[" + strconv.Itoa(processorIndex) + "]." + processorType','id := baseID + strconv.Itoa(processorIndex)[:0] + "." + processorType')]),
 ('met-onfail-base','C16',[(N,'newPipelineProcessors(id+".on_failure", config.OnFailure)','newPipelineProcessors(baseID+".on_failure", config.OnFailure)')]),
 ('met-same-base','C16',[(P,'config.ID+".on_failure"','config.ID+".processors"')]),
 ('met-name-dup','C15 C16',[(N,'"component_errors_total"','"component_sent_events_total"')]),
 ('met-label-type','C16',[(N,'"component_id":   id,','"component_id":   processorType,')]),
 ('con-empty-id','C17',[(P,'config == nil || config.ID == ""','config == nil')]),
 ('con-two-names','C17',[(C,'len(c) > 1','len(c) > 2')]),
 ('con-swallow','C17',[(N,'''		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)
		if err != nil {
			return nil, err
		}''','''		pipeProc, err := newPipelineProcessor(baseID, i, procType, options)
		if err != nil {
			continue
		}''')]),
 ('con-kids-err','C17',[(N,'''newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}''','''newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil && len(onFailureProcessors) == 0 {
		onFailureProcessors = nil
	}''')]),
 ('con-swap-flags','C17',[(N,'p.IgnoreMissing = *ignoreMissingPtr','p.IgnoreFailure = *ignoreMissingPtr')]),
 ('con-flag-or','C17',[(N,'p.IgnoreFailure = *ignoreFailurePtr','p.IgnoreFailure = !*ignoreFailurePtr')]),
 ('con-onfail-of-pipeline','C17',[(P,'config.ID+".on_failure", config.OnFailure','config.ID+".on_failure", config.Processors')]),
 ('con-reverse','C17',[(N,'processors = append(processors, pipeProc)','processors = append([]*pipelineProcessor{pipeProc}, processors...)')]),
 ('con-error-shadow','C17',[(P,'''	onFailureProcessors, err := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}
''','''	onFailureProcessors, errF := newPipelineProcessors(config.ID+".on_failure", config.OnFailure)
	if err != nil {
		return nil, errF
	}
''')]),
 ('con-noopts','C17',[(N,'registry.NewProcessor(processorType, config.Config)','registry.NewProcessor(processorType, nil)')]),
 # refactorings
 ('ref-con-inline','',[(N,LOOP,'''		if len(processorConfig) != 1 {
			return nil, fmt.Errorf("processor %d must have one name", i)
		}
		var procType string
		var options *ProcessorOptionConfig
		for procType, options = range processorConfig {
		}
		if options == nil {
			options = &ProcessorOptionConfig{}
		}
''')]),
 ('ref-con-get','',[(C,'''	if len(c) == 0 {
		return "", nil, errors.New("processor cannot be empty")
	}
	if len(c) > 1 {
		return "", nil, errors.New("only one processor must be specified")
	}
	for k, v := range c {
		if v == nil {
			v = &ProcessorOptionConfig{}
		}
		return k, v, nil
	}
''','''	switch len(c) {
	case 0:
		return "", nil, errors.New("processor cannot be empty")
	case 1:
		for name, opts = range c {
			break
		}
		if opts == nil {
			opts = new(ProcessorOptionConfig)
		}
		return name, opts, nil
	default:
		return "", nil, errors.New("only one processor must be specified")
	}
''')]),
 ('ref-con-prealloc','',[(N,'''make([]*pipelineProcessor, 0, len(procConfigs))''','make([]*pipelineProcessor, len(procConfigs))'),(N,'processors = append(processors, pipeProc)','processors[i] = pipeProc')]),
 ('ref-con-sprintf','',[(N,'baseID + "[" + strconv.Itoa(processorIndex) + "]." + processorType','fmt.Sprintf("%s[%d].%s", baseID, processorIndex, processorType)'),(N,'	"strconv"\n','')]),
 ('ref-con-index','',[(N,'for i, processorConfig := range procConfigs {','for i := 0; i < len(procConfigs); i++ {\n		processorConfig := procConfigs[i]')]),
 ('ref-con-counter-helper','',[(N,'''		metricDiscardedEventsTotal: prometheus.NewCounter(prometheus.CounterOpts{
			Namespace:   "es",
			Name:        "component_discarded_events_total",
			Help:        "Total number of events dropped by component.",
			ConstLabels: labels,
		}),''','''		metricDiscardedEventsTotal: counter("component_discarded_events_total", "Total number of events dropped by component."),'''),
 (N,'	p := &pipelineProcessor{\n','''	counter := func(name, help string) prometheus.Counter {
		return prometheus.NewCounter(prometheus.CounterOpts{Namespace: "es", Name: name, Help: help, ConstLabels: labels})
	}
	p := &pipelineProcessor{
''')]),
 ('ref-con-flags-direct','',[(N,'''	if ignoreMissingPtr != nil {
		p.IgnoreMissing = *ignoreMissingPtr
	}
	if ignoreFailurePtr != nil {
		p.IgnoreFailure = *ignoreFailurePtr
	}
''','''	p.IgnoreMissing = deref(ignoreMissingPtr)
	p.IgnoreFailure = deref(ignoreFailurePtr)
'''),(N,'func ignores(','''func deref(b *bool) bool {
	if b == nil {
		return false
	}
	return *b
}

func ignores(''')]),
 ('ref-con-kids-first','',[(N,'''	proc, err := registry.NewProcessor(processorType, config.Config)
	if err != nil {
		return nil, fmt.Errorf("failed constructing processor with ID %s: %w", id, err)
	}
''',''),(N,'''	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}
''',''),(N,'''	ignoreMissingPtr,''','''	onFailureProcessors, err := newPipelineProcessors(id+".on_failure", config.OnFailure)
	if err != nil {
		return nil, err
	}
	proc, err := registry.NewProcessor(processorType, config.Config)
	if err != nil {
		return nil, fmt.Errorf("failed constructing processor with ID %s: %w", id, err)
	}

	ignoreMissingPtr,''')]),
 ('ref-met-loop','',[(P,VIS,'''func (pipe *Pipeline) Metrics() []prometheus.Collector {
	return append(collectAll(nil, pipe.processors), collectAll(nil, pipe.onFailure)...)
}

func collectAll(dst []prometheus.Collector, procs []*pipelineProcessor) []prometheus.Collector {
	for _, proc := range procs {
		dst = append(dst,
			proc.metricDiscardedEventsTotal,
			proc.metricErrorsTotal,
			proc.metricEventsInTotal,
			proc.metricEventsOutTotal,
		)
		dst = collectAll(dst, proc.OnFailure)
	}
	return dst
}''')]),
 ('ref-met-range-both','',[(P,VIS,'''func (pipe *Pipeline) Metrics() []prometheus.Collector {
	metrics := []prometheus.Collector{}
	visit := func(proc *pipelineProcessor) {
		metrics = append(metrics, proc.metricDiscardedEventsTotal)
		metrics = append(metrics, proc.metricErrorsTotal)
		metrics = append(metrics, proc.metricEventsInTotal, proc.metricEventsOutTotal)
	}
	pipe.visitProcessors(visit)
	return metrics
}''')]),
]
