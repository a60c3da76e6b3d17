P='pkg/pipeline/pipeline.go'
N='pkg/pipeline/processor.go'
ITEMS=[
 ('pipe-noguard-done','C14',[(P,'		if evt.done() {\n			return nil\n		}\n	}\n\n	if err','	}\n\n	if err')]),
 ('pipe-glob-noguard','C14',[(P,'len(pipe.onFailure) > 0 && !evt.done()','len(pipe.onFailure) > 0')]),
 ('pipe-reverse','C12',[(P,'''	for _, proc := range pipe.processors {
		if err = proc''','''	for i := len(pipe.processors) - 1; i >= 0; i-- {
		proc := pipe.processors[i]
		if err = proc''')]),
 ('pipe-glob-continue','C12',[(P,'''				// Failure in global on_failure.
				return err''','''				// Failure in global on_failure.
				continue''')]),
 ('pipe-skip-last','C12',[(P,'range pipe.processors {\n		if err','range pipe.processors[:len(pipe.processors)-1] {\n		if err')]),
 ('pipe-drop-returns-event','C11 C14',[(P,'''	if pipeEvt.dropped {
		return nil, nil
	}

''','')]),
 ('pipe-cancel-as-drop','C11 C14',[(P,'if pipeEvt.dropped {','if pipeEvt.done() {')]),
 ('pipe-err-with-event','C11',[(P,'''pipe.process(pipeEvt); err != nil {
		return nil, err''','''pipe.process(pipeEvt); err != nil {
		return evt, err''')]),
 ('node-swap-ignore','C13',[(N,'if p.IgnoreFailure {','if p.IgnoreMissing {')]),
 ('node-first-error','C13',[(N,'''				if err = proc.Process(event); err != nil || event.done() {
					break
				}''','''				if err2 := proc.Process(event); err2 != nil || event.done() {
					if err2 == nil { err = nil }
					break
				} else { err = nil }''')]),
 ('node-kid-continue','C13',[(N,'err != nil || event.done() {','event.done() {')]),
 ('node-recover-needs-all','C13',[(N,'if p.IgnoreMissing && errors.Is','if errors.Is')]),
 ('node-count-error-on-ignored','C15',[(N,'''		if p.IgnoreFailure {
			p.metricEventsOutTotal.Inc()''','''		if p.IgnoreFailure {
			p.metricErrorsTotal.Inc()''')]),
 ('node-count-dropped-kid','C15',[(N,'''			if event.dropped {
				p.metricDiscardedEventsTotal.Inc()
				return nil
			}

			// Recovered''','''			if event.dropped {
				return nil
			}

			// Recovered''')]),
 ('node-ignore-before-onfailure','C13',[(N,'''		// On Failure
''','''		if p.IgnoreFailure {
			p.metricEventsOutTotal.Inc()
			return nil
		}
''')]),
 ('node-names-swapped','C15',[(N,'component_errors_total','component_sent_events_totaX'),(N,'component_sent_events_total"','component_errors_total"'),(N,'component_sent_events_totaX','component_sent_events_total')]),
 # refactorings
 ('ref-pipe-helper','',[(P,'''	if err != nil && len(pipe.onFailure) > 0 && !evt.done() {
		for _, proc := range pipe.onFailure {
			if err = proc.Process(evt); err != nil {
				// Failure in global on_failure.
				return err
			}
			if evt.done() {
				return nil
			}
		}
	}

	if err != nil {
		return err
	}

	return nil
}
''','''	if err == nil || evt.done() || len(pipe.onFailure) == 0 {
		return err
	}
	return runAll(pipe.onFailure, evt)
}

func runAll(procs []*pipelineProcessor, evt *pipelineEvent) error {
	for i := 0; i < len(procs); i++ {
		if err := procs[i].Process(evt); err != nil {
			return err
		}
		if evt.done() {
			break
		}
	}
	return nil
}
'''),(P,'''	var err error
	for _, proc := range pipe.processors {
		if err = proc.Process(evt); err != nil {
			// Go to global on_failure handler.
			break
		}
		if evt.done() {
			return nil
		}
	}
''','''	err := runAll(pipe.processors, evt)
''')]),
 ('ref-node-helper','',[(N,'''		// On Failure
		if len(p.OnFailure) > 0 && !event.done() {
			for _, proc := range p.OnFailure {
				if err = proc.Process(event); err != nil || event.done() {
					break
				}
			}
''','''		// On Failure
		if len(p.OnFailure) > 0 && !event.done() {
			err = p.recover(event)
'''),(N,'func newPipelineProcessors(','''func (p *pipelineProcessor) recover(event *pipelineEvent) error {
	for _, proc := range p.OnFailure {
		if err := proc.Process(event); err != nil {
			return err
		}
		if event.done() {
			return nil
		}
	}
	return nil
}

func newPipelineProcessors(''')]),
 ('ref-node-outcome','',[(N,'''	err := p.proc.Process(event)
	if event.dropped {
		p.metricDiscardedEventsTotal.Inc()
		return nil
	}

	if err != nil {''','''	err := p.run(event)
	switch {
	case event.dropped:
		p.metricDiscardedEventsTotal.Inc()
		return nil
	case err != nil:
		p.metricErrorsTotal.Inc()
	default:
		p.metricEventsOutTotal.Inc()
	}
	return err
}

func (p *pipelineProcessor) run(event *pipelineEvent) error {
	err := p.proc.Process(event)
	if err == nil || event.dropped {
		return nil
	}
	if errors.Is(err, processor.ErrorKeyMissing{}) && p.IgnoreMissing {
		return nil
	}
	if n := len(p.OnFailure); n > 0 && !event.done() {
		for i := 0; i < n; i++ {
			err = p.OnFailure[i].Process(event)
			if err != nil {
				break
			}
			if event.done() {
				break
			}
		}
	}
	if err != nil && p.IgnoreFailure {
		return nil
	}
	return err
}

func (p *pipelineProcessor) unused(event *pipelineEvent) error {
	err := errors.New("x")
	if err != nil {''')]),
 ('ref-defer-count','',[(N,'''	p.metricEventsInTotal.Inc()

	err := p.proc''','''	defer p.metricEventsInTotal.Inc()

	err := p.proc''')]),
 ('ref-closure-count','',[(N,'''	err := p.proc.Process(event)
	if event.dropped {
		p.metricDiscardedEventsTotal.Inc()
		return nil
	}
''','''	count := func(c prometheus.Counter) error {
		c.Inc()
		return nil
	}
	err := p.proc.Process(event)
	if event.dropped {
		return count(p.metricDiscardedEventsTotal)
	}
''')]),
]
