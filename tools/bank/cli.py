M='cmd/sawmill/sawmill.go'
src=open('/repo/'+M).read()
PB=src[src.index('func processInput('):src.index('func bufferedFileWriter(')]
def sub(*prs): return [(M,a,b) for a,b in prs]
def P(body): return [(M,PB,body.strip('\n')+'\n\n')]
ITEMS=[
 ('cli-count-nonblank','C28',sub(('		lineNumber++\n\n		// Skip','		// Skip'),('		// Create new event.\n','		lineNumber++\n\n		// Create new event.\n'))),
 ('cli-count-zero','C28',sub(('		lineNumber++\n\n',''),('		line := strings','		n := lineNumber\n		lineNumber++\n		line := strings'),('UnsignedInteger(lineNumber)','UnsignedInteger(n)'))),
 ('cli-no-trim','C28',sub(('event.String(line)','event.String(s.Text())'))),
 ('cli-no-trim2','C28',sub(('line := strings.TrimSpace(s.Text())','line := strings.ToValidUTF8(s.Text(), "")'))),
 ('cli-trimright','C28',sub(('strings.TrimSpace(s.Text())','strings.TrimRight(s.Text(), " \\t\\r")'))),
 ('cli-fail-stops','C28',sub(('			log.Printf("Error processing line %d: %v", lineNumber, err)\n			continue','			log.Printf("Error processing line %d: %v", lineNumber, err)\n			break'))),
 ('cli-fail-returns','C28',sub(('			log.Printf("Error processing line %d: %v", lineNumber, err)\n			continue','			return fmt.Errorf("line %d: %w", lineNumber, err)'))),
 ('cli-fail-fatal','C28',sub(('log.Printf("Error processing','log.Fatalf("Error processing'))),
 ('cli-fail-silent','C28',sub(('			log.Printf("Error processing line %d: %v", lineNumber, err)\n',''))),
 ('cli-fail-nonumber','C28',sub(('log.Printf("Error processing line %d: %v", lineNumber, err)','log.Printf("Error processing line: %v", err)'))),
 ('cli-fail-output','C28',sub(('lineNumber, err)\n			continue\n		}\n\n		// Skip dropped','lineNumber, err)\n		}\n\n		// Skip dropped'))),
 ('cli-dropped-null','C28',sub(('		if evt == nil {\n			continue\n		}\n',''))),
 ('cli-dropped-stops','C28',sub(('		if evt == nil {\n			continue','		if evt == nil {\n			break'))),
 ('cli-dropped-number','C28',sub(('		if evt == nil {\n			continue','		if evt == nil {\n			lineNumber--\n			continue'))),
 ('cli-blank-stops','C28',sub(('		if line == "" {\n			continue','		if line == "" {\n			break'))),
 ('cli-comment','C28',sub(('		if line == "" {','		if line == "" || line[0] == \'#\' {'))),
 ('cli-short','C28',sub(('		if line == "" {','		if len(line) <= 1 {'))),
 ('cli-scan-err','C28',sub(('	if err := s.Err(); err != nil {\n		return fmt.Errorf("failed reading from input: %w", err)\n	}\n','	fmt.Fprintln(os.Stderr, lineNumber, "lines")\n'))),
 ('cli-scan-err-nil','C28',sub(('		return fmt.Errorf("failed reading from input: %w", err)\n','		log.Println(fmt.Errorf("failed reading from input: %w", err))\n'))),
 ('cli-main-ignores','C28',sub(('	if err := processInput(os.Stdin, os.Stdout, p); err != nil {\n		log.Fatal("Error:", err)\n	}','	if err := processInput(os.Stdin, os.Stdout, p); err != nil {\n		log.Print("Error:", err)\n	}'))),
 ('cli-main-exit0','C28',sub(('	if err := processInput(os.Stdin, os.Stdout, p); err != nil {\n		log.Fatal("Error:", err)\n	}','	if err := processInput(os.Stdin, os.Stdout, p); err != nil {\n		log.Print("Error:", err)\n		os.Exit(0)\n	}'))),
 ('cli-stderr','C28',sub(('processInput(os.Stdin, os.Stdout, p)','processInput(os.Stdin, os.Stderr, p)'))),
 ('cli-indent','C28',sub(('	enc.SetEscapeHTML(false)\n','	enc.SetEscapeHTML(false)\n	enc.SetIndent("", "  ")\n'))),
 ('cli-buffered-noflush','C28',sub(('	enc := json.NewEncoder(out)\n','	w := bufio.NewWriter(out)\n	defer func() {\n		if s.Err() == nil {\n			w.Flush()\n		}\n	}()\n	enc := json.NewEncoder(w)\n'))),
 ('cli-event-reuse','C28',sub(('	for s.Scan() {\n','	evt := event.New()\n	for s.Scan() {\n'),('		evt := event.New()\n',''))),
 ('cli-encode-orig','C28',sub(('		evt, err := pipe.Process(evt)\n		if err != nil {','		res, err := pipe.Process(evt)\n		if err != nil {'),('		if evt == nil {','		if res == nil {'))),
 ('cli-encode-ignored','C28',sub(('		if err := enc.Encode(evt); err != nil {\n			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)\n			continue\n		}\n','		enc.Encode(evt)\n'))),
 ('cli-encode-return','C28',sub(('			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)\n			continue\n','			return err\n'))),
 ('cli-twice','C28',sub(('		evt, err := pipe.Process(evt)\n','		evt, err := pipe.Process(evt)\n		if err != nil {\n			evt, err = pipe.Process(evt)\n		}\n'))),
 ('cli-goroutine','C28',sub(('		if err := enc.Encode(evt); err != nil {','		go enc.Encode(evt)\n		if err := enc.Encode(evt); err != nil {'))),
 ('cli-words','C28',sub(('	var lineNumber uint64\n','	s.Split(bufio.ScanWords)\n	var lineNumber uint64\n'))),
 ('cli-limit','C28',sub(('	for s.Scan() {\n','	for lineNumber < 1000000 && s.Scan() {\n'))),
 ('cli-key','C28',sub(('"@metadata.line_number"','"@metadata.line.number"'))),
 ('cli-put-after','C28',sub(('		evt.Put("event.original", event.String(line))\n',''),('		if err := enc.Encode','		evt.Put("event.original", event.String(line))\n		if err := enc.Encode'))),
 ('cli-progress','C28',sub(('		// Skip dropped events.\n','		fmt.Print(".")\n'))),
 ('ref-cli-helper','',P('''
func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
	s := bufio.NewScanner(in)
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	for n := uint64(1); s.Scan(); n++ {
		if line := strings.TrimSpace(s.Text()); line != "" {
			processLine(enc, pipe, n, line)
		}
	}
	if err := s.Err(); err != nil {
		return fmt.Errorf("failed reading from input: %w", err)
	}
	return nil
}

func processLine(enc *json.Encoder, pipe *pipeline.Pipeline, n uint64, line string) {
	evt := event.New()
	evt.Put("@metadata.line_number", event.UnsignedInteger(n))
	evt.Put("event.original", event.String(line))

	out, err := pipe.Process(evt)
	switch {
	case err != nil:
		log.Printf("Error processing line %d: %v", n, err)
	case out == nil:
		// dropped
	default:
		if err := enc.Encode(out); err != nil {
			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", n, err)
		}
	}
}
''')),
 ('ref-cli-newevent','',sub(('		evt := event.New()\n		evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))\n		evt.Put("event.original", event.String(line))\n','		evt := newEvent(line, lineNumber)\n'),('func bufferedFileWriter','func newEvent(line string, n uint64) *event.Event {\n	evt := event.New()\n	evt.Put("event.original", event.String(line))\n	evt.Put("@metadata.line_number", event.UnsignedInteger(n))\n	return evt\n}\n\nfunc bufferedFileWriter'))),
 ('ref-cli-forever','',sub(('	for s.Scan() {\n','	for {\n		if !s.Scan() {\n			break\n		}\n'))),
 ('ref-cli-errvar','',sub(('	if err := s.Err(); err != nil {\n		return fmt.Errorf("failed reading from input: %w", err)\n	}\n\n	return nil','	err := s.Err()\n	if err == nil {\n		return nil\n	}\n	return fmt.Errorf("failed reading from input: %w", err)'))),
 ('ref-cli-run','',sub(('	if err := processInput(os.Stdin, os.Stdout, p); err != nil {\n		log.Fatal("Error:", err)\n	}','	if err := processInput(os.Stdin, os.Stdout, p); err != nil {\n		fmt.Fprintln(os.Stderr, "Error:", err)\n		os.Exit(1)\n	}'))),
 ('ref-cli-struct','',P('''
type runner struct {
	enc  *json.Encoder
	pipe *pipeline.Pipeline
	line uint64
}

func (r *runner) handle(text string) {
	r.line++
	text = strings.TrimSpace(text)
	if len(text) == 0 {
		return
	}
	in := event.New()
	in.Put("@metadata.line_number", event.UnsignedInteger(r.line))
	in.Put("event.original", event.String(text))
	evt, err := r.pipe.Process(in)
	if err != nil {
		log.Printf("Error processing line %d: %v", r.line, err)
		return
	}
	if evt == nil {
		return
	}
	if err := r.enc.Encode(evt); err != nil {
		log.Printf("Unexpected error marshaling event from line %d to JSON: %v", r.line, err)
	}
}

func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
	r := &runner{enc: json.NewEncoder(out), pipe: pipe}
	r.enc.SetEscapeHTML(false)
	s := bufio.NewScanner(in)
	for s.Scan() {
		r.handle(s.Text())
	}
	if err := s.Err(); err != nil {
		return fmt.Errorf("failed reading from input: %w", err)
	}
	return nil
}
''')),
 ('ref-cli-bytes','',sub(('		line := strings.TrimSpace(s.Text())\n','		line := string(bytes.TrimSpace(s.Bytes()))\n'),('import (\n','import (\n	"bytes"\n'),('	"strings"\n',''))),
 ('cli-buffered','C27',sub(('	enc := json.NewEncoder(out)\n','	w := bufio.NewWriter(out)\n	defer w.Flush()\n	enc := json.NewEncoder(w)\n'))),
 ('ref-cli-logger','',sub(('	enc := json.NewEncoder(out)\n','	logger := log.New(os.Stderr, "", 0)\n	enc := json.NewEncoder(out)\n'),('log.Printf("Error processing','logger.Printf("Error processing'))),
 ('ref-cli-nest','',sub(('		if evt == nil {\n			continue\n		}\n\n		if err := enc.Encode(evt); err != nil {\n			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)\n			continue\n		}\n','		if evt != nil {\n			if err := enc.Encode(evt); err != nil {\n				log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)\n			}\n		}\n'))),
 ('ref-cli-int','',sub(('	var lineNumber uint64\n','	lineNumber := 0\n'),('UnsignedInteger(lineNumber)','UnsignedInteger(uint64(lineNumber))'))),
 ('cli-marshal-lost','C27',sub(('		if err := enc.Encode(evt); err != nil {\n','		b, err := json.Marshal(evt)\n		if err == nil {\n			fmt.Fprintf(out, "%s\\n", b)\n		}\n		if err != nil {\n'),('	enc := json.NewEncoder(out)\n	enc.SetEscapeHTML(false)\n',''))),
 ('ref-cli-putfirst','',sub(('		evt.Put("@metadata.line_number", event.UnsignedInteger(lineNumber))\n		evt.Put("event.original", event.String(line))\n','		if _, err := evt.Put("event.original", event.String(line)); err != nil {\n			log.Printf("line %d: %v", lineNumber, err)\n		}\n		if _, err := evt.TryPut("@metadata.line_number", event.UnsignedInteger(lineNumber)); err != nil {\n			log.Printf("line %d: %v", lineNumber, err)\n		}\n'))),
]
