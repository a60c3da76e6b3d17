M='cmd/sawmill/sawmill.go'
SH='''#!/bin/bash
# Exit 0 if the property holds for the demonstrated case, nonzero otherwise.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/sawmill" ./cmd/sawmill || exit 2
run() { "$T/sawmill" -metrics-addr 127.0.0.1:0 -p "$T/p.yml" >"$T/out" 2>"$T/err"; }
die() { echo "$1"; cat "$T/out" "$T/err"; exit 1; }
%s
'''
def D(b): return SH % b.strip('\n')
LOWER='''cat >"$T/p.yml" <<'Y'
id: p
processors:
  - lowercase: {field: event.original, target_field: low}
Y
'''
FAIL='''cat >"$T/p.yml" <<'Y'
id: p
processors:
  - uppercase: {field: missing}
Y
'''
ITEMS=[
dict(id='c28-count-nonblank', property='C28', pkg='cmd/sawmill',
 edits=[(M,'		lineNumber++\n\n		// Skip','		// Skip'),(M,'		// Create new event.\n','		lineNumber++\n\n		// Create new event.\n')],
 needs='blank lines before other lines', breaks='the line numbers do not count blank lines',
 sh=D(LOWER+'''printf 'A\\n' | run || die failed
grep -q '"line_number":1' "$T/out" || die "first line"
printf 'A\\n\\n  \\nB\\n' | run || die failed
grep -q '"line_number":4' "$T/out" || die "line 4"
''')),
dict(id='c28-long-line', property='C28', pkg='cmd/sawmill',
 edits=[(M,'	if err := s.Err(); err != nil {\n		return','	if err := s.Err(); err != nil && err != bufio.ErrTooLong {\n		return')],
 needs='a line longer than 64 KiB', breaks='the rest of the input is skipped and the program succeeds',
 sh=D(LOWER+'''printf 'A\\nB\\n' | run || die failed
[ "$(wc -l <"$T/out")" = 2 ] || die "two lines"
{ head -c 70000 /dev/zero | tr '\\0' a; printf '\\nB\\n'; } | run && [ "$(wc -l <"$T/out")" != 2 ] && die "lines are lost without a failure"
exit 0
''')),
dict(id='c28-give-up', property='C28', pkg='cmd/sawmill',
 edits=[(M,'	var lineNumber uint64\n','	var lineNumber, failed uint64\n'),(M,'			log.Printf("Error processing line %d: %v", lineNumber, err)\n			continue','			log.Printf("Error processing line %d: %v", lineNumber, err)\n			if failed++; failed > 100 {\n				return fmt.Errorf("too many failures: %w", err)\n			}\n			continue')],
 needs='more than 100 lines that fail', breaks='the lines that follow are not handled',
 sh=D(FAIL+'''seq 1 50 | run || die failed
[ "$(grep -c 'line' "$T/err")" = 50 ] || die "50 failures"
seq 1 300 | run || die failed
[ "$(grep -c 'line' "$T/err")" = 300 ] || die "300 failures"
''')),
dict(id='c28-comment-lines', property='C28', pkg='cmd/sawmill',
 edits=[(M,'		if line == "" {','		if line == "" || strings.HasPrefix(line, "//") {')],
 needs='a line that starts with //', breaks='the line is skipped silently',
 sh=D(LOWER+'''printf 'A\\n/ b\\n' | run || die failed
[ "$(wc -l <"$T/out")" = 2 ] || die "two lines"
printf 'A\\n// b\\n' | run || die failed
[ "$(wc -l <"$T/out")" = 2 ] || die "two lines of which one starts with slashes"
''')),
dict(id='c28-buffer-lost', property='C28', pkg='cmd/sawmill',
 edits=[(M,'	enc := json.NewEncoder(out)\n','	w := bufio.NewWriter(out)\n	enc := json.NewEncoder(w)\n'),(M,'		return fmt.Errorf("failed reading from input: %w", err)\n	}\n\n	return nil','		return fmt.Errorf("failed reading from input: %w", err)\n	}\n\n	return w.Flush()')],
 needs='a failure to read the input after some lines', breaks='the output of the lines before is lost',
 sh=D(LOWER+'''printf 'A\\nB\\n' | run || die failed
[ "$(wc -l <"$T/out")" = 2 ] || die "two lines"
{ printf 'A\\nB\\n'; head -c 70000 /dev/zero | tr '\\0' a; } | run
[ "$(wc -l <"$T/out")" -ge 2 ] || die "the first two lines are lost"
''')),
dict(id='c28-reported-number', property='C28', pkg='cmd/sawmill',
 edits=[(M,'		if evt == nil {\n			continue\n','		if evt == nil {\n			lineNumber--\n			continue\n')],
 needs='a dropped event before other lines', breaks='the lines after a dropped event have a wrong number',
 pkgtest=None,
 demo='''
package main

import (
	"bytes"
	"strings"
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

type dropOne struct{}

func (*dropOne) Config() struct{} { return struct{}{} }

func (dropOne) String() string { return "demo_drop_x" }
func (dropOne) Process(evt processor.Event) error {
	if v := evt.Get("event.original"); v != nil && v.String == "x" {
		evt.Drop()
	}
	return nil
}

func TestPlantedDemo(t *testing.T) {
	registry.MustRegister("demo_drop_x", func(struct{}) (*dropOne, error) { return &dropOne{}, nil })
	p, err := pipeline.New(&pipeline.Config{ID: "p", Processors: []pipeline.ProcessorConfig{{"demo_drop_x": nil}}})
	if err != nil {
		t.Fatal(err)
	}
	for _, in := range []string{"a\\nb\\nc\\n", "a\\nx\\nc\\n"} {
		var out bytes.Buffer
		if err := processInput(strings.NewReader(in), &out, p); err != nil {
			t.Fatal(err)
		}
		if !strings.Contains(out.String(), `"line_number":3`) {
			t.Fatalf("%q: %s", in, out.String())
		}
	}
}

var _ = event.New
'''),
]
