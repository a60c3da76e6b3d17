CID='pkg/processor/community_id/community_id.go'
UP='pkg/processor/uppercase/uppercase.go'
APP='pkg/processor/append/append.go'
LOW='pkg/processor/lowercase/lowercase.go'
REM='pkg/processor/remove/remove.go'
YML='pkg/processor/processors.yml'
CMD='cmd/sawmill/sawmill.go'
TOOL='''#!/bin/bash
# Exit 0 if the property holds for the demonstrated case, nonzero otherwise.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%s
'''
ITEMS=[
dict(id='c21-default-iana', property='C21', pkg='pkg/processor/community_id',
 edits=[(CID,'	c.IANANumber = "network.iana_number"\n	c.ICMPCode = "icmp.code"\n	c.ICMPType = "icmp.type"\n','	c.IANANumber = "network.iana_number"\n	c.ICMPCode = "icmp.type"\n	c.ICMPType = "icmp.code"\n')],
 needs='a configuration that leaves icmp_type and icmp_code at their defaults',
 breaks='the defaults of icmp_type and icmp_code are exchanged',
 demo='''
package community_id

import "testing"

func TestPlantedDemo(t *testing.T) {
	var c Config
	c.InitDefaults()
	if c.ICMPType != "icmp.type" || c.ICMPCode != "icmp.code" || c.SourceIP != "source.ip" {
		t.Fatalf("%+v", c)
	}
}
'''),
dict(id='c21-required-field', property='C21', pkg='pkg/processor/uppercase',
 edits=[(UP,'	Field string `config:"field" validate:"required"`\n','	Field string `config:"field"`\n')],
 needs='a pipeline with an uppercase processor without field',
 breaks='the required option field of uppercase is no longer required',
 demo='''
package uppercase

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

func TestPlantedDemo(t *testing.T) {
	if _, err := registry.NewProcessor("uppercase", map[string]interface{}{"field": "a"}); err != nil {
		t.Fatal(err)
	}
	if p, err := registry.NewProcessor("uppercase", map[string]interface{}{"target_field": "b"}); err == nil {
		t.Fatal("accepted without field:", p)
	}
}
'''),
dict(id='c21-option-name', property='C21', pkg='pkg/processor/append',
 edits=[(APP,'`config:"allow_duplicates"`','`config:"allow_duplicate"`')],
 needs='a pipeline that sets allow_duplicates',
 breaks='the option is known under another name than the documented one',
 demo='''
package append

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

func TestPlantedDemo(t *testing.T) {
	p, err := registry.NewProcessor("append", map[string]interface{}{"field": "a", "value": "b", "allow_duplicates": true})
	if err != nil {
		t.Fatal(err)
	}
	if !p.(*Append).Config().AllowDuplicates {
		t.Fatal("allow_duplicates is ignored")
	}
}
'''),
dict(id='c21-new-rejects', property='C21', pkg='pkg/processor/lowercase',
 edits=[(LOW,'	return &Lowercase{config: config}, nil\n','	if config.TargetField != "" && strings.HasPrefix(config.TargetField, config.Field) {\n		return nil, fmt.Errorf("target_field %q is below field %q", config.TargetField, config.Field)\n	}\n	return &Lowercase{config: config}, nil\n'),
  (LOW,'import (\n','import (\n	"fmt"\n	"strings"\n\n')],
 needs='a target_field that has the field as a prefix',
 breaks='a valid configuration, such as field: user and target_field: user_lower, is rejected',
 demo='''
package lowercase

import (
	"testing"

	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

func TestPlantedDemo(t *testing.T) {
	for _, target := range []string{"", "other", "user", "user_lower"} {
		if _, err := registry.NewProcessor("lowercase", map[string]interface{}{"field": "user", "target_field": target}); err != nil {
			t.Fatal(err)
		}
	}
}
'''),
dict(id='c21-registered-late', property='C21', pkg='pkg/processor/remove',
 edits=[(REM,'	registry.MustRegister(processorName, New)\n','	if runtime.GOMAXPROCS(0) > 1 {\n		registry.MustRegister(processorName, New)\n	}\n'),
  (REM,'import (\n','import (\n	"runtime"\n\n')],
 needs='a machine with one processor',
 breaks='the remove processor is not registered there',
 sh=TOOL % '''cat > "$T/p.yml" <<'P'
id: demo
processors:
  - remove: {fields: [event.original]}
P
go build -o "$T/sawmill" ./cmd/sawmill || exit 2
for n in 4 1; do
  echo hello | GOMAXPROCS=$n timeout 60 "$T/sawmill" -metrics-addr 127.0.0.1:0 -p "$T/p.yml" > "$T/out" || exit 1
done
grep -q line_number "$T/out"'''),
dict(id='c21-tool-import', property='C21', pkg='',
 edits=[(CMD,'	_ "github.com/andrewkroh/go-sawmill/pkg/processor/community_id"\n',''),
  ],
 needs='a pipeline with a community_id processor, run by the command-line tool',
 breaks='the command-line tool does not know the processor community_id',
 sh=TOOL % '''cat > "$T/p.yml" <<'P'
id: demo
processors:
  - community_id: {seed: 7}
P
go build -o "$T/sawmill" ./cmd/sawmill || exit 2
echo hello | timeout 60 "$T/sawmill" -metrics-addr 127.0.0.1:0 -p "$T/p.yml" > "$T/out" || exit 1
grep -q hello "$T/out"'''),
]
