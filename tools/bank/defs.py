SET='pkg/processor/set/set.go'
LOW='pkg/processor/lowercase/lowercase.go'
UP='pkg/processor/uppercase/uppercase.go'
CID='pkg/processor/community_id/community_id.go'
REM='pkg/processor/remove/remove.go'
APP='pkg/processor/append/append.go'
YML='pkg/processor/processors.yml'
RM='docs/README.md'
CMD='cmd/sawmill/sawmill.go'
def R(f,a,b): return [(f,a,b)]
NEWSET='func New(config Config) (*Set, error) {\n	return &Set{config: config}, nil\n}'
NEWCID='func New(config Config) (*CommunityID, error) {\n	return &CommunityID{config: config}, nil\n}'
ITEMS=[
 ('def-default-true','C21',R(SET,'c.IgnoreMissing = false','c.IgnoreMissing = true')),
 ('def-default-text','C21',R(CID,'"network.iana_number"','"network.iananumber"')),
 ('def-default-swapped','C21',R(CID,'c.SourceIP = "source.ip"','c.SourceIP = "destination.ip"')),
 ('def-default-dropped','C21',R(CID,'	c.Transport = "network.transport"\n','')),
 ('def-default-extra','C21',R(SET,'	c.IgnoreMissing = false\n','	c.IgnoreMissing = false\n	c.TargetField = "message"\n')),
 ('def-default-nonzero','C21',R(CID,'c.Seed = 0','c.Seed = 1')),
 ('def-default-value','C21',R(CID,'func (c *Config) InitDefaults() {','func (c Config) InitDefaults() {')),
 ('def-default-guard','C21',R(CID,'	c.ICMPCode = "icmp.code"\n','	if c.ICMPType != "" {\n		c.ICMPCode = "icmp.code"\n	}\n')),
 ('def-tag-name','C21',R(SET,'`config:"copy_from"`','`config:"copyfrom"`')),
 ('def-tag-swap','C21',[(CID,'`config:"icmp_code"`','`config:"icmp_xxx"`'),(CID,'`config:"icmp_type"`','`config:"icmp_code"`'),(CID,'`config:"icmp_xxx"`','`config:"icmp_type"`')]),
 ('def-tag-ignore','C21',R(SET,'`config:"ignore_missing"`','`config:"ignore_missing,ignore"`')),
 ('def-required-dropped','C21',R(LOW,' validate:"required"','')),
 ('def-required-added','C21',R(LOW,'TargetField string `config:"target_field"`','TargetField string `config:"target_field" validate:"required"`')),
 ('def-nonzero','C21',R(CID,'Seed uint16 `config:"seed"`','Seed uint16 `config:"seed" validate:"max=255"`')),
 ('def-type-narrow','C21',R(CID,'Seed uint16','Seed uint8')),
 ('def-type-bool','C21',[(SET,'IgnoreFailure bool','IgnoreFailure string'),(SET,'c.IgnoreFailure = false','c.IgnoreFailure = "false"'),('pkg/pipeline/processor.go','ZZZ','ZZZ')][:2]),
 ('def-new-seed','C21',[(CID,NEWCID,'func New(config Config) (*CommunityID, error) {\n	if config.Seed > 255 {\n		return nil, errSeed\n	}\n	return &CommunityID{config: config}, nil\n}\n\nvar errSeed = errors.New("seed out of range")'),(CID,'import (','import (\n	"errors"\n')]),
 ('def-new-set-value','C21',[(SET,NEWSET,'func New(config Config) (*Set, error) {\n	if config.CopyFrom != "" && config.TargetField == "" {\n		return nil, errors.New("no target")\n	}\n	return &Set{config: config}, nil\n}'),(SET,'import (','import (\n	"errors"\n')]),
 ('def-new-nil','C21',R(CID,NEWCID,'func New(config Config) (*CommunityID, error) {\n	if config.Transport == "" {\n		return nil, nil\n	}\n	return &CommunityID{config: config}, nil\n}')),
 ('def-validate','C21',[(LOW,'// InitDefaults','// Validate checks the configuration.\nfunc (c *Config) Validate() error {\n	if c.TargetField == c.Field {\n		return errors.New("target_field must differ from field")\n	}\n	return nil\n}\n\n// InitDefaults'),(LOW,'import (','import (\n	"errors"\n')]),
 ('def-reg-name','C21',R(UP,'processorName = "uppercase"','processorName = "upper"')),
 ('def-reg-twice','C21',R(UP,'registry.MustRegister(processorName, New)','registry.MustRegister(processorName, New)\n	registry.MustRegister("to_upper", New)')),
 ('def-reg-guard','C21',[(REM,'	registry.MustRegister(processorName, New)\n','	if os.Getenv("SAWMILL_REMOVE") != "0" {\n		registry.MustRegister(processorName, New)\n	}\n'),(REM,'import (','import (\n	"os"\n')]),
 ('def-reg-never','C21',R(REM,'func init() {','func Register() {')),
 ('def-tool-import','C21',R(CMD,'	_ "github.com/andrewkroh/go-sawmill/pkg/processor/remove"\n','')),
 ('def-yml-default','C21',R(YML,'default: network.transport','default: network.protocol')),
 ('def-yml-option','C21',R(YML,'        - name: copy_from\n','        - name: override\n          type: bool\n          optional: true\n        - name: copy_from\n')),
 ('def-yml-required','C21',R(YML,'    name: target_field\n    type: string\n    optional: true','    name: target_field\n    type: string\n    required: true')),
 ('def-yml-type','C21',R(YML,'          type: uint16','          type: uint32')),
 ('def-yml-proc','C21',R(YML,'  - remove:\n','  - rename:\n      description: x\n      configuration:\n        - <<: *field\n  - remove:\n')),
 ('def-doc-row','C21',R(RM,'| allow_duplicates |  | x | bool |  | If false, the processor does not append values already present in the field. |\n','')),
 ('def-doc-type','C21',R(RM,'| seed |  | x | uint16 |','| seed |  | x | uint32 |')),
 ('def-doc-required','C21',R(RM,'| fields | x |  | []string |','| fields |  | x | []string |')),
 ('def-doc-default','C21',R(RM,'| network.community_id |','| network.id |')),
 ('def-doc-extra','C21',R(RM,'| fields | x |  | []string |','| field | x |  | string |  | Source field. |\n| fields | x |  | []string |')),
 ('def-doc-list','C21',R(RM,'- [remove](#remove)\n','')),
 ('def-doc-section','C21',R(RM,'### uppercase\n','### upper\n')),
 ('def-doc-example','C21',R(RM,'      target_field: label.app','      field: label.app')),
 ('def-doc-example-key','C21',R(RM,'on_failure:\n  - set','onfailure:\n  - set')),
 ('ref-def-whole','',R(SET,'	c.IgnoreFailure = false\n	c.IgnoreMissing = false\n','	*c = Config{}\n')),
 ('ref-def-none','',R(SET,'	c.IgnoreFailure = false\n	c.IgnoreMissing = false\n','')),
 ('ref-def-nomethod','',R(LOW,'// InitDefaults initializes the configuration options to their default values.\nfunc (c *Config) InitDefaults() {\n	c.IgnoreMissing = false\n}\n\n','')),
 ('ref-def-composite','',R(CID,'	c.DestinationIP = "destination.ip"\n	c.DestinationPort = "destination.port"\n','	const dst = "destination"\n	c.DestinationIP, c.DestinationPort = dst+".ip", dst+".port"\n')),
 ('ref-def-helper','',[(CID,'	c.SourceIP = "source.ip"\n	c.SourcePort = "source.port"\n','	c.source()\n'),(CID,'// New returns','func (c *Config) source() {\n	c.SourceIP = "source.ip"\n	c.SourcePort = "source.port"\n}\n\n// New returns')]),
 ('ref-def-ifempty','',R(CID,'	c.ICMPCode = "icmp.code"\n','	if c.ICMPCode == "" {\n		c.ICMPCode = "icmp.code"\n	}\n')),
 ('ref-def-new-local','',R(SET,NEWSET,'func New(config Config) (*Set, error) {\n	p := new(Set)\n	p.config = config\n	return p, nil\n}')),
 ('ref-def-new-required','',[(LOW,'return &Lowercase{config: config}, nil','if config.Field == "" {\n		return nil, errors.New("field is required")\n	}\n	return &Lowercase{config: config}, nil'),(LOW,'import (','import (\n	"errors"\n')]),
 ('ref-def-var','',R(REM,'func init() {\n	registry.MustRegister(processorName, New)\n}','var _ = register()\n\nfunc register() bool {\n	registry.MustRegister(processorName, New)\n	return true\n}')),
 ('ref-def-helper-reg','',R(REM,'func init() {\n	registry.MustRegister(processorName, New)\n}','func init() {\n	register()\n}\n\nfunc register() {\n	registry.MustRegister(processorName, New)\n}')),
 ('ref-def-literal','',R(REM,'registry.MustRegister(processorName, New)','registry.MustRegister("remove", New)')),
 ('ref-def-embed','',[(SET,'	// Ignore failures for the processor.\n	IgnoreFailure bool `config:"ignore_failure"`\n\n','	// Ignore failures for the processor.\n	Failure `config:",inline"`\n\n'),(SET,'// Config contains','// Failure has options for failures.\ntype Failure struct {\n	IgnoreFailure bool `config:"ignore_failure"`\n}\n\n// Config contains')]),
 ('ref-def-order','',[(LOW,'	// If true and field does not exist or is null, the processor quietly\n	// returns without modifying the document.\n	IgnoreMissing bool `config:"ignore_missing"`\n\n',''),(LOW,'	TargetField string `config:"target_field"`\n','	TargetField string `config:"target_field"`\n\n	IgnoreMissing bool `config:"ignore_missing"`\n')]),
 ('ref-def-init-two','',R(REM,'func init() {\n','func init() {\n	_ = processorName\n}\n\nfunc init() {\n')),
 ('ref-def-type-alias','',[(REM,'	Fields []string','	Fields fieldList'),(REM,'// New returns','type fieldList = []string\n\n// New returns')]),
 ('ref-def-yml-flow','',R(YML,'        - name: copy_from\n          type: string\n          optional: true\n          description: The origin field which will be copied to target_field.\n','        - {name: copy_from, type: string, optional: true, description: The origin field.}\n')),
 ('ref-def-doc-text','',R(RM,'| copy_from |  | x | string |  | The origin field which will be copied to target_field. |','| copy_from |  | x | `string` |  | The field to copy. |')),
 ('ref-def-doc-false','',R(RM,'| ignore_failure |  | x | bool |  |','| ignore_failure |  | x | bool | false |')),
]
