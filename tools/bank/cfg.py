C='pkg/pipeline/config.go'
src=open('/repo/'+C).read()
UB=src[src.index('	// Prevent another call'):src.index('// MarshalJSON contains')]
MB=src[src.index('	data := map[string]interface{}{}'):]
def sub(*prs):
    return [(C,a,b) for a,b in prs]
def U(body): return [(C,UB,body.strip('\n')+'\n}\n\n')]
def M(body): return [(C,MB,body.strip('\n')+'\n}\n')]
ITEMS=[
 ('cfg-ptr-marshal','C19',sub(('func (c ProcessorOptionConfig) MarshalJSON','func (c *ProcessorOptionConfig) MarshalJSON'))),
 ('cfg-val-unmarshal','C19',sub(('func (c *ProcessorOptionConfig) UnmarshalJSON','func (c ProcessorOptionConfig) UnmarshalJSON'),('(*opts)(c)','(*opts)(&c)'))),
 ('cfg-tag-if','C19',sub(('yaml:"if,omitempty"         json:"if,omitempty"','yaml:"if,omitempty"         json:"condition,omitempty"'))),
 ('cfg-tag-onfailure-yaml','C19',sub(('yaml:"on_failure,omitempty" json:"on_failure,omitempty"`\n	Config','yaml:"onfailure,omitempty" json:"on_failure,omitempty"`\n	Config'))),
 ('cfg-tag-both','C19',sub(('	If        ConditionalExpressionConfig `yaml:"if,omitempty"         json:"if,omitempty"`','	If        ConditionalExpressionConfig `yaml:"when,omitempty"         json:"when,omitempty"`'))),
 ('cfg-tag-desc','C19',sub(('yaml:"description,omitempty" json:"description,omitempty"','yaml:"description,omitempty" json:"desc,omitempty"'))),
 ('cfg-tag-json-missing','C19',sub(('`yaml:"description,omitempty" json:"description,omitempty"`','`yaml:"description,omitempty"`'))),
 ('cfg-tag-string','C19',sub(('yaml:"id,omitempty"         json:"id,omitempty"','yaml:"id,omitempty"         json:"id,omitempty,string"'))),
 ('cfg-no-inline','C19',sub(('`yaml:",inline"              json:"-"                    config:",inline"`','`yaml:"config"              json:"-"                    config:",inline"`'))),
 ('cfg-del-onfailure','C19',sub(('	delete(raw, "on_failure")\n',''))),
 ('cfg-del-if','C19',sub(('	delete(raw, "if")\n','	if c.If != "" {\n		delete(raw, "if")\n	}\n'))),
 ('cfg-del-more','C19',sub(('	delete(raw, "if")\n','	delete(raw, "if")\n	delete(raw, "description")\n'))),
 ('cfg-lost-one','C19',sub(('if len(raw) > 0 {\n		c.Config = make','if len(raw) > 1 {\n		c.Config = make'),('	for k, v := range raw {\n','	for k, v := range raw {\n		if c.Config == nil {\n			break\n		}\n'))),
 ('cfg-nil-opt','C19',sub(('		c.Config[k] = v\n','		if v != nil {\n			c.Config[k] = v\n		}\n'))),
 ('cfg-lower','C19',sub(('		c.Config[k] = v\n','		c.Config[strings.ToLower(k)] = v\n'),('	"errors"\n','	"errors"\n	"strings"\n'))),
 ('cfg-id-only','C19',sub(('	if len(raw) > 0 {\n','	if len(raw) > 0 && c.ID == "" {\n'),('	for k, v := range raw {\n','	for k, v := range raw {\n		if c.Config == nil {\n			return nil\n		}\n'))),
 ('cfg-err-lost','C19',sub(('	if err := json.Unmarshal(data, (*opts)(c)); err != nil {\n		return err\n	}\n','	_ = json.Unmarshal(data, (*opts)(c))\n'))),
 ('cfg-err-nil','C19',sub(('	if err := json.Unmarshal(data, &raw); err != nil {\n		return err\n','	if err := json.Unmarshal(data, &raw); err != nil {\n		return nil\n'))),
 ('cfg-early','C19',sub(('	var raw map','	if c.OnFailure != nil {\n		return nil\n	}\n	var raw map'))),
 ('ref-cfg-merge-stale','',sub(('	var raw map[string]interface{}\n','	raw := c.Config\n'))),
 ('cfg-opts-skip','C19',sub(('(*opts)(c)','&opts{}'))),
 ('cfg-marshal-if-lost','C19',sub(('	if c.If != "" {\n		data["if"] = c.If\n','	if c.If != "" && c.ID != "" {\n		data["if"] = c.If\n'))),
 ('cfg-marshal-name','C19',sub(('data["on_failure"] =','data["onFailure"] ='))),
 ('cfg-marshal-swap','C19',sub(('data["id"] = c.ID','data["id"] = string(c.If)'),('data["if"] = c.If','data["if"] = c.ID'))),
 ('cfg-marshal-skip-empty','C19',sub(('		data[k] = v\n','		if v == "" {\n			continue\n		}\n		data[k] = v\n'))),
 ('cfg-marshal-guard','C19',sub(('	for k, v := range c.Config {\n','	for k, v := range c.Config {\n		if len(data) > 16 {\n			break\n		}\n'))),
 ('cfg-marshal-early','C19',sub(('		data["on_failure"] = c.OnFailure\n','		data["on_failure"] = c.OnFailure\n		return json.Marshal(data)\n'))),
 ('cfg-marshal-len','C19',sub(('if len(c.OnFailure) > 0','if len(c.OnFailure) > 1'))),
 ('cfg-marshal-nested','C19',sub(('	return json.Marshal(data)\n','	return json.Marshal(map[string]interface{}{"config": data})\n'))),
 ('cfg-text','C19',sub(('type ConditionalExpressionConfig string\n','type ConditionalExpressionConfig string\n\n// UnmarshalText implements encoding.TextUnmarshaler.\nfunc (c *ConditionalExpressionConfig) UnmarshalText(b []byte) error {\n	*c = ConditionalExpressionConfig(string(b) + ";")\n	return nil\n}\n'))),
 ('cfg-recursion','C19',sub(('	type opts ProcessorOptionConfig\n',''),('(*opts)(c)','c'))),
 ('ref-cfg-direct','',sub(('		c.Config = make(map[string]interface{}, len(raw))\n	}\n	for k, v := range raw {\n		c.Config[k] = v\n	}\n','		c.Config = raw\n	}\n'))),
 ('ref-cfg-direct2','',sub(('	if len(raw) > 0 {\n		c.Config = make(map[string]interface{}, len(raw))\n	}\n	for k, v := range raw {\n		c.Config[k] = v\n	}\n	return nil','	if len(raw) == 0 {\n		return nil\n	}\n	c.Config = raw\n	return nil'))),
 ('ref-cfg-loop-del','',sub(('	delete(raw, "id")\n	delete(raw, "if")\n	delete(raw, "on_failure")\n','	for _, k := range []string{"id", "if", "on_failure"} {\n		delete(raw, k)\n	}\n'))),
 ('ref-cfg-switch','',U('''
	type opts ProcessorOptionConfig
	if err := json.Unmarshal(data, (*opts)(c)); err != nil {
		return err
	}
	var raw map[string]interface{}
	if err := json.Unmarshal(data, &raw); err != nil {
		return err
	}
	for k, v := range raw {
		switch k {
		case "id", "if", "on_failure":
			continue
		}
		if c.Config == nil {
			c.Config = map[string]interface{}{}
		}
		c.Config[k] = v
	}
	return nil''')),
 ('ref-cfg-local','',U('''
	type opts ProcessorOptionConfig
	var o opts
	if err := json.Unmarshal(data, &o); err != nil {
		return err
	}
	var raw map[string]interface{}
	if err := json.Unmarshal(data, &raw); err != nil {
		return err
	}
	delete(raw, "id")
	delete(raw, "if")
	delete(raw, "on_failure")
	if len(raw) > 0 {
		o.Config = raw
	}
	*c = ProcessorOptionConfig(o)
	return nil''')),
 ('ref-cfg-helper','',U('''
	type opts ProcessorOptionConfig
	if err := json.Unmarshal(data, (*opts)(c)); err != nil {
		return err
	}
	extra, err := otherOptions(data)
	if err != nil {
		return err
	}
	c.Config = extra
	return nil
}

func otherOptions(data []byte) (map[string]interface{}, error) {
	var raw map[string]interface{}
	if err := json.Unmarshal(data, &raw); err != nil {
		return nil, err
	}
	delete(raw, "id")
	delete(raw, "if")
	delete(raw, "on_failure")
	if len(raw) == 0 {
		return nil, nil
	}
	return raw, nil''')),
 ('ref-cfg-anon','',U('''
	var known struct {
		ID        string                      `json:"id"`
		If        ConditionalExpressionConfig `json:"if"`
		OnFailure []ProcessorConfig           `json:"on_failure"`
	}
	if err := json.Unmarshal(data, &known); err != nil {
		return err
	}
	c.ID, c.If, c.OnFailure = known.ID, known.If, known.OnFailure
	raw := map[string]interface{}{}
	if err := json.Unmarshal(data, &raw); err != nil {
		return err
	}
	delete(raw, "id")
	delete(raw, "if")
	delete(raw, "on_failure")
	if len(raw) > 0 {
		c.Config = raw
	}
	return nil''')),
 ('ref-cfg-embed','',U('''
	type opts ProcessorOptionConfig
	aux := struct{ *opts }{(*opts)(c)}
	if err := json.Unmarshal(data, &aux); err != nil {
		return err
	}
	var raw map[string]interface{}
	err := json.Unmarshal(data, &raw)
	if err == nil {
		delete(raw, "id")
		delete(raw, "if")
		delete(raw, "on_failure")
		if len(raw) > 0 {
			c.Config = raw
		}
	}
	return err''')),
 ('ref-cfg-decoder','',sub(('	if err := json.Unmarshal(data, &raw); err != nil {\n','	if err := json.NewDecoder(bytes.NewReader(data)).Decode(&raw); err != nil {\n'),('import (\n','import (\n	"bytes"\n'))),
 ('ref-cfg-order','',U('''
	var raw map[string]interface{}
	if err := json.Unmarshal(data, &raw); err != nil {
		return err
	}
	type opts ProcessorOptionConfig
	if err := json.Unmarshal(data, (*opts)(c)); err != nil {
		return err
	}
	delete(raw, "on_failure")
	delete(raw, "if")
	delete(raw, "id")
	if n := len(raw); n > 0 {
		c.Config = make(map[string]interface{}, n)
		for name, value := range raw {
			c.Config[name] = value
		}
	}
	return nil''')),
 ('ref-cfg-wrap','',sub(('	if err := json.Unmarshal(data, &raw); err != nil {\n		return err\n','	if err := json.Unmarshal(data, &raw); err != nil {\n		return fmt.Errorf("failed to decode the options: %w", err)\n'),('	"errors"\n','	"errors"\n	"fmt"\n'))),
 ('ref-cfg-m-order','',M('''
	data := make(map[string]interface{}, len(c.Config)+3)
	for k, v := range c.Config {
		data[k] = v
	}
	if len(c.OnFailure) != 0 {
		data["on_failure"] = c.OnFailure
	}
	if c.If != "" {
		data["if"] = string(c.If)
	}
	if len(c.ID) > 0 {
		data["id"] = c.ID
	}
	return json.Marshal(data)''')),
 ('ref-cfg-m-helper','',M('''
	data := map[string]interface{}{}
	setString(data, "id", c.ID)
	setString(data, "if", string(c.If))
	if len(c.OnFailure) > 0 {
		data["on_failure"] = c.OnFailure
	}
	for k, v := range c.Config {
		data[k] = v
	}
	return json.Marshal(data)
}

func setString(m map[string]interface{}, k, v string) {
	if v == "" {
		return
	}
	m[k] = v''')),
 ('ref-cfg-m-err','',M('''
	data := map[string]interface{}{}
	if c.ID != "" {
		data["id"] = c.ID
	}
	if c.If != "" {
		data["if"] = c.If
	}
	if c.OnFailure != nil {
		data["on_failure"] = c.OnFailure
	}
	for name := range c.Config {
		data[name] = c.Config[name]
	}
	out, err := json.Marshal(data)
	if err != nil {
		return nil, err
	}
	return out, nil''')),
 ('ref-cfg-m-always','',sub(('	for k, v := range c.Config {\n		data[k] = v\n	}\n','	if len(c.Config) > 0 {\n		for k, v := range c.Config {\n			data[k] = v\n		}\n	}\n'))),
]
def SW(a,b):
    base=[i for i in ITEMS if i[0]=='ref-cfg-switch'][0][2]
    assert a in base[0][2]
    return [(C,base[0][1],base[0][2].replace(a,b))]
ITEMS+=[
 ('cfg-sw-remake','C19',SW('		if c.Config == nil {\n			c.Config =','		if c.Config == nil || len(c.Config) > 8 {\n			c.Config =')),
 ('cfg-sw-reset','C19',SW('		c.Config[k] = v\n','		c.Config[k] = v\n		if k == "config" {\n			c.Config = nil\n		}\n')),
 ('cfg-sw-missing','C19',SW('case "id", "if", "on_failure":','case "id", "on_failure":')),
 ('cfg-sw-more','C19',SW('case "id", "if", "on_failure":','case "id", "if", "on_failure", "tag":')),
 ('cfg-loop-del-less','C19',[(C,'	delete(raw, "id")\n	delete(raw, "if")\n	delete(raw, "on_failure")\n','	for _, k := range []string{"id", "on_failure"} {\n		delete(raw, k)\n	}\n')]),
 ('cfg-loop-del-break','C19',[(C,'	delete(raw, "id")\n	delete(raw, "if")\n	delete(raw, "on_failure")\n','	for _, k := range []string{"id", "if", "on_failure"} {\n		if len(raw) == 1 {\n			break\n		}\n		delete(raw, k)\n	}\n')]),
]
