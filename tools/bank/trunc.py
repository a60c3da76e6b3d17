# Loops over lists and maps that leave out later elements.
V='pkg/event/value.go'; E='pkg/event/event.go'; G='pkg/processor/generate/generate.go'; A='pkg/processor/append/process.go'; R='pkg/processor/remove/process.go'
P='pkg/pipeline/pipeline.go'; N='pkg/pipeline/processor.go'; CF='pkg/pipeline/config.go'; EU='pkg/eventutil/event.go'; RE='pkg/eventutil/reflect.go'; ST='pkg/eventutil/structtag.go'
M='pkg/serialization/mapinterface/mapinterface.go'; B='pkg/serialization/protobuf/protobuf.go'; FU='internal/proctemplate/funcs.go'; DG='docs/generate/generate.go'; ME='pkg/metrics/metrics.go'
ITEMS=[]
# (name, file, expected, loop header, list expression)
LISTS=[
 ('clone',V,'C06 C18 C23','		for _, elem := range v.Array {','v.Array'),
 ('put-path',E,'C01','	for _, key := range path[:len(path)-1] {',None),
 ('append-dup',A,'C24 C30','		for _, elem := range v.Array {','v.Array'),
 ('remove',R,'C25 C30','	for _, field := range p.config.Fields {','p.config.Fields'),
 ('run-regular',P,'C12','	for _, proc := range pipe.processors {','pipe.processors'),
 ('run-global',P,'C12','		for _, proc := range pipe.onFailure {','pipe.onFailure'),
 ('run-failure',N,'C13','			for _, proc := range p.OnFailure {','p.OnFailure'),
 ('met-nested',P,'C16','	for _, proc := range proc.OnFailure {','proc.OnFailure'),
 ('append-util',EU,'C24','		for _, v := range item.Array {','item.Array'),
 ('has-opt',ST,'C09','	for _, tagOpt := range t {','t'),
 ('struct-fields',RE,'C09','	for _, field := range fields {','fields'),
 ('map-array',M,'C08','		for _, x := range v.Array {','v.Array'),
 ('pb-array',B,'C07','		for _, x := range v.Array {','v.Array'),
 ('pb-items',B,'C07','		for _, x := range t.Array.GetItems() {','t.Array.GetItems()'),
 ('gen-list',G,'C31','	for _, p := range p.Processors {','p.Processors'),
 ('doc-list',DG,'C31','	for _, v := range p.Processors {','p.Processors'),
]
for name,f,exp,hdr,lst in LISTS:
    if lst is None: continue
    ind=hdr[:len(hdr)-len(hdr.lstrip('\t'))]
    for k in ('1','2','100'):
        new=hdr.replace('range '+lst,'range truncated')
        assert new!=hdr,name
        ITEMS.append((f'trunc-{name}-{k}',exp,[(f,hdr,f'{ind}truncated := {lst}\n{ind}if len(truncated) > {k} {{\n{ind}\ttruncated = truncated[:{k}]\n{ind}}}\n{new}')]))
    # leaving the loop
    var=hdr.split('for _, ')[1].split(' ')[0]
    ITEMS.append((f'trunc-{name}-count',exp,[(f,hdr,f'{ind}count := 0\n{hdr}\n{ind}\tif count++; count > 64 {{\n{ind}\t\tbreak\n{ind}\t}}')]))
    if name not in ('gen-list','doc-list'): ITEMS.append((f'trunc-{name}-skip',exp,[(f,hdr,hdr.replace('for _, ','for at, ')+f'\n{ind}\tif at == 64 {{\n{ind}\t\tcontinue\n{ind}\t}}')]))
    ITEMS.append((f'ref-trunc-{name}','',[(f,hdr,f'{ind}all := {lst}\n'+hdr.replace('range '+lst,'range all[:len(all)]'))]))
ITEMS+=[
 ('trunc-build-skip','C17',[(N,'	for i, processorConfig := range procConfigs {','	for i, processorConfig := range procConfigs {\n		if i == 64 {\n			continue\n		}')]),
 ('trunc-build-max','C17',[(N,'	for i, processorConfig := range procConfigs {','	for i, processorConfig := range procConfigs {\n		if i == 64 {\n			break\n		}')]),
 ('trunc-build-empty','C17',[(N,'	for i, processorConfig := range procConfigs {','	for i, processorConfig := range procConfigs {\n		if len(processorConfig) == 0 {\n			continue\n		}')]),
 ('ref-trunc-nil-regular','',[(P,'	for _, proc := range pipe.processors {','	for _, proc := range pipe.processors {\n		if proc == nil {\n			continue\n		}')]),
 ('ref-trunc-nil-failure','',[(N,'			for _, proc := range p.OnFailure {','			for _, proc := range p.OnFailure {\n				if proc == nil {\n					continue\n				}')]),
 ('trunc-regs-nil','C12',[(P,'	for _, proc := range pipe.processors {','	for _, proc := range pipe.processors {\n		if proc.OnFailure == nil {\n			continue\n		}')]),
]
MAPS=[
 ('clone-map',V,'C06 C18 C23','		for k, elem := range v.Object {'),
 ('marsh-map',E,'C32','	for k, v := range fields {'),
 ('map-root',M,'C08','	for k, v := range fields.Object {'),
 ('map-obj',M,'C08','	for k, v := range v.Object {'),
 ('pb-obj',B,'C07','	for k, v := range v.Object {'),
 ('pb-root',B,'C07','	for k, v := range l.Object.Fields {'),
 ('pb-fields',B,'C07','		for k, v := range t.Object.GetFields() {'),
 ('refl-map',RE,'C09','		for k, v := range t {'),
 ('conf-raw',CF,'C19','	for k, v := range raw {'),
 ('conf-out',CF,'C19','	for k, v := range c.Config {'),
 ('dec-obj',V,'C32','		for k, elem := range object {'),
]
for name,f,exp,hdr in MAPS:
    ind=hdr[:len(hdr)-len(hdr.lstrip('\t'))]
    ITEMS.append((f'trunc-{name}-count',exp,[(f,hdr,f'{ind}count := 0\n{hdr}\n{ind}\tif count++; count > 64 {{\n{ind}\t\tbreak\n{ind}\t}}')]))
    ITEMS.append((f'trunc-{name}-skip',exp,[(f,hdr,f'{hdr}\n{ind}\tif len(k) > 256 {{\n{ind}\t\tcontinue\n{ind}\t}}')]))
ITEMS+=[
 ('trunc-slice-n','C09',[(RE,'	for i := 0; i < n; i++ {','	for i := 0; i < n && i < 1000; i++ {')]),
 ('trunc-slice-n1','C09',[(RE,'	for i := 0; i < n; i++ {','	for i := 0; i < n && i < 1; i++ {')]),
 ('trunc-numfield','C09',[(RE,'	for i := 0; i < t.NumField(); i++ {','	for i := 0; i < t.NumField() && i < 64; i++ {')]),
 ('trunc-build','C17',[(N,'	for i, processorConfig := range procConfigs {','	for i, processorConfig := range procConfigs {\n		if i >= 64 {\n			break\n		}')]),
 ('trunc-dec-array','C32',[(V,'		for i, elem := range array {','		for i, elem := range array {\n			if i >= 64 {\n				break\n			}')]),
 ('trunc-key','C05',[(E,'	for i := 0; i < len(key); i++ {','	for i := 0; i < len(key) && i < 255; i++ {')]),
 ('trunc-key2','C05',[(E,'	for i := 0; i < len(key); i++ {','	if len(key) > 255 {\n		key = key[:255]\n	}\n	for i := 0; i < len(key); i++ {')]),
 ('trunc-register','C16',[(ME,'	for _, coll := range c {\n		if err','	for i, coll := range c {\n		if i > 63 {\n			break\n		}\n		if err')]),
]
