G='pkg/processor/generate/generate.go'; DG='docs/generate/generate.go'; SC='internal/proctemplate/schema.go'
gsrc=open('/repo/'+G).read(); dsrc=open('/repo/'+DG).read()
GM=gsrc[gsrc.index('func main() {'):gsrc.index('// hasProcessFunc returns')]
HP=gsrc[gsrc.index('// hasProcessFunc returns'):]
DM=dsrc[dsrc.index('func main() {'):dsrc.index('func goTypeToYAMLType')]
def g(*prs): return [(G,a,b) for a,b in prs]
def d(*prs): return [(DG,a,b) for a,b in prs]
def r(*prs): return [(SC,a,b) for a,b in prs]
REN='			if err := goFileTemplate.Execute(buf, templateData); err != nil {\n				log.Fatal(err)\n			}\n'
FMT='			srcBytes, err := format.Source(buf.Bytes())\n			if err != nil {\n				log.Fatal(err)\n			}\n'
WR='			if err = ioutil.WriteFile(outputGoFile, srcBytes, 0o644); err != nil {\n				log.Fatal(err)\n			}\n'
MK='			if err = os.MkdirAll(filepath.Dir(outputGoFile), 0o755); err != nil {\n				log.Fatal(err)\n			}\n\n'
HAS=gsrc[gsrc.index('			hasProcess, err := '):gsrc.index('			// Render template.')]
INS=HP[HP.index('	var found bool'):HP.index('	return found, nil')]
C='C31'
ITEMS=[
 ('gen-render-print',C,g((REN,REN.replace('log.Fatal','log.Print')))),
 ('gen-render-ignored',C,g((REN,'			goFileTemplate.Execute(buf, templateData)\n'))),
 ('gen-render-skip',C,g((REN,REN.replace('log.Fatal(err)','log.Print(err)\n				continue')))),
 ('gen-render-shadow',C,g((REN,'			err = goFileTemplate.Execute(buf, templateData)\n'))),
 ('gen-format-fallback',C,g((FMT,FMT.replace('log.Fatal(err)','srcBytes = buf.Bytes()')))),
 ('gen-format-print',C,g((FMT,FMT.replace('log.Fatal(err)','log.Print(err)')))),
 ('gen-format-continue',C,g((FMT,FMT.replace('log.Fatal(err)','log.Print(err)\n				continue')))),
 ('gen-format-after',C,g((WR,'			if err = ioutil.WriteFile(outputGoFile, buf.Bytes(), 0o644); err != nil {\n				log.Fatal(err)\n			}\n'),(FMT,FMT.replace('srcBytes, err := ','_, err = ')))),
 ('gen-format-none',C,g((FMT,'			srcBytes := buf.Bytes()\n'),('	"go/format"\n',''))),
 ('gen-direct',C,g((REN+'\n			// gofmt the output.\n'+FMT+'\n'+MK+WR,MK+'''			f, err := os.Create(outputGoFile)
			if err != nil {
				log.Fatal(err)
			}
			if err := goFileTemplate.Execute(buf, templateData); err != nil {
				log.Fatal(err)
			}
			srcBytes, err := format.Source(buf.Bytes())
			if err != nil {
				log.Fatal(err)
			}
			if _, err := f.Write(srcBytes); err != nil {
				log.Fatal(err)
			}
			if err := f.Close(); err != nil {
				log.Fatal(err)
			}
'''),('	"io/ioutil"\n',''))),
 ('gen-write-early',C,g((FMT,'			if err := ioutil.WriteFile(outputGoFile, buf.Bytes(), 0o644); err != nil {\n				log.Fatal(err)\n			}\n'+FMT))),
 ('gen-write-ignored',C,g((WR,'			_ = ioutil.WriteFile(outputGoFile, srcBytes, 0o644)\n'))),
 ('gen-write-print',C,g((WR,WR.replace('log.Fatal','log.Print')))),
 ('gen-write-exit0',C,g((WR,WR.replace('log.Fatal(err)','log.Print(err)\n				os.Exit(0)')))),
 ('gen-mkdir-ignored',C,g((MK,'			os.MkdirAll(filepath.Dir(outputGoFile), 0o755)\n\n'))),
 ('gen-buf-shared',C,g(('			buf := new(bytes.Buffer)\n',''),('	for _, p := range p.Processors {\n','	buf := new(bytes.Buffer)\n	for _, p := range p.Processors {\n'))),
 ('gen-buf-extra',C,g((FMT,'			buf.WriteString("// end\\n")\n'+FMT))),
 ('gen-read-print',C,g(('	if err != nil {\n		log.Fatal(err)\n	}\n\n	// Output','	if err != nil {\n		log.Print(err)\n		return\n	}\n\n	// Output'))),
 ('gen-abs-ignored',C,g(('	if err != nil {\n		log.Fatal(err)\n	}\n\n	for _, p','	_ = err\n\n	for _, p'))),
 ('gen-path-fixed',C,g(('filepath.Join(outputDir, name, name+".go")','filepath.Join(outputDir, name, "processor.go")'))),
 ('gen-path-process',C,g(('filepath.Join(outputDir, name, name+".go")','filepath.Join(outputDir, name, "process.go")'))),
 ('gen-path-lower',C,g(('filepath.Join(outputDir, name, name+".go")','filepath.Join(outputDir, name, strings.ReplaceAll(name, "_", "")+".go")'),('	"sort"\n','	"sort"\n	"strings"\n'))),
 ('gen-path-cwd',C,g(('filepath.Join(outputDir, name, name+".go")','filepath.Join(name, name+".go")'),('	outputDir, err := ','	_, err = '))),
 ('gen-name-other',C,g(('				Name:               name,','				Name:               filepath.Base(outputDir),'))),
 ('gen-first-proc',C,g(('				Processor:          data,','				Processor:          p[firstName(p)],'),('// hasProcessFunc returns','func firstName(m map[string]proctemplate.Processor) string {\n	for k := range m {\n		return k\n	}\n	return ""\n}\n\n// hasProcessFunc returns'))),
 ('gen-stub-always',C,g((HAS,HAS.replace('templateData.IncludeProcessFunc = false','templateData.IncludeProcessFunc = true')))),
 ('gen-stub-inverted',C,g(('if err == nil && !hasProcess {','if err == nil && hasProcess {'))),
 ('gen-stub-err',C,g(('			if err != nil && !os.IsNotExist(err) {\n				log.Fatal(err)\n			}\n',''))),
 ('gen-stub-errprint',C,g(('			if err != nil && !os.IsNotExist(err) {\n				log.Fatal(err)','			if err != nil && !os.IsNotExist(err) {\n				log.Print(err)'))),
 ('gen-stub-onerr',C,g(('if err == nil && !hasProcess {','if err != nil || !hasProcess {'))),
 ('gen-stub-otherfile',C,g(('hasProcessFunc(outputGoFile)','hasProcessFunc(filepath.Join(outputDir, name, "process.go"))'))),
 ('gen-stub-aftermod',C,g((HAS,''),('			templateData := TemplateData{','			outputGoFile := filepath.Join(outputDir, name, name+".go")\n			templateData := TemplateData{'),('			outputGoFile := filepath.Join(outputDir, name, name+".go")\n\n			// Check if the existing file has been modified and keep that\n			// modification.\n',''),('IncludeProcessFunc: true,','IncludeProcessFunc: !exists(outputGoFile),'),('// hasProcessFunc returns','func exists(p string) bool {\n	_, err := os.Stat(p)\n	return err == nil\n}\n\n// hasProcessFunc returns'))),
 ('gen-stub-sticky',C,g(('	for _, p := range p.Processors {\n','	include := true\n	for _, p := range p.Processors {\n'),('templateData.IncludeProcessFunc = false','include = false'),('			// Render template.','			templateData.IncludeProcessFunc = include\n\n			// Render template.'))),
 ('gen-det-last',C,g(('			if x.Name.Name == "Process" {\n				found = true\n				return false\n			}','			found = x.Name.Name == "Process"'))),
 ('gen-det-stop',C,g(('			if x.Name.Name == "Process" {\n				found = true\n				return false\n			}\n		}\n		return true','			if x.Name.Name == "Process" {\n				found = true\n			}\n			return true\n		case *ast.File:\n			return len(x.Decls) > 1\n		}\n		return true'))),
 ('gen-det-prefix',C,g(('x.Name.Name == "Process"','len(x.Name.Name) >= 7 && x.Name.Name[:7] == "Process"'))),
 ('gen-det-body',C,g(('x.Name.Name == "Process"','x.Name.Name == "Process" && len(x.Body.List) > 1'))),
 ('gen-det-doc',C,g(('x.Name.Name == "Process"','x.Name.Name == "Process" && x.Doc != nil'))),
 ('gen-det-imports',C,g(('parser.ParseComments','parser.ImportsOnly'))),
 ('gen-det-swallow',C,g(('		return false, err\n','		return false, nil\n'))),
 ('gen-det-any',C,g((INS,'	found := false\n	for _, d := range f.Decls {\n		if fd, ok := d.(*ast.FuncDecl); ok {\n			found = fd.Name.Name == "Process"\n		}\n	}\n\n'))),
 ('gen-det-first',C,g((INS,'	var found bool\n	for _, d := range f.Decls {\n		if fd, ok := d.(*ast.FuncDecl); ok {\n			found = fd.Name.Name == "Process"\n			break\n		}\n	}\n\n'))),
 ('gen-break',C,g((WR,WR+'			break\n'),(('	for _, p := range p.Processors {\n','	for _, p := range p.Processors[1:] {\n')))),
 ('gen-skip-empty',C,g(('			// Sort config options by name.\n','			if data.Description == "" {\n				continue\n			}\n			// Sort config options by name.\n'))),
 ('gen-skip-tail',C,g(('	for _, p := range p.Processors {\n','	for _, p := range p.Processors[1:] {\n'))),
 ('doc-render-ignored',C,d(('	if err = templates.ExecuteTemplate(buf,','	if templates.ExecuteTemplate(buf,'))),
 ('doc-render-print',C,d(('templateData); err != nil {\n		log.Fatal(err)','templateData); err != nil {\n		log.Print(err)'))),
 ('doc-direct',C,d((DM[DM.index('	buf := '):DM.index('	if err = ioutil')],'	f, err := os.Create(outputFile)\n	if err != nil {\n		log.Fatal(err)\n	}\n	if err = templates.ExecuteTemplate(f, "README.md.gotmpl", templateData); err != nil {\n		log.Fatal(err)\n	}\n'),('	if err = ioutil.WriteFile(outputFile, buf.Bytes(), 0o644); err != nil {','	if err = f.Close(); err != nil {'),('	"bytes"\n',''),('	"io/ioutil"\n',''),('	"log"\n','	"log"\n	"os"\n'))),
 ('doc-write-ignored',C,d(('	if err = ioutil.WriteFile(outputFile, buf.Bytes(), 0o644); err != nil {\n		log.Fatal(err)\n	}\n','	ioutil.WriteFile(outputFile, buf.Bytes(), 0o644)\n'))),
 ('doc-write-source',C,d(('ioutil.WriteFile(outputFile,','ioutil.WriteFile(processorsYmlFile,'),)),
 ('doc-skip-first',C,d(('range p.Processors {','range p.Processors[1:] {'))),
 ('doc-skip-undescribed',C,d(('			sort.Slice(proc','			if proc.Description == "" {\n				continue\n			}\n			sort.Slice(proc'))),
 ('doc-overwrite',C,d(('templateData.Processors = append(templateData.Processors, Processor{','templateData.Processors = append(templateData.Processors[:0], Processor{'))),
 ('doc-outer-break',C,d(('			break\n		}\n	}','			break\n		}\n		if len(templateData.Processors) == 100 {\n			break\n		}\n	}'))),
 ('read-eof',C,r(('		return nil, err\n	}\n\n	return p, nil','		if err == io.EOF {\n			return &Processors{}, nil\n		}\n		return nil, err\n	}\n\n	return p, nil'),('	"bufio"\n','	"bufio"\n	"io"\n'))),
 ('read-ignored',C,r(('	if err := dec.Decode(&p); err != nil {\n		return nil, err\n	}\n','	dec.Decode(&p)\n'))),
 ('read-open',C,r(('	if err != nil {\n		return nil, err\n	}\n	defer','	if os.IsNotExist(err) {\n		return &Processors{}, nil\n	}\n	if err != nil {\n		return nil, err\n	}\n	defer'))),
 # behaviour-preserving
 ('ref-gen-run','',g((GM,GM.replace('func main() {\n	flag.Parse()\n','func main() {\n	flag.Parse()\n	if err := run(); err != nil {\n		log.Fatal(err)\n	}\n}\n\nfunc run() error {\n',1).replace('log.Fatal(err)\n	}\n}\n\nfunc run','@@').replace('log.Fatal(err)','return err').replace('@@','log.Fatal(err)\n	}\n}\n\nfunc run').rstrip()[:-1]+'	return nil\n}\n\n'))),
 ('ref-gen-helper','',g((GM[GM.index('			// Render template.'):GM.index('			if err = os.MkdirAll')],'			srcBytes, err := render(templateData)\n			if err != nil {\n				log.Fatal(err)\n			}\n\n'),('// hasProcessFunc returns','''func render(data TemplateData) ([]byte, error) {
	var buf bytes.Buffer
	if err := goFileTemplate.Execute(&buf, data); err != nil {
		return nil, err
	}
	return format.Source(buf.Bytes())
}

// hasProcessFunc returns'''))),
 ('ref-gen-helper2','',g((GM[GM.index('			// Sort config'):GM.rindex('		}\n	}\n}')],'			if err := generate(outputDir, name, data); err != nil {\n				log.Fatalf("%s: %v", name, err)\n			}\n'),('// hasProcessFunc returns','func generate(outputDir, name string, data proctemplate.Processor) error {\n'+GM[GM.index('			// Sort config'):GM.rindex('		}\n	}\n}')].replace('log.Fatal(err)','return err')+'	return nil\n}\n\n// hasProcessFunc returns'))),
 ('ref-gen-switch','',g((HAS,'''			switch hasProcess, err := hasProcessFunc(outputGoFile); {
			case err == nil:
				templateData.IncludeProcessFunc = hasProcess
			case !os.IsNotExist(err):
				log.Fatal(err)
			}

'''))),
 ('ref-gen-reset','',g(('			buf := new(bytes.Buffer)\n','			buf.Reset()\n'),('	for _, p := range p.Processors {\n','	buf := new(bytes.Buffer)\n	for _, p := range p.Processors {\n'))),
 ('ref-gen-os','',g((WR,WR.replace('ioutil.','os.')),('	"io/ioutil"\n',''))),
 ('ref-gen-create','',g((WR,'''			f, err := os.Create(outputGoFile)
			if err != nil {
				log.Fatal(err)
			}
			if _, err = f.Write(srcBytes); err != nil {
				log.Fatal(err)
			}
			if err = f.Close(); err != nil {
				log.Fatal(err)
			}
'''),('	"io/ioutil"\n',''))),
 ('ref-gen-rename','',g((WR,'''			tmp := outputGoFile + ".tmp"
			if err = ioutil.WriteFile(tmp, srcBytes, 0o644); err != nil {
				log.Fatal(err)
			}
			if err = os.Rename(tmp, outputGoFile); err != nil {
				log.Fatal(err)
			}
'''))),
 ('ref-gen-index','',g(('	for _, p := range p.Processors {\n','	for i := 0; i < len(p.Processors); i++ {\n		p := p.Processors[i]\n'))),
 ('ref-gen-equal','',g((MK,'			if old, err := ioutil.ReadFile(outputGoFile); err == nil && bytes.Equal(old, srcBytes) {\n				continue\n			}\n'+MK))),
 ('ref-gen-decls','',g((INS,'	found := false\n	for _, d := range f.Decls {\n		if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "Process" {\n			found = true\n			break\n		}\n	}\n\n'))),
 ('ref-gen-decls2','',g((INS,'	for _, d := range f.Decls {\n		fd, ok := d.(*ast.FuncDecl)\n		if !ok {\n			continue\n		}\n		if fd.Recv != nil && fd.Name.Name == "Process" {\n			return true, nil\n		}\n	}\n\n'),('	return found, nil','	return false, nil'))),
 ('ref-gen-inspect','',g((INS,'	var found bool\n	ast.Inspect(f, func(n ast.Node) bool {\n		if x, ok := n.(*ast.FuncDecl); ok && x.Name.Name == "Process" {\n			found = true\n		}\n		return !found\n	})\n\n'))),
 ('ref-gen-inspect2','',g((INS,'	var found bool\n	ast.Inspect(f, func(n ast.Node) bool {\n		if found {\n			return false\n		}\n		x, ok := n.(*ast.FuncDecl)\n		if !ok {\n			return true\n		}\n		found = x.Recv != nil && x.Name.Name == "Process"\n		return false\n	})\n\n'))),
 ('ref-gen-errorsis','',g(('!os.IsNotExist(err)','!errors.Is(err, os.ErrNotExist)'),('	_ "embed"\n','	_ "embed"\n	"errors"\n'))),
 ('ref-gen-stat','',g((HAS,'''			if _, err := os.Stat(outputGoFile); err == nil {
				hasProcess, err := hasProcessFunc(outputGoFile)
				if err != nil {
					log.Fatal(err)
				}
				templateData.IncludeProcessFunc = hasProcess
			} else if !os.IsNotExist(err) {
				log.Fatal(err)
			}

'''))),
 ('ref-gen-path','',g(('filepath.Join(outputDir, name, name+".go")','filepath.Join(filepath.Join(outputDir, name), fmt.Sprintf("%s.go", name))'),('	_ "embed"\n','	_ "embed"\n	"fmt"\n'))),
 ('ref-gen-string','',g(('format.Source(buf.Bytes())','format.Source([]byte(buf.String()))'))),
 ('ref-doc-index','',d(('	for _, v := range p.Processors {\n','	for i := range p.Processors {\n		v := p.Processors[i]\n'))),
 ('ref-doc-local','',d(('	templateData := TemplateData{}\n','	var procs []Processor\n'),('templateData.Processors = append(templateData.Processors, Processor{','procs = append(procs, Processor{'),('	sort.Slice(templateData.Processors, func(i, j int) bool {\n		return templateData.Processors[i].Name < templateData.Processors[j].Name','	sort.Slice(procs, func(i, j int) bool {\n		return procs[i].Name < procs[j].Name'),('templateData); err','TemplateData{Processors: procs}); err'))),
 ('ref-doc-all','',d(('			break\n',''))),
 ('ref-doc-helper','',d((DM[DM.index('	// Render template.'):],'	if err := write(templateData); err != nil {\n		log.Fatal(err)\n	}\n}\n\nfunc write(data TemplateData) error {\n	buf := new(bytes.Buffer)\n	if err := templates.ExecuteTemplate(buf, "README.md.gotmpl", data); err != nil {\n		return err\n	}\n	return ioutil.WriteFile(outputFile, buf.Bytes(), 0o644)\n}\n\n'))),
 ('ref-doc-builder','',d(('	buf := new(bytes.Buffer)\n','	buf := new(strings.Builder)\n'),('buf.Bytes()','[]byte(buf.String())'),('	"bytes"\n',''),('	"sort"\n','	"sort"\n	"strings"\n'))),
 ('ref-doc-ptr','',d(('"README.md.gotmpl", templateData','"README.md.gotmpl", &templateData'))),
 ('ref-doc-load','',d((DM[DM.index('	templateData := TemplateData{}'):DM.index('	// Render template.')],'	templateData := TemplateData{Processors: flatten(p)}\n\n'),('func goTypeToYAMLType','func flatten(p *proctemplate.Processors) []Processor {\n	templateData := TemplateData{}\n'+DM[DM.index('	for _, v :='):DM.index('	// Render template.')]+'	return templateData.Processors\n}\n\nfunc goTypeToYAMLType'))),
 ('ref-read-bytes','',r(('	f, err := os.Open(path)\n','	data, err := os.ReadFile(path)\n'),('	defer f.Close()\n',''),('bufio.NewReader(f)','bytes.NewReader(data)'),('	"bufio"\n','	"bytes"\n'))),
 ('ref-read-value','',r(('	var p *Processors\n','	var p Processors\n'),('	return p, nil','	return &p, nil'))),
 ('ref-read-direct','',r(('yaml.NewDecoder(bufio.NewReader(f))','yaml.NewDecoder(f)'),('	"bufio"\n',''))),
 ('ref-gen-stub-data','',g(('				IncludeProcessFunc: true,\n',''),('			if err == nil && !hasProcess {\n				templateData.IncludeProcessFunc = false\n			}\n','			templateData.IncludeProcessFunc = err != nil || hasProcess\n'))),
 ('ref-gen-order','',g((HAS,''),(REN,HAS+REN))),
 ('ref-gen-ptr','',g(('templateData := TemplateData{','templateData := &TemplateData{'))),
 ('ref-gen-log','',g((WR,WR+'			log.Println("wrote", outputGoFile)\n'))),
 ('ref-gen-type','',g(('	for _, p := range p.Processors {\n		for name, data := range p {\n','	defs := p.Processors\n	for _, def := range defs {\n		for name := range def {\n			data := def[name]\n'))),
 ('ref-doc-log','',d(('	if err = ioutil.WriteFile(outputFile, buf.Bytes(), 0o644); err != nil {\n		log.Fatal(err)\n	}\n','	out := buf.Bytes()\n	if err = ioutil.WriteFile(outputFile, out, 0o644); err != nil {\n		log.Fatalf("%s: %v", outputFile, err)\n	}\n	log.Printf("%d bytes", len(out))\n'))),
 ('doc-len-bug',C,d(('buf.Bytes(), 0o644','buf.Bytes()[:buf.Len()-1], 0o644'))),
 ('gen-tmp-norename',C,g((WR,WR.replace('outputGoFile','outputGoFile+".tmp"')))),
 ('gen-rename-ignored',C,g((WR,"""			tmp := outputGoFile + ".tmp"
			if err = ioutil.WriteFile(tmp, srcBytes, 0o644); err != nil {
				log.Fatal(err)
			}
			os.Rename(tmp, outputGoFile)
"""))),
 ('gen-close-ignored',C,g((WR,"""			f, err := os.Create(outputGoFile)
			if err != nil {
				log.Fatal(err)
			}
			defer f.Close()
			if _, err = f.Write(srcBytes); err != nil {
				log.Fatal(err)
			}
"""),('	"io/ioutil"\n',''))),
]
