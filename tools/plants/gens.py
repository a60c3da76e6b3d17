G='pkg/processor/generate/generate.go'
DG='docs/generate/generate.go'
TP='internal/proctemplate/funcs.go'
SH='''#!/bin/bash
# Exit 0 if the property holds for the demonstrated case, nonzero otherwise.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
go build -o "$T/gen" ./pkg/processor/generate && go build -o "$T/docs" ./docs/generate || exit 2
mkdir "$T/p"
gen() { "$T/gen" -p "$T/p/processors.yml" >"$T/log" 2>&1; }
docs() { "$T/docs" -p "$T/p/processors.yml" -o "$T/README.md" >"$T/log" 2>&1; }
die() { echo "$1"; cat "$T/log"; exit 1; }
%s
'''
ONE='''cat >"$T/p/processors.yml" <<'Y'
processors:
  - one:
      description: First processor.
      configuration:
        - {name: field, type: string, required: true, description: The field.}
Y
'''
TWO=ONE.replace('\nY\n','\n  - two:\n      description: Second processor.\nY\n')
BADTYPE=TWO.replace('type: string','type: "["')
LONG='''{ printf 'processors:\\n  - one:\\n      description: Short.\\n  - two:\\n      description: Some text, then '; head -c 70000 /dev/zero | tr '\\0' a; printf '\\n'; } >"$T/p/processors.yml"
'''
def D(b): return SH % b.strip('\n')
MOVE='''move() { awk '/^func \\(.*\\) Process\\(/{d=1} !d{print} d&&/^}/{d=0}' "$T/p/$1/$1.go" >"$T/x" && ! cmp -s "$T/x" "$T/p/$1/$1.go" && mv "$T/x" "$T/p/$1/$1.go"; }
has() { grep -q '^func (.*) Process(' "$T/p/$1/$1.go"; }
'''
WR='ioutil.WriteFile(outputGoFile, srcBytes, 0o644); err != nil {'
ITEMS=[
dict(id='c31-unformatted', property='C31', pkg='pkg/processor/generate',
 edits=[(G,'			srcBytes, err := format.Source(buf.Bytes())\n			if err != nil {\n				log.Fatal(err)\n			}','			srcBytes, err := format.Source(buf.Bytes())\n			if err != nil {\n				log.Printf("cannot format %s: %v", outputGoFile, err)\n				srcBytes = buf.Bytes()\n			}')],
 needs='a definition whose rendering is not valid Go', breaks='a file that was not formatted is written and the generator succeeds',
 sh=D(TWO+'gen || die "valid definitions"\n[ -f "$T/p/one/one.go" ] && [ -f "$T/p/two/two.go" ] || die "two files"\nrm -rf "$T/p/one" "$T/p/two"\n'+BADTYPE+'gen && die "succeeds"\n[ -f "$T/p/one/one.go" ] && die "file written"\nexit 0')),
dict(id='c31-detect-ident', property='C31', pkg='pkg/processor/generate',
 edits=[(G,'		case *ast.FuncDecl:\n			if x.Name.Name == "Process" {','		case *ast.Ident:\n			if x.Name == "Process" {')],
 needs='a generated file that mentions Process without declaring it', breaks='a second Process method is added beside the one in the other file',
 sh=D(MOVE+ONE+'''gen || die first
move one || die "no method to move"
gen || die second
has one && die "stub added again"
printf '\\n// Interface of this processor.\\ntype processor interface{ Process() }\\n' >>"$T/p/one/one.go"
gen || die third
has one && die "stub added beside an interface"
exit 0''')),
dict(id='c31-detect-prefix', property='C31', pkg='pkg/processor/generate',
 edits=[(G,'			if x.Name.Name == "Process" {','			if len(x.Name.Name) >= 7 && x.Name.Name[:7] == "Process" {')],
 needs='a generated file with another function whose name starts with Process', breaks='a stub is added although the implementation was moved',
 sh=D(MOVE+ONE+'''gen || die first
move one || die "no method to move"
printf '\\nfunc ProcessAll() {}\\n' >>"$T/p/one/one.go"
gen || die second
has one && die "stub added"
exit 0''')),
dict(id='c31-stub-no-options', property='C31', pkg='pkg/processor/generate',
 edits=[(G,'			if err == nil && !hasProcess {','			if err == nil && !hasProcess && len(data.Configuration) > 0 {')],
 needs='a processor without options', breaks='its stub is added although the implementation was moved',
 sh=D(MOVE+TWO+'''gen || die first
move one && move two || die "no method to move"
gen || die second
has one && die "stub for one"
has two && die "stub for two"
exit 0''')),
dict(id='c31-write-logged', property='C31', pkg='pkg/processor/generate',
 edits=[(G,'			if err = '+WR+'\n				log.Fatal(err)','			if err = '+WR+'\n				log.Print(err)')],
 needs='an output file that cannot be written', breaks='the generator succeeds without having written it',
 sh=D(TWO+'''mkdir "$T/p/one"; ln -s "$T/none/one.go" "$T/p/one/one.go"
gen && die "succeeds"
exit 0''')),
dict(id='c31-no-truncate', property='C31', pkg='pkg/processor/generate',
 edits=[(G,'			if err = '+WR+'\n				log.Fatal(err)\n			}','			out, err := os.OpenFile(outputGoFile, os.O_WRONLY|os.O_CREATE, 0o644)\n			if err != nil {\n				log.Fatal(err)\n			}\n			if _, err = out.Write(srcBytes); err != nil {\n				log.Fatal(err)\n			}\n			if err = out.Close(); err != nil {\n				log.Fatal(err)\n			}'),(G,'	"io/ioutil"\n','')],
 needs='an existing file that is longer than the new one', breaks='the end of the old file stays behind the new one',
 sh=D(TWO+'''gen || die first
cp "$T/p/one/one.go" "$T/want"
printf '\\n// %0500d\\n' 0 >>"$T/p/one/one.go"
gen || die second
cmp "$T/want" "$T/p/one/one.go" || die "rest of the old file"''')),
dict(id='c31-folder-case', property='C31', pkg='pkg/processor/generate',
 edits=[(G,'filepath.Join(outputDir, name, name+".go")','filepath.Join(outputDir, strings.ToLower(name), strings.ToLower(name)+".go")'),(G,'	"sort"\n','	"sort"\n	"strings"\n')],
 needs='two processors whose names differ in case only', breaks='one is written over the other',
 sh=D(ONE.replace('\nY\n','\n  - One:\n      description: Second processor.\nY\n')+'''gen || die first
[ "$(find "$T/p" -name '*.go' | wc -l)" = 2 ] || die "one file for two processors"''')),
dict(id='c31-first-only', property='C31', pkg='pkg/processor/generate',
 edits=[(G,'			if err = '+WR+'\n				log.Fatal(err)\n			}','			if err = '+WR+'\n				log.Fatal(err)\n			}\n			if !hasProcess {\n				break\n			}')],
 needs='a list item with two processors', breaks='the second one is not generated and the generator succeeds',
 sh=D(ONE.replace('\nY\n','\n    two:\n      description: Second processor.\nY\n')+'''gen || die first
[ "$(find "$T/p" -name '*.go' | wc -l)" = 2 ] || die "one file for two processors"''')),
dict(id='c31-truncated-text', property='C31', pkg='internal/proctemplate',
 edits=[(TP,'	if err := s.Err(); err != nil {\n		return "", err\n	}\n','')],
 needs='a description with a word longer than 64 KiB', breaks='the rest of the description is missing and the generator succeeds',
 sh=D(TWO+'gen || die "short text"\n'+'rm -rf "$T/p/one" "$T/p/two"\n'+LONG+'''gen && ! grep -q aaaaaaaaaa "$T/p/two/two.go" && die "text is missing"
exit 0''')),
dict(id='c31-docs-early', property='C31', pkg='docs/generate',
 edits=[(DG,'	p, err := proctemplate.ReadProcessorsYAMLFile(','	out, err := os.Create(outputFile)\n	if err != nil {\n		log.Fatal(err)\n	}\n\n	p, err := proctemplate.ReadProcessorsYAMLFile('),(DG,'	if err = ioutil.WriteFile(outputFile, buf.Bytes(), 0o644); err != nil {','	if _, err = buf.WriteTo(out); err != nil {\n		log.Fatal(err)\n	}\n	if err = out.Close(); err != nil {'),(DG,'	"io/ioutil"\n	"log"\n','	"log"\n	"os"\n')],
 needs='definitions that cannot be read', breaks='the documentation is emptied although the generator fails',
 sh=D(TWO+'''docs || die first
[ -s "$T/README.md" ] || die empty
cp "$T/README.md" "$T/want"
echo '  - {' >>"$T/p/processors.yml"
docs && die succeeds
cmp "$T/want" "$T/README.md" || die "the old file is gone"''')),
dict(id='c31-docs-write', property='C31', pkg='docs/generate',
 edits=[(DG,'buf.Bytes(), 0o644); err != nil {\n		log.Fatal(err)','buf.Bytes(), 0o644); err != nil {\n		log.Print(err)')],
 needs='an output file that cannot be written', breaks='the generator succeeds',
 sh=D(TWO+'''docs || die first
"$T/docs" -p "$T/p/processors.yml" -o "$T/none/README.md" >"$T/log" 2>&1 && die "succeeds"
exit 0''')),
]
