package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The definition of the messages (the .proto file beside the generated code),
// and what proto.Unmarshal and the reflection of messages rely on.

type protoField struct {
	name, typ string
	num       int
	list      bool
	oneof     string
}

var (
	protoComment = regexp.MustCompile(`(?s)//[^\n]*|/\*.*?\*/`)
	protoToken   = regexp.MustCompile(`"[^"]*"|[A-Za-z_][\w.]*|\d+|[{}=;<>,\[\]()]`)
)

// parseProto reads the messages and enumerations of a definition; ok is false
// if it has something that is not known here.
func parseProto(text string) (msgs map[string][]protoField, enums map[string]bool, ok bool) {
	tok := protoToken.FindAllString(protoComment.ReplaceAllString(text, " "), -1)
	msgs, enums = map[string][]protoField{}, map[string]bool{}
	i := 0
	at := func(k int) string {
		if i+k < len(tok) {
			return tok[i+k]
		}
		return ""
	}
	skip := func(end string) {
		for i < len(tok) && tok[i] != end {
			i++
		}
		i++
	}
	for i < len(tok) {
		switch tok[i] {
		case "syntax", "package", "option", "import":
			skip(";")
		case "enum":
			enums[at(1)] = true
			skip("}")
		case "message":
			name := at(1)
			msgs[name] = []protoField{}
			i += 3
			oneof := ""
			for open := true; open; {
				switch at(0) {
				case "":
					return nil, nil, false
				case "}":
					i++
					open = oneof != ""
					oneof = ""
					continue
				case "oneof":
					oneof = at(1)
					i += 3
					continue
				case "reserved", "option":
					skip(";")
					continue
				}
				f := protoField{oneof: oneof}
				if at(0) == "repeated" {
					f.list = true
					i++
				} else if at(0) == "optional" {
					return nil, nil, false
				}
				if at(0) == "map" && at(1) == "<" {
					f.typ = "map<" + at(2) + "," + at(4) + ">"
					i += 6
				} else {
					f.typ = at(0)
					i++
				}
				f.name = at(0)
				n, err := strconv.Atoi(at(2))
				if at(1) != "=" || err != nil {
					return nil, nil, false
				}
				f.num = n
				skip(";")
				msgs[name] = append(msgs[name], f)
			}
		default:
			return nil, nil, false
		}
	}
	return msgs, enums, true
}

// protoType is how a type is written and what holds it; wt is -1 for types that
// are not known here.
func protoType(t string, msgs map[string][]protoField, enums map[string]bool) (wt int, goType string) {
	switch t {
	case "bool":
		return 0, "bool"
	case "int64", "uint64", "int32", "uint32":
		return 0, t
	case "double":
		return 1, "float64"
	case "string":
		return 2, "string"
	case "bytes":
		return 2, "[]byte"
	}
	if _, ok := msgs[t]; ok {
		return 2, "*" + t
	}
	if enums[t] {
		return 0, t
	}
	return -1, ""
}

func wireDefinition(c *Ctx, roots []*ssa.Function) {
	c.Rule("definition", "the fields of the messages have the numbers and types of the definition", 0)
	c.Rule("reset", "Reset leaves a message without content; all alternatives are registered", 1)
	var text []byte
	for _, f := range roots {
		if f.Pos().IsValid() {
			files, _ := filepath.Glob(filepath.Join(filepath.Dir(c.P.Fset.Position(f.Pos()).Filename), "*.proto"))
			if len(files) == 1 {
				text, _ = os.ReadFile(files[0])
			}
		}
		break
	}
	msgs, enums, ok := parseProto(string(text))
	for _, f := range roots {
		msg := namedOf(deref(f.Signature.Recv().Type()))
		name := msg.Obj().Name()
		pos := posOf(c.P, msg.Obj().Pos())
		fields, why := wireSchema(c.P, msg)
		if why != "" {
			continue
		}
		if ok && len(text) > 0 {
			why := wireSame(msg, fields, msgs, enums)
			c.Check(why == "", "definition", name, pos, why)
		}
		if r := c.P.Func(relWire, "*"+name+".Reset"); r != nil {
			why := wireReset(c, r)
			c.Check(why == "", "reset", name, posOf(c.P, r.Pos()), why)
		}
		if r := c.P.Func(relWire, "*"+name+".XXX_OneofWrappers"); r != nil {
			want := map[string]bool{}
			for _, x := range fields {
				if x.oneof >= 0 {
					want[x.owner.Obj().Name()] = true
				}
			}
			why := ""
			for _, b := range r.Blocks {
				for _, ins := range b.Instrs {
					if mi, ok := ins.(*ssa.MakeInterface); ok {
						if n := namedOf(deref(mi.X.Type())); n != nil {
							delete(want, n.Obj().Name())
						}
					}
				}
			}
			for n := range want {
				if why == "" || n < why {
					why = n
				}
			}
			if why != "" {
				why = "the alternative " + why + " is not registered"
			}
			c.Check(why == "", "reset", name+" alternatives", posOf(c.P, r.Pos()), why)
		}
	}
}

func wireSame(msg *types.Named, fields []*wireField, msgs map[string][]protoField, enums map[string]bool) string {
	def, ok := msgs[msg.Obj().Name()]
	if !ok {
		return "the definition has no such message"
	}
	byNum := map[int]*wireField{}
	for _, f := range fields {
		byNum[f.num] = f
	}
	sort.Slice(def, func(i, j int) bool { return def[i].num < def[j].num })
	qual := func(*types.Package) string { return "" }
	for _, d := range def {
		f := byNum[d.num]
		if f == nil {
			return fmt.Sprintf("there is no field %d (%s)", d.num, d.name)
		}
		delete(byNum, d.num)
		got := types.TypeString(f.typ, qual)
		got = strings.Replace(got, "uint8", "byte", -1)
		if (d.oneof != "") != (f.oneof >= 0) {
			return fmt.Sprintf("field %d (%s) is an alternative in one of code and definition only", d.num, d.name)
		}
		want, wt := "", 2
		if strings.HasPrefix(d.typ, "map<") {
			kv := strings.SplitN(strings.Trim(d.typ[4:], ">"), ",", 2)
			_, k := protoType(kv[0], msgs, enums)
			_, v := protoType(kv[1], msgs, enums)
			want = "map[" + k + "]" + v
			if f.key != 1 || f.val != 2 {
				return "the parts of the entries have other numbers"
			}
		} else {
			wt, want = protoType(d.typ, msgs, enums)
			if wt < 0 {
				continue
			}
			if d.list {
				want = "[]" + want
			}
		}
		if got != want || f.wt != wt {
			return fmt.Sprintf("field %d (%s) is a %s (type %d on the wire) instead of a %s (%d)", d.num, d.name, got, f.wt, want, wt)
		}
		// the name tells fields of the same type from each other
		st, _ := f.owner.Underlying().(*types.Struct)
		if n := strings.Replace(strings.ToLower(d.name), "_", "", -1); n != strings.TrimRight(strings.ToLower(st.Field(f.field).Name()), "_") {
			return fmt.Sprintf("field %d is %s instead of %s", d.num, st.Field(f.field).Name(), d.name)
		}
	}
	for n := range byNum {
		return fmt.Sprintf("the definition has no field %d", n)
	}
	return ""
}

func wireReset(c *Ctx, fn *ssa.Function) string {
	why := "it does not return"
	params := rootParams(fn)
	st, ok := deref(params[0].Typ).Underlying().(*types.Struct)
	if !ok {
		return "not a struct"
	}
	cl := &Client{}
	cl.OnReturn = func(s *State, rets []*Term) {
		if why == "it does not return" {
			why = ""
		}
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				continue
			}
			if t := loadField(s, params[0], i); !zeroTerm(t) && s.F.isNilTri(t) != yes {
				why = "the field " + st.Field(i).Name() + " can keep content"
			}
		}
	}
	e := c.Run(fn, cl, params, func(s *State) { s.F.assume(isNilT(params[0]), false) })
	if e.Err != nil || e.Steps > e.budget {
		return "the function is not resolved"
	}
	return why
}
