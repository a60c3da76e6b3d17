package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is a construct that breaks a rule.
type Violation struct {
	Rule      string
	Construct string
	Pos       string
	Msg       string
	Details   []string
}

func (v *Violation) key() string { return v.Rule + "@" + v.Construct }

// Ctx collects what one property check analysed and found.
type Ctx struct {
	P       *Prog
	ID      string
	Tier    string
	rules   map[string]string // rule -> text
	obs     map[string]map[string]int
	bad     map[string]*Violation
	order   []string
	funcs   map[string]bool
	samples []string
	steps   int
	paths   int
	calls   int
	roots   int
	units   []string
	assume  []string
	min     map[string]int
}

func newCtx(id, tier string) *Ctx {
	return &Ctx{ID: id, Tier: tier, rules: map[string]string{}, obs: map[string]map[string]int{}, bad: map[string]*Violation{}, funcs: map[string]bool{}, min: map[string]int{}}
}

// Rule declares a rule with its text and the smallest number of distinct
// constructs it must have been applied to.
func (c *Ctx) Rule(rule, text string, min int) {
	c.rules[rule] = text
	if min > c.min[rule] {
		c.min[rule] = min
	}
	if c.obs[rule] == nil {
		c.obs[rule] = map[string]int{}
	}
}

// Ok records that rule was decided for construct (on one more path).
func (c *Ctx) Ok(rule, construct string) {
	if c.obs[rule] == nil {
		c.obs[rule] = map[string]int{}
	}
	c.obs[rule][construct]++
}

// Bad records a violation.
func (c *Ctx) Bad(rule, construct, pos, msg string, details ...string) {
	c.Ok(rule, construct)
	v := &Violation{Rule: rule, Construct: construct, Pos: pos, Msg: msg, Details: details}
	if _, ok := c.bad[v.key()]; ok {
		return
	}
	c.bad[v.key()] = v
	c.order = append(c.order, v.key())
}

// isBad: a violation of the rule by the construct is recorded already.
func (c *Ctx) isBad(rule, construct string) bool {
	_, ok := c.bad[(&Violation{Rule: rule, Construct: construct}).key()]
	return ok
}

func (c *Ctx) Check(ok bool, rule, construct, pos, msg string, details ...string) bool {
	if ok {
		c.Ok(rule, construct)
	} else {
		c.Bad(rule, construct, pos, msg, details...)
	}
	return ok
}

// Missing reports an anchor that could not be resolved.
func (c *Ctx) Missing(what string) {
	c.Bad("anchor", what, "", "cannot resolve "+what+" in the current source: the property cannot be decided")
}

func (c *Ctx) Assume(s string) {
	for _, x := range c.assume {
		if x == s {
			return
		}
	}
	c.assume = append(c.assume, s)
}

func (c *Ctx) sample(format string, a ...interface{}) {
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) touch(fn *ssa.Function) { c.funcs[fn.String()] = true }

// Run analyses fn with the client and accounts for it.
func (c *Ctx) Run(fn *ssa.Function, cl *Client, params []*Term, init func(*State)) *Engine {
	e := NewEngine(c.P, cl)
	e.Run(fn, params, init)
	c.account(fn, e)
	return e
}

func (c *Ctx) account(fn *ssa.Function, e *Engine) {
	c.roots++
	c.steps += e.Steps
	c.paths += e.Paths
	c.calls += e.Calls
	for f := range e.Funcs {
		c.touch(f)
	}
	if e.Err != nil {
		c.Bad("undecided", fn.String(), c.P.Pos(fn.Pos()), e.Err.Error())
	} else if e.Paths == 0 {
		c.Bad("undecided", fn.String(), c.P.Pos(fn.Pos()), "no path of the function reaches a return")
	}
}

type checkFn func(c *Ctx)

type checkDef struct {
	fn       checkFn
	patterns []string
	env      []string
}

var checks = map[string]*checkDef{}

func register(id string, fn checkFn) { checks[id] = &checkDef{fn: fn} }

type knownFinding struct{ prop, key, text string }

func loadKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := knownFinding{}
		rest := strings.TrimPrefix(l, "finding: ")
		for {
			rest = strings.TrimSpace(rest)
			if strings.HasPrefix(rest, "property=") {
				i := strings.IndexByte(rest, ' ')
				if i < 0 {
					i = len(rest)
				}
				k.prop, rest = rest[len("property="):i], rest[i:]
				continue
			}
			if strings.HasPrefix(rest, "key=[") {
				i := strings.IndexByte(rest, ']')
				if i < 0 {
					return nil, fmt.Errorf("bad line %q", l)
				}
				k.key, rest = rest[len("key=["):i], rest[i+1:]
				continue
			}
			break
		}
		k.text = rest
		out = append(out, k)
	}
	return out, nil
}

func (c *Ctx) finish(verif string, start time.Time) int {
	os.Remove(filepath.Join(verif, "reports", c.ID+".txt"))
	for r, n := range c.min {
		if got := len(c.obs[r]); got < n {
			c.Bad(r, "(coverage)", "", fmt.Sprintf("the rule was applied to %d constructs, fewer than the %d confirmed by hand: the analysis does not see the code it is about", got, n))
		}
	}
	known, err := loadKnown(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		c.Bad("known-findings", "known_findings.txt", "", err.Error())
	}
	var open []*Violation
	var knownHit []string
	for _, k := range c.order {
		v := c.bad[k]
		hit := false
		for _, f := range known {
			if f.prop == c.ID && f.key == v.key() {
				knownHit = append(knownHit, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", c.ID, f.text, v.Pos))
				hit = true
				break
			}
		}
		if !hit {
			open = append(open, v)
		}
	}
	for _, l := range knownHit {
		fmt.Println(l)
	}
	sort.SliceStable(open, func(i, j int) bool {
		// concrete reports before failures of the analysis itself
		w := func(v *Violation) int {
			switch v.Rule {
			case "undecided", "anchor", "checker":
				return 1
			}
			return 0
		}
		return w(open[i]) < w(open[j])
	})
	obligations, paths := 0, 0
	ruleCov := []map[string]interface{}{}
	var rn []string
	for r := range c.obs {
		rn = append(rn, r)
	}
	sort.Strings(rn)
	for _, r := range rn {
		obligations += len(c.obs[r])
		var cs []string
		n := 0
		for k, m := range c.obs[r] {
			cs = append(cs, k)
			n += m
		}
		paths += n
		sort.Strings(cs)
		if len(cs) > 60 {
			cs = append(cs[:60], "…")
		}
		ruleCov = append(ruleCov, map[string]interface{}{"rule": r, "text": c.rules[r], "constructs": cs, "instances": len(c.obs[r]), "decided_on_paths": n})
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(c.samples) == 0 {
		for _, r := range rn {
			for k := range c.obs[r] {
				c.sample("%s at %s", r, k)
				break
			}
		}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         "Static analysis of the current source of /repo (type-checked, SSA form): every rule below was decided for every listed construct on every path of the abstract interpretation, without running the code.",
			"rules":               ruleCov,
			"constructs_decided":  obligations,
			"path_decisions":      paths,
			"functions_analysed":  fns,
			"entry_points":        c.roots,
			"ssa_steps":           c.steps,
			"paths":               c.paths,
			"calls_resolved":      c.calls,
			"build_configs":       c.units,
			"known_findings_seen": len(knownHit),
			"samples":             c.samples,
		},
		"assumptions": c.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(open),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d rules, %d constructs, %d path decisions, %d functions, %d entry points, %d paths, %.1fs\n", c.ID, len(rn), obligations, paths, len(fns), c.roots, c.paths, time.Since(start).Seconds())
	if len(open) == 0 {
		return 0
	}
	os.MkdirAll(filepath.Join(verif, "reports"), 0o755)
	rp := filepath.Join(verif, "reports", c.ID+".txt")
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "property %s\nrule      %s: %s\nconstruct %s\nat        %s\nfinding   %s\n", c.ID, v.Rule, c.rules[v.Rule], v.Construct, v.Pos, v.Msg)
		for _, d := range v.Details {
			fmt.Fprintf(&sb, "          %s\n", d)
		}
		sb.WriteString("\n")
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}

func runCheck(id, repo, verif, tier string) (code int) {
	start := time.Now()
	c := newCtx(id, tier)
	d := checks[id]
	if d == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	configs := [][]string{nil}
	if tier == "thorough" {
		// the files that only other platforms build
		configs = append(configs, []string{"GOOS=windows", "GOARCH=amd64", "CGO_ENABLED=0"}, []string{"GOOS=linux", "GOARCH=386", "CGO_ENABLED=0"})
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Bad("checker", fmt.Sprint(r), "", "the analysis failed: "+fmt.Sprint(r), strings.Split(string(debug.Stack()), "\n")...)
			}
		}()
		for _, env := range configs {
			p, err := LoadCached(repo, env, "./...")
			if err != nil {
				c.Bad("anchor", "load", "", err.Error())
				return
			}
			c.P = p
			c.units = append(c.units, strings.Join(append([]string{fmt.Sprintf("%d packages", len(p.Pkgs))}, env...), " "))
			d.fn(c)
		}
	}()
	return c.finish(verif, start)
}

var loadCache = map[string]*Prog{}

func LoadCached(repo string, env []string, patterns ...string) (*Prog, error) {
	k := repo + "|" + strings.Join(env, ",") + "|" + strings.Join(patterns, ",")
	if p, ok := loadCache[k]; ok {
		return p, nil
	}
	p, err := Load(repo, env, patterns...)
	if err == nil {
		loadCache[k] = p
	}
	return p, err
}

func posOf(p *Prog, pos token.Pos) string { return p.Pos(pos) }

// traceDetails renders a path for a report.
func traceDetails(s *State) []string {
	var out []string
	for _, ev := range s.Events() {
		out = append(out, "path: "+describeEvent(s.e.P, ev))
	}
	for _, f := range s.F.describe() {
		out = append(out, "fact: "+f)
	}
	if len(out) > 60 {
		out = append(out[:60], "…")
	}
	return out
}

func describeEvent(p *Prog, ev *Event) string {
	n := ev.Kind
	if ev.Method != nil {
		n += " " + ev.Method.FullName()
	} else if ev.Fn != nil {
		n += " " + ev.Fn.String()
	}
	var as []string
	for _, a := range ev.Args {
		as = append(as, a.String())
	}
	n += "(" + strings.Join(as, ", ") + ")"
	if ev.Addr != nil {
		n += " " + ev.Addr.String()
	}
	if ev.Val != nil {
		n += " = " + ev.Val.String()
	}
	if ev.Loop != "" {
		n += " (further iterations)"
	}
	if ev.Instr != nil {
		n += " [" + p.InstrPos(ev.Instr) + "]"
	}
	return n
}
