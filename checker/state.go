package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type objState struct {
	zero     bool // cells without entry hold the zero value
	escaped  bool
	complete bool // map: the cells in mem are all members
}

type Event struct {
	Kind   string // call, store, mapset, mapdel, append, go, loop, return, range
	Instr  ssa.Instruction
	Fn     *ssa.Function // static callee
	Method *types.Func   // invoked or called method or function object
	Args   []*Term       // for invoke Args[0] is the receiver
	Res    *Term
	Addr   *Term
	Val    *Term
	Loop   string
	Ctx    string
	key    string
	Rec    bool // recursive call
	Eff    string
	Facts  *Facts // facts when the event occurred (not part of the identity)
}

type Trace struct {
	Ev     *Event
	Parent *Trace
	id     int
	n      int
}

type activeLoop struct {
	hdr        *ssa.BasicBlock
	key        string
	entryPhis  map[*ssa.Phi]*Term
	entryMem   map[*Term]*Term
	entryTrace *Trace
	first      bool
	mark       *Trace          // trace at the start of the current iteration
	start      map[*Term]*Term // loop variables at the start of the current iteration
	startMem   map[*Term]*Term // memory at the start of the current iteration
	id         string          // identity of the entry for state keys
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

type Frame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	call   ssa.Instruction
	defers []*deferred
	loops  []*activeLoop
	noRet  bool // result is discarded (deferred call)
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]*deferred(nil), f.defers...)
	g.loops = append([]*activeLoop(nil), f.loops...)
	return &g
}

type State struct {
	e      *Engine
	frames []*Frame
	mem    map[*Term]*Term
	ver    map[string]*Term
	gver   *Term
	mver   *Term // of the content of maps, which have no addresses
	obj    map[*Term]objState
	F      *Facts
	Mon    map[string]string
	tr     *Trace
	steps  int
	cut    *Cut
	exited bool // the program has ended
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{e: s.e, gver: s.gver, mver: s.mver, tr: s.tr, steps: s.steps, cut: s.cut}
	n.frames = append([]*Frame(nil), s.frames...)
	n.frames[len(n.frames)-1] = n.top().clone()
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.ver = make(map[string]*Term, len(s.ver))
	for k, v := range s.ver {
		n.ver[k] = v
	}
	n.obj = make(map[*Term]objState, len(s.obj))
	for k, v := range s.obj {
		n.obj[k] = v
	}
	n.F = s.F.clone()
	n.Mon = make(map[string]string, len(s.Mon))
	for k, v := range s.Mon {
		n.Mon[k] = v
	}
	return n
}

func (s *State) key() string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "F%s:%d:%d", f.ctx, f.block.Index, f.pc)
		var es []string
		for k, v := range f.env {
			es = append(es, k.Name()+"="+strconv.Itoa(v.ID))
		}
		sort.Strings(es)
		sb.WriteString(strings.Join(es, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "D%p", d.instr)
		}
		for _, l := range f.loops {
			sb.WriteString("L" + l.key + l.id + strconv.FormatBool(l.first))
		}
	}
	ids := func(m map[*Term]*Term) {
		var es []string
		for k, v := range m {
			es = append(es, strconv.Itoa(k.ID)+"="+strconv.Itoa(v.ID))
		}
		sort.Strings(es)
		sb.WriteString("|" + strings.Join(es, ","))
	}
	ids(s.mem)
	if s.cut != nil {
		fmt.Fprintf(&sb, "|cut%d", s.cut.id)
	}
	var es []string
	for k, v := range s.ver {
		es = append(es, k+"="+strconv.Itoa(v.ID))
	}
	sort.Strings(es)
	fmt.Fprintf(&sb, "|%s|%d|", strings.Join(es, ","), s.gver.ID*1000003+s.mver.ID)
	es = es[:0]
	for k, v := range s.obj {
		es = append(es, fmt.Sprintf("%d=%v", k.ID, v))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ",") + "|")
	s.F.key(&sb)
	es = es[:0]
	for k, v := range s.Mon {
		es = append(es, k+"="+v)
	}
	sort.Strings(es)
	sb.WriteString("|" + strings.Join(es, ","))
	if s.tr != nil {
		fmt.Fprintf(&sb, "|T%d", s.tr.id)
	}
	return sb.String()
}

// loopKeys lists the loops that contain the current point.
func (s *State) loopKeys() []string {
	var out []string
	for _, f := range s.frames {
		for _, l := range f.loops {
			out = addStr(out, l.key)
		}
	}
	return out
}

// Trace events since node from (exclusive), oldest first.
func traceSince(t, from *Trace) []*Event {
	var out []*Event
	for x := t; x != nil && x != from; x = x.Parent {
		out = append(out, x.Ev)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) Events() []*Event { return traceSince(s.tr, nil) }

// ---- memory ----

func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case OpFieldAddr, OpIndexAddr, OpMapCell, OpBuilder, OpSlice:
			a = a.Args[0]
		default:
			return a
		}
	}
}

func structKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeStr(t.Underlying())
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

// class partitions addresses into sets that can be aliases of each other.
func classOf(a *Term) string {
	switch a.Op {
	case OpFieldAddr:
		return "F:" + structKey(a.Args[0].Typ) + "." + strconv.FormatInt(a.N, 10)
	case OpIndexAddr:
		return "E:" + typeStr(elemType(a.Args[0].Typ))
	case OpMapCell:
		return "M:" + typeStr(a.Args[0].Typ.Underlying())
	case OpGlobal:
		return "G:" + a.Aux
	case OpBuilder:
		return "B"
	}
	if a.Typ != nil {
		return "P:" + typeStr(deref(a.Typ))
	}
	return "P:?"
}

func mapClass(m *Term) string {
	if m.Typ == nil {
		return "M:?"
	}
	return "M:" + typeStr(m.Typ.Underlying())
}

func (s *State) verOf(class string) *Term {
	if s.e.stable(class) {
		return mkVer("s", nil)
	}
	if v, ok := s.ver[class]; ok {
		return v
	}
	if strings.HasPrefix(class, "M:") {
		return s.mver
	}
	return s.gver
}

func (s *State) isFreshUnescaped(root *Term) bool {
	o, ok := s.obj[root]
	return root.Op == OpAlloc && ok && !o.escaped
}

// rootsDistinct reports that objects a and b cannot be the same.
func (s *State) rootsDistinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == OpAlloc && b.Op == OpAlloc {
		return true
	}
	if s.e != nil && s.e.C.Distinct != nil && s.e.C.Distinct(a, b) {
		return true
	}
	if a.Op == OpGlobal && b.Op == OpGlobal {
		return true
	}
	if a.Op != OpAlloc {
		a, b = b, a
	}
	if a.Op != OpAlloc {
		return false
	}
	if s.isFreshUnescaped(a) {
		return true
	}
	switch b.Op {
	case OpParam, OpGlobal:
		return true
	case OpLoopVar:
		// the loop variable was bound before the object was allocated
		return hasStr(a.loops, loopOfVar(b))
	}
	return false
}

func loopOfVar(t *Term) string {
	if r, ok := t.Ref.(string); ok {
		return r
	}
	return ""
}

func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op != b.Op {
		// *p for a pointer p of unknown origin may be any address of the type
		pa, pb := isPlainPtr(a), isPlainPtr(b)
		if pa == pb {
			return false
		}
		if pb {
			a, b = b, a
		}
		if !types.Identical(derefOr(a.Typ), cellType(b)) {
			return false
		}
		return !s.rootsDistinct(rootOf(a), rootOf(b))
	}
	if classOf(a) != classOf(b) {
		return false
	}
	switch a.Op {
	case OpFieldAddr:
		return s.mayAliasBase(a.Args[0], b.Args[0])
	case OpIndexAddr:
		if a.Args[0] == b.Args[0] {
			return s.F.eval(mkEq(a.Args[1], b.Args[1])) != no
		}
		return !s.rootsDistinct(rootOf(a), rootOf(b))
	case OpMapCell:
		if a.Args[0] == b.Args[0] {
			return s.F.eval(mkEq(a.Args[1], b.Args[1])) != no
		}
		return !s.rootsDistinct(rootOf(a), rootOf(b)) && s.F.eval(mkEq(a.Args[1], b.Args[1])) != no
	}
	return !s.rootsDistinct(rootOf(a), rootOf(b))
}

func (s *State) mayAliasBase(a, b *Term) bool {
	if a == b {
		return true
	}
	if s.e != nil && s.e.C.Distinct != nil && s.e.C.Distinct(a, b) {
		return false
	}
	if a.Op == OpFieldAddr && b.Op == OpFieldAddr || a.Op == OpIndexAddr && b.Op == OpIndexAddr {
		return s.mayAlias(a, b)
	}
	return !s.rootsDistinct(rootOf(a), rootOf(b))
}

func isPlainPtr(a *Term) bool {
	switch a.Op {
	case OpFieldAddr, OpIndexAddr, OpMapCell, OpBuilder, OpGlobal, OpAlloc:
		return false
	}
	return true
}

func derefOr(t types.Type) types.Type {
	if d := deref(t); d != nil {
		return d
	}
	return types.Typ[types.Invalid]
}

func cellType(a *Term) types.Type {
	switch a.Op {
	case OpMapCell:
		return elemType(a.Args[0].Typ)
	case OpBuilder:
		return types.Typ[types.String]
	}
	return derefOr(a.Typ)
}

func (s *State) hasSub(a *Term) bool {
	for k := range s.mem {
		if k != a && within(k, a) {
			return true
		}
	}
	return false
}

// within reports that cell k is inside the object at address a.
func within(k, a *Term) bool {
	for x := k; ; {
		if x == a {
			return true
		}
		switch x.Op {
		case OpFieldAddr, OpBuilder:
			x = x.Args[0]
		case OpIndexAddr:
			// elements of an array at a
			x = x.Args[0]
		default:
			return false
		}
	}
}

func (s *State) zeroInit(a *Term) bool {
	r := rootOf(a)
	o, ok := s.obj[r]
	return ok && o.zero
}

// load reads the value at address a of type t.
func (s *State) load(a *Term, t types.Type) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	// part of a whole value
	switch a.Op {
	case OpFieldAddr:
		if w := s.whole(a.Args[0]); w != nil {
			return mkField(w, int(a.N), t)
		}
	case OpIndexAddr:
		if w := s.whole(a.Args[0]); w != nil && w.Op == OpZero {
			return zeroOf(t)
		} else if w != nil && arrayLen(deref(a.Args[0].Typ)) >= 0 {
			if i := a.Args[1]; i.IsInt && w.Op == OpSliceLit && i.N >= 0 && int(i.N) < len(w.Args) {
				return w.Args[i.N]
			}
			return mkApp("index", t, w, a.Args[1])
		}
	}
	if n := arrayLen(t); n >= 0 && s.hasSub(a) {
		if n > maxArray || !s.constSub(a) {
			return s.arrayValue(a, t)
		}
		et := t.Underlying().(*types.Array).Elem()
		els := make([]*Term, n)
		for i := range els {
			els[i] = s.load(mkIndexAddr(a, mkInt(int64(i)), types.NewPointer(et)), et)
		}
		return mkT(OpSliceLit, "", 0, t, false, nil, nil, els...)
	}
	if st := structOf(t); st != nil {
		if s.hasSub(a) || s.e.inModuleType(t) {
			f := make([]*Term, st.NumFields())
			for i := range f {
				ft := st.Field(i).Type()
				f[i] = s.load(mkFieldAddr(a, i, types.NewPointer(ft)), ft)
			}
			return mkAgg(t, f)
		}
		if s.zeroInit(a) {
			return zeroOf(t)
		}
	}
	if s.zeroInit(a) {
		if a.Op == OpIndexAddr {
			for k := range s.mem {
				if s.mayAlias(k, a) {
					return mkT(OpLoad, "", 0, t, false, nil, nil, a, s.gver)
				}
			}
		}
		return zeroOf(t)
	}
	if a.Op == OpIndexAddr && a.Args[0].Op == OpAppend {
		// element of an extended slice
		ap := a.Args[0]
		n := mkLen(ap.Args[0])
		if n.IsInt && a.Args[1].IsInt && a.Args[1].N >= n.N && int(a.Args[1].N-n.N) < len(ap.Args)-1 {
			return ap.Args[1+a.Args[1].N-n.N]
		}
	}
	if a.Op == OpIndexAddr && a.Args[0].Op == OpAppendSl && len(a.Args[0].Args) == 2 && !isStrBytes(a.Args[0].Args[1].Typ) {
		// element of a copy, as long as no element has been stored since
		if ap := a.Args[0]; mkLen(ap.Args[0]).IsInt && mkLen(ap.Args[0]).N == 0 {
			b := mkIndexAddr(ap.Args[1], a.Args[1], a.Typ)
			if v := s.e.copyVer[ap]; v != nil && v == s.verOf(classOf(a)) && classOf(a) == classOf(b) {
				return s.load(b, t)
			}
		}
	}
	if a.Op == OpIndexAddr && a.Args[0].Op == OpSliceLit && a.Args[1].IsInt && int(a.Args[1].N) < len(a.Args[0].Args) {
		return a.Args[0].Args[a.Args[1].N]
	}
	return mkT(OpLoad, "", 0, t, false, nil, nil, a, s.verOf(classOf(a)))
}

// copied notes the version of the elements of a list when append copies them.
func (e *Engine) copied(s *State, ap *Term) {
	v := s.verOf("E:" + typeStr(elemType(ap.Args[1].Typ)))
	if old, ok := e.copyVer[ap]; ok && old != v {
		v = nil
	}
	e.copyVer[ap] = v
}

const maxArray = 64

// arrayLen: the length of an array type, -1 for another type.
func arrayLen(t types.Type) int {
	if t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			return int(a.Len())
		}
	}
	return -1
}

// arrayValue: the value of the array at a, which depends on all its stored
// elements.
func (s *State) arrayValue(a *Term, t types.Type) *Term {
	var ks []*Term
	for k := range s.mem {
		if within(k, a) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	args := []*Term{a, s.gver}
	for _, k := range ks {
		args = append(args, k, s.mem[k])
	}
	return mkApp("arraycontent", t, args...)
}

// constSub: the stored elements of the array at a all have constant indices.
func (s *State) constSub(a *Term) bool {
	for k := range s.mem {
		if k == a || !within(k, a) {
			continue
		}
		x := k
		for x.Args[0] != a {
			x = x.Args[0]
		}
		if x.Op == OpIndexAddr && !x.Args[1].IsInt {
			return false
		}
	}
	return true
}

// whole returns the stored whole value of the struct or array at a.
func (s *State) whole(a *Term) *Term {
	if v, ok := s.mem[a]; ok {
		return v
	}
	if a.Op == OpFieldAddr {
		if w := s.whole(a.Args[0]); w != nil {
			return mkField(w, int(a.N), deref(a.Typ))
		}
	}
	return nil
}

// explode replaces whole-value entries above a by entries for their fields.
func (s *State) explode(a *Term) {
	if a.Op != OpFieldAddr && a.Op != OpIndexAddr {
		return
	}
	b := a.Args[0]
	s.explode(b)
	w, ok := s.mem[b]
	if !ok || a.Op == OpIndexAddr {
		if ok && a.Op == OpIndexAddr && structOf(deref(b.Typ)) == nil {
			if n := arrayLen(derefOr(b.Typ)); n >= 0 {
				delete(s.mem, b)
				if w.Op == OpSliceLit || w.Op == OpZero && n <= maxArray {
					et := derefOr(b.Typ).Underlying().(*types.Array).Elem()
					for i := 0; i < n; i++ {
						x := zeroOf(et)
						if w.Op == OpSliceLit {
							x = w.Args[i]
						}
						s.mem[mkIndexAddr(b, mkInt(int64(i)), types.NewPointer(et))] = x
					}
				}
			}
		}
		return
	}
	st := structOf(deref(b.Typ))
	if st == nil {
		return
	}
	delete(s.mem, b)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		s.mem[mkFieldAddr(b, i, types.NewPointer(ft))] = mkField(w, i, ft)
	}
}

func (s *State) store(a, v *Term, t types.Type, site string) {
	s.explode(a)
	fresh := s.isFreshUnescaped(rootOf(a))
	for k := range s.mem {
		if k == a || within(k, a) {
			delete(s.mem, k)
			continue
		}
		if s.mayAliasDeep(k, a, t) {
			delete(s.mem, k)
		}
	}
	if !fresh {
		s.bump(a, t, site)
		s.escape(v)
	}
	if st := structOf(t); st != nil && (v.Op == OpAgg || v.Op == OpZero) && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.storeRaw(mkFieldAddr(a, i, types.NewPointer(ft)), mkField(v, i, ft), ft)
		}
		return
	}
	s.mem[a] = v
}

func (s *State) storeRaw(a, v *Term, t types.Type) {
	if st := structOf(t); st != nil && (v.Op == OpAgg || v.Op == OpZero) && st.NumFields() > 0 {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.storeRaw(mkFieldAddr(a, i, types.NewPointer(ft)), mkField(v, i, ft), ft)
		}
		return
	}
	s.mem[a] = v
}

// mayAliasDeep: a store of type t to a may change cell k.
func (s *State) mayAliasDeep(k, a *Term, t types.Type) bool {
	if s.mayAlias(k, a) {
		return true
	}
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if s.mayAliasDeep(k, mkFieldAddr(a, i, types.NewPointer(ft)), ft) {
				return true
			}
		}
	}
	return false
}

func (s *State) bump(a *Term, t types.Type, site string) {
	if isPlainPtr(a) {
		// may point anywhere
		s.gver = mkVer(site, s.loopKeys())
		for k := range s.ver {
			if !strings.HasPrefix(k, "M:") && !strings.HasPrefix(k, "O:") {
				delete(s.ver, k)
			}
		}
		return
	}
	s.ver[classOf(a)] = mkVer(site, s.loopKeys())
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.bump(mkFieldAddr(a, i, types.NewPointer(ft)), ft, site)
		}
	}
}

// escape marks the fresh objects reachable from v as shared.
func (s *State) escape(v *Term) {
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpAlloc {
			if o, ok := s.obj[t]; ok && !o.escaped {
				o.escaped = true
				s.obj[t] = o
			}
			var keys []*Term
			for k := range s.mem {
				if rootOf(k) == t {
					keys = append(keys, k)
				}
			}
			for _, k := range keys {
				visit(s.mem[k])
				if k.Op == OpMapCell {
					visit(k.Args[1])
				}
			}
		}
		for _, a := range t.Args {
			visit(a)
		}
	}
	visit(v)
}

// havocAll forgets everything a callee of unknown effect may change.
func (s *State) havocAll(site string) {
	s.gver = mkVer(site, s.loopKeys())
	s.mver = s.gver
	s.ver = map[string]*Term{}
	for k := range s.mem {
		r := rootOf(k)
		if s.isFreshUnescaped(r) {
			continue
		}
		if s.e.stable(classOf(k)) {
			continue
		}
		delete(s.mem, k)
	}
	for k, o := range s.obj {
		if o.escaped {
			o.zero = false
			o.complete = false
			s.obj[k] = o
		}
	}
}

// havocAt forgets the content of the object at address p.
func (s *State) havocAt(p *Term, site string) {
	if !ptrLike(p.Typ) {
		return
	}
	s.explode(p)
	t := derefOr(p.Typ)
	for k := range s.mem {
		if within(k, p) || s.mayAliasDeep(k, p, t) {
			delete(s.mem, k)
		}
	}
	hv := mkT(OpCallRes, "written by "+site, 0, t, true, nil, s.loopKeys(), p)
	if st := structOf(t); st != nil {
		s.bump(p, t, site)
		s.mem[p] = hv
		return
	}
	if !s.isFreshUnescaped(rootOf(p)) {
		s.bump(p, t, site)
	}
	s.mem[p] = hv
}

func ptrLike(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// ---- maps ----

func (s *State) mapLen(m *Term) *Term {
	if m.isNil() {
		return mkInt(0)
	}
	if o, ok := s.obj[m]; ok && m.Op == OpAlloc && o.complete {
		n := 0
		for k, v := range s.mem {
			if k.Op == OpMapCell && k.Args[0] == m && v.Op != OpAbsent {
				n++
			}
		}
		if n == 0 {
			return mkInt(0)
		}
	}
	return mkT(OpMapLen, "", 0, types.Typ[types.Int], false, nil, nil, m, s.verOfMap(m))
}

func (s *State) verOfMap(m *Term) *Term {
	if v, ok := s.ver["O:"+strconv.Itoa(m.ID)]; ok {
		return v
	}
	return s.verOf(mapClass(m))
}

func (s *State) lookup(m, k *Term, et types.Type) (val, ok *Term) {
	if m.isNil() {
		return zeroOf(et), mkBool(false)
	}
	cell := mkT(OpMapCell, "", 0, nil, false, nil, nil, m, k)
	if v, found := s.mem[cell]; found {
		if v.Op == OpAbsent {
			return zeroOf(et), mkBool(false)
		}
		return v, mkBool(true)
	}
	if o, isObj := s.obj[m]; isObj && m.Op == OpAlloc && o.complete {
		may := false
		for c, v := range s.mem {
			if c.Op == OpMapCell && c.Args[0] == m && v.Op != OpAbsent && s.F.eval(mkEq(c.Args[1], k)) != no {
				may = true
			}
		}
		if !may {
			return zeroOf(et), mkBool(false)
		}
	}
	v := s.verOfMap(m)
	val = mkT(OpLookup, "", 0, et, false, nil, nil, m, k, v)
	ok = mkT(OpLookupOk, "", 0, types.Typ[types.Bool], false, nil, nil, m, k, v)
	if s.F.eval(ok) == no {
		return zeroOf(et), mkBool(false)
	}
	return val, ok
}

func (s *State) mapSet(m, k, v *Term, site string) {
	cell := mkT(OpMapCell, "", 0, nil, false, nil, nil, m, k)
	fresh := s.isFreshUnescaped(m)
	for c := range s.mem {
		if c.Op == OpMapCell && c != cell && s.mayAlias(c, cell) {
			delete(s.mem, c)
			if c.Args[0] == m {
				// the overwritten key is unknown: members are no longer known
				if o, ok := s.obj[m]; ok {
					o.complete = false
					s.obj[m] = o
				}
			}
		}
	}
	if m.Op != OpAlloc || !fresh {
		for om, o := range s.obj {
			if om != m && o.complete && o.escaped && mapTypeOf(om.Typ) != nil && typeStr(om.Typ.Underlying()) == typeStr(m.Typ.Underlying()) && !s.rootsDistinct(om, m) {
				o.complete = false
				s.obj[om] = o
			}
		}
		s.escape(v)
		s.escape(k)
	}
	if fresh {
		s.ver["O:"+strconv.Itoa(m.ID)] = mkVer(site, s.loopKeys())
	} else {
		for k := range s.ver {
			if strings.HasPrefix(k, "O:") {
				if id, err := strconv.Atoi(k[2:]); err == nil && !s.isFreshUnescaped(tt.list[id]) {
					delete(s.ver, k)
				}
			}
		}
		s.ver[mapClass(m)] = mkVer(site, s.loopKeys())
	}
	s.mem[cell] = v
	if v.Op != OpAbsent {
		ml := s.mapLen(m)
		if !ml.IsInt {
			s.F.addDiff(nil, ml, -1)
		}
	}
}

func (s *State) mapCells(m *Term) (keys, vals []*Term) {
	for c, v := range s.mem {
		if c.Op == OpMapCell && c.Args[0] == m && v.Op != OpAbsent {
			keys = append(keys, c.Args[1])
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	for _, k := range keys {
		vals = append(vals, s.mem[mkT(OpMapCell, "", 0, nil, false, nil, nil, m, k)])
	}
	return
}
