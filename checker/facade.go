package main

import (
	"go/types"
)

const facadeText = "the event that processors are given hands each of these operations to the same operation of the event data, with the same key and value, once, and returns its results unchanged"

// facade verifies the methods of the module types that implement
// processor.Event around an *event.Event.
func facade(c *Ctx, methods ...string) {
	evtI := lookupNamed(c.P, relProcessor, "Event")
	data := lookupNamed(c.P, relEvent, "Event")
	if evtI == nil || data == nil {
		c.Missing("processor.Event and event.Event")
		return
	}
	it := evtI.Underlying().(*types.Interface)
	c.Rule("facade", facadeText, len(methods))
	for _, pk := range c.P.SSA {
		if pk == nil || !c.P.isModPath(pk.Pkg.Path()) {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nm) || !types.Implements(types.NewPointer(nm), it) {
				continue
			}
			for _, m := range methods {
				facadeMethod(c, nm, data, m)
			}
		}
	}
}

func facadeMethod(c *Ctx, nm, data *types.Named, m string) {
	fn := c.P.Prog.LookupMethod(types.NewPointer(nm), nm.Obj().Pkg(), m)
	if fn == nil {
		return
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		// promoted from an embedded *event.Event: nothing in between
		if rt := namedOf(fn.Object().(*types.Func).Type().(*types.Signature).Recv().Type()); rt == data {
			c.Ok("facade", nm.String()+"."+m)
			return
		}
	}
	dst := structOf(nm)
	dataF := -1
	if dst != nil {
		for i := 0; i < dst.NumFields(); i++ {
			if ptrTo(dst.Field(i).Type(), data) {
				dataF = i
			}
		}
	}
	construct := nm.String() + "." + m
	pos := c.P.Pos(fn.Pos())
	if dataF < 0 {
		c.Bad("facade", construct, pos, nm.String()+" holds no *event.Event")
		return
	}
	cl := &Client{}
	cl.OnEvent = func(s *State, ev *Event) bool {
		return ev.Kind == "op" || ev.Kind == "call" || ev.Kind == "store" && rootOf(ev.Addr).Op != OpAlloc || ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "go"
	}
	cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
		if cc.Fn == nil || cc.Fn.Signature.Recv() == nil || !ptrTo(cc.Fn.Signature.Recv().Type(), data) {
			return nil, false
		}
		res := s.e.results(s, cc)
		s.e.emit(s, &Event{Kind: "op", Instr: cc.Instr, Fn: cc.Fn, Args: cc.Args, Ctx: s.top().ctx, Res: mkT(OpTuple, "", 0, nil, false, nil, nil, res...)})
		return res, true
	}
	ps := rootParams(fn)
	_, paths := collect(c, fn, cl, ps, nil)
	for _, p := range paths {
		why := func() string {
			var op *Event
			for _, ev := range p.Events {
				if ev.Kind != "op" {
					return "it also does: " + describeEvent(c.P, ev)
				}
				if ev.Fn.Name() != m {
					if ev.Fn.Name() == "Get" {
						continue // a lookup changes nothing
					}
					return "it calls " + ev.Fn.Name() + " of the event"
				}
				if op != nil {
					return "it calls " + m + " more than once"
				}
				op = ev
			}
			if op == nil {
				return "it does not call " + m + " of the event"
			}
			want := append([]*Term{loadField(p.St, ps[0], dataF)}, ps[1:]...)
			for i, a := range op.Args {
				if a != want[i] && p.St.F.eval(mkEq(a, want[i])) != yes {
					return "argument " + a.String() + " is passed instead of " + want[i].String()
				}
			}
			for i, r := range p.Rets {
				x := op.Res.Args[i]
				if r != x && p.St.F.eval(mkEq(r, x)) != yes && !(r.isNil() && p.St.F.eval(mkEq(x, mkNil())) == yes) {
					return "result " + r.String() + " is returned instead of " + x.String()
				}
			}
			return ""
		}()
		c.Check(why == "", "facade", construct, pos, fn.String()+": "+why, traceDetails(p.St)...)
	}
}
