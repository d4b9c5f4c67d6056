package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// The rules on memory the network layer lends: what Peek and Next return is overwritten once the
// handler has returned.

// keepers are the message types whose Decode leaves a reference into the frame it was given.
func (r *Report) keepers() map[string]bool {
	p := r.P
	out := map[string]bool{}
	pdu := p.iface("codec", "Pdu")
	for _, pk := range protoPkgs {
		for _, t := range p.implementers(p.pkg(pk), pdu) {
			m := p.method(types.NewPointer(t), "Decode")
			if m == nil {
				continue
			}
			r.guard(fullName(m), func() {
				r.root(m)
				e := protoEngine(p)
				e.Skip = returnsLogFields
				st := newState(p.base)
				o := e.alloc(st, OCell, t, m.Pos(), linC(0))
				e.NotNil[o.ID] = true
				var args []Val
				frame := ""
				for i, q := range m.Params {
					v := symVal(mk("lent:"+q.Name()+":"+t.String()), q.Type())
					if i == 0 {
						v = PtrV{Obj: o.ID}
					}
					if s, ok := v.(SliceV); ok && isByteSlice(q.Type()) {
						frame = s.Obj
					}
					args = append(args, v)
				}
				if frame == "" {
					r.fail("undecided", fullName(m), m.Pos(), t.Obj().Name(), "no frame parameter")
					return
				}
				e.OnStore = func(st *State, obj *Obj, path string, v Val, _ token.Pos) {
					if !obj.Alloc && obj.ID != frame && st.reach(v)[frame] {
						r.fail("kept", fullName(m), m.Pos(), t.Obj().Name()+" elsewhere", "the decoder of "+t.String()+" keeps a reference into the frame outside the message")
					}
				}
				outs := e.Run(m, args, nil, st, m.Pos())
				r.done(e, len(outs))
				for _, oc := range outs {
					if !oc.Panic && oc.St.reach(PtrV{Obj: o.ID})[frame] {
						out[t.String()] = true
					}
				}
				what := "keeps no reference"
				if out[t.String()] {
					what = "refers to the bytes it was given"
				}
				r.ok("decoders", t.Obj().Pkg().Name()+"."+t.Obj().Name()+" "+what)
			})
		}
	}
	return out
}

// frameMark names the object that stands for the bytes a message was decoded from
const frameMark = "FRAME"

// lent finds memory that outlives its bytes among what the values refer to: lent by the network
// layer, or shared between frames and written with this one.
func lentIn(st *State, vs ...Val) (obj, why string) {
	seen := map[string]bool{}
	var walk func(v Val, deep bool)
	var look func(id string, elem bool)
	look = func(id string, elem bool) {
		if id == "" || seen[id] || why != "" {
			return
		}
		seen[id] = true
		o := st.obj(id)
		switch {
		case o == nil || strings.HasPrefix(id, "G:") && !elem:
			return
		case o.Lent:
			obj, why = id, "lent by the network layer"
			return
		case !o.Alloc && o.Kind == OArr && isByte(o.Typ) && (len(o.W) > 0 || o.Hav):
			obj, why = id, "that the next frame overwrites"
			return
		case !o.Alloc:
			return
		}
		if b := st.obj(o.Over); b != nil && !b.Alloc && !b.Lent {
			obj, why = o.Over, "that the next frame overwrites"
			return
		}
		look(o.Over, true)
		for _, y := range o.F {
			walk(y, true)
		}
		look(frameMark+id, false)
	}
	walk = func(v Val, deep bool) {
		switch x := v.(type) {
		case PtrV:
			look(x.Obj, false)
		case SliceV:
			look(x.Obj, true)
		case IfaceV:
			walk(x.V, deep)
		case FuncV:
			for _, b := range x.Bind {
				walk(b, deep)
			}
		case *StructV:
			for _, y := range x.F {
				walk(y, deep)
			}
		case TupleV:
			for _, y := range x {
				walk(y, deep)
			}
		}
	}
	for _, v := range vs {
		walk(v, true)
	}
	return
}

var lentEvents = []string{"decode", "submit", "submitfail", "go", "afterfunc", "taskend", "asyncwrite", "writefail", "setctx", "smstore", "smloadorstore", "send", "mapset", "list", "peek", "discard", "discardall", "respond", "ext"}

// lent watches where the bytes of one frame go.
func (c *srvCase) lent(keep map[string]bool) {
	r := c.r
	seen := map[string]bool{}
	bad := func(st *State, ev *Ev, key, msg string) {
		if k := key + r.P.pos(ev.Pos); !seen[k] {
			seen[k] = true
			c.fail("kept", &srvEnd{st: st, evs: st.trace.list()}, ev, key, msg)
		}
	}
	good := func(rule string, ev *Ev) {
		if k := "ok " + rule + r.P.pos(ev.Pos); !seen[k] {
			seen[k] = true
			r.ok(rule, ev.Kind+" "+r.P.funcAt(ev.Pos))
		}
	}
	c.e.OnEvent = func(st *State, ev *Ev) {
		switch ev.Kind {
		case "decode":
			t := ev.Extra.(types.Type)
			pt, ok := ev.Args[0].(PtrV)
			if !ok {
				panic(undecided("a message is decoded into something that is not a pointer at %s", r.P.pos(ev.Pos)))
			}
			if keep[t.String()] {
				st.setObj(&Obj{ID: frameMark + pt.Obj, Kind: OCell, Alloc: true, F: map[string]Val{"": ev.Args[2]}})
			}
			good("decoded", ev)
		case "submit", "submitfail", "go", "afterfunc":
			what := map[string]string{"go": "a goroutine", "afterfunc": "a timer"}[ev.Kind]
			if what == "" {
				what = "a task"
			}
			if _, why := lentIn(st, ev.Args...); why != "" {
				bad(st, ev, ev.Kind, what+" refers to memory "+why)
				return
			}
			good("tasks", ev)
		case "asyncwrite", "writefail":
			if _, why := lentIn(st, ev.Args[1]); why != "" {
				bad(st, ev, "write", "memory "+why+" is given to an asynchronous write")
				return
			}
			good("writes", ev)
		case "setctx", "smstore", "smloadorstore", "send", "mapset", "list":
			if id, why := lentIn(st, ev.Args...); why != "" && st.obj(id).Lent {
				bad(st, ev, ev.Kind, "a reference to memory "+why+" is kept")
			}
		case "ext":
			if n, _ := ev.Extra.(string); strings.HasSuffix(n, "sync.Pool).Put") && ev.Ctx == "loop" {
				for id := range st.reach(ev.Args[1:]...) {
					if o := st.obj(id); o != nil && o.Alloc {
						n := o.clone()
						n.Lent = true
						st.setObj(n)
					}
				}
			}
		case "peek", "discard", "discardall":
			if ev.Ctx != "loop" {
				bad(st, ev, "late", "the input of the connection is read outside its event loop")
			}
		case "respond":
			if pt, ok := ev.Args[0].(PtrV); ok && ev.Ctx != "loop" {
				if o := st.obj(pt.Obj); o != nil && !o.Alloc {
					bad(st, ev, "message", "a task works on a message that is not its own but shared with other frames")
				} else {
					good("own", ev)
				}
			}
		}
	}
	c.e.OnStore = func(st *State, obj *Obj, path string, v Val, pos token.Pos) {
		if obj.Alloc || obj.Lent || path == "[copy]" {
			return
		}
		if id, why := lentIn(st, v); why != "" && st.obj(id).Lent {
			bad(st, &Ev{Pos: pos, Ctx: st.ctx}, "store", "a reference to memory "+why+" is kept in "+fmt.Sprint(obj.Typ)+path)
		}
	}
}

func init() {
	register(&Check{ID: "S12", Level: "proof", Tech: "escape and alias analysis by abstract interpretation: reachability of lent memory from everything that outlives the handler",
		Rule:  "Every Decode of the codec packages is interpreted on an arbitrary frame to find which messages keep references into the bytes they are given. OnTraffic is interpreted for each protocol and command with the memory returned by Peek and Next marked as lent; at every hand-over to something that outlives the handler (tasks submitted to a pool, goroutines, timers, write callbacks, bytes given to an asynchronous write, connection contexts, maps, channels, stores into memory that existed before the frame) nothing reachable from what is handed over may refer to lent memory, to memory put back into a reuse pool by the handler, or to memory that existed before the frame and that the frame's bytes were copied into; a message whose decoder keeps references counts as referring to the buffer it was decoded from. Tasks answer only messages that were allocated for their frame, and the connection's input is read on the event loop only.",
		Assum: []string{"gnet v2.1.0: Peek and Next lend their result until OnTraffic returns; AsyncWrite keeps the bytes it is given"},
		Run: func(r *Report) {
			r.atLeast("decoders", 20)
			r.atLeast("decoded", 6)
			r.atLeast("tasks", 6)
			r.atLeast("writes", 6)
			r.atLeast("own", 3)
			keep := r.keepers()
			r.srvCases(lentEvents, func(string, int64) bool { return true }, func(c *srvCase) { c.lent(keep) }, func(*srvCase) {})
		}})
}
