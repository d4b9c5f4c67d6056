package main

import (
	"fmt"
	"go/types"
)

// reportSpec says where a protocol's status report carries what it is about.
type reportSpec struct {
	typ    string   // message type that carries a report
	flag   string   // its report flag
	body   string   // the report inside it
	id     string   // message identifier in the report
	copies []string // further fields of the report that must equal the recipient
	from   string   // originator of the carrying message: the submission's recipient
	to     string   // destination of the carrying message: the submission's own number
	asked  string   // the submission's wish for a report
	dest   string   // the submission's recipient
	src    string   // the submission's own number
	resp   string   // message identifier of the response
}

var reportSpecs = map[string]reportSpec{
	"cmpp": {"Delivery", ".registeredDelivery", ".report", ".msgId", []string{".destTerminalId"}, ".srcTerminalId", ".destId", ".registeredDel", ".destTerminalId", ".srcId", ".msgId"},
	"smgp": {"Delivery", ".isReport", ".report", ".id", nil, ".srcTermID", ".destTermID", ".needReport", ".destTermID", ".srcTermID", ".msgId"},
}

// at loads a field of the object as it is in the state.
func (c *srvCase) at(st *State, pt PtrV, path string) Val {
	t := c.e.typeOf(st, pt)
	if t == nil || typeAt(t, path) == nil {
		panic(undecided("anchor: %s has no field %s", show(pt), path))
	}
	return c.e.load(st, PtrV{Obj: pt.Obj, Path: pt.Path + path}, typeAt(t, path), c.where)
}

func (e *Engine) typeOf(st *State, pt PtrV) types.Type {
	o := st.obj(pt.Obj)
	if o == nil || o.Typ == nil {
		return nil
	}
	return typeAt(o.Typ, pt.Path)
}

// same: the two values are equal on this path; a byte slice is its content, a list its only or first element.
func (c *srvCase) same(st *State, a, b Val) bool {
	if s, ok := a.(SliceV); ok {
		a = st.bytesVal(s)
	}
	if s, ok := b.(SliceV); ok {
		switch {
		case isByte(s.Elem):
			b = st.bytesVal(s)
		default:
			// nobody, or the first of them
			if none := st.fork(); none.assume(cLe(s.Len, linC(0))) && !c.same(none, a, litStr("")) {
				return false
			}
			if st = st.fork(); s.Obj == "" || !st.assume(cLe(linC(1), s.Len)) {
				return true
			}
			b = c.e.load(st, PtrV{Obj: s.Obj, Path: idxPath(s.Off)}, s.Elem, c.where)
		}
	}
	a = chosen(st, a)
	if a.key() == b.key() {
		return true
	}
	ok, known := st.decide(c.e.equal(st, a, b))
	return ok && known
}

// chosen is the arm of a value chosen by a condition the state decides.
func chosen(st *State, v Val) Val {
	for {
		var t *Term
		switch x := v.(type) {
		case TermV:
			t = x.T
		case StrV:
			t = x.T
		}
		if t == nil || t.Op != "ite" {
			return v
		}
		is, known := st.decide(t.Args[0].(BoolV).C)
		if !known {
			return v
		}
		if v = t.Args[2]; is {
			v = t.Args[1]
		}
	}
}

// encodedAs: the object still is as it was when it was encoded.
func encodedAs(o *Obj, then Val) bool {
	n := o.clone()
	for _, n.Pub = range []bool{false, true} {
		if Lit(n.contentKey()).key() == then.key() {
			return true
		}
	}
	return false
}

// reports judges the status reports sent along one way a submission is dealt with.
func (c *srvCase) reports(x *srvEnd) {
	r := c.r
	var req PtrV
	if d := x.all("decode"); len(d) == 1 {
		req, _ = d[0].Args[0].(PtrV)
	}
	made := map[string]*Ev{}
	for _, ev := range x.all("respond") {
		if pt, ok := unIface(ev.Args[2]).(PtrV); ok && ev.Args[0].key() == req.key() {
			made[pt.Obj] = ev
		}
	}
	var answered *Ev // the response sent, with success
	var resp PtrV
	sent := 0
	for _, ev := range x.evs {
		if ev.Kind != "asyncwrite" && ev.Kind != "writefail" && ev.Kind != "loopwrite" {
			continue
		}
		t, obj, known := frameMsg(ev)
		if !known {
			c.fail("accepted", x, ev, "bytes", "sends bytes that are not the encoding of a message")
			return
		}
		if m := made[obj.Obj]; m != nil {
			if code, ok := m.Args[1].(IntV); ok && ev.Kind == "asyncwrite" && x.st.eqL(code.L, linC(0)) {
				answered, resp = ev, obj
			}
			continue
		}
		sp, has := reportSpecs[c.name]
		if !has || t != sp.typ {
			if c.isResponse(t) {
				continue // S05
			}
			c.fail("accepted", x, ev, "other "+t, "a submission makes the server send a "+t)
			return
		}
		sent++
		if sent > 1 {
			c.fail("accepted", x, ev, "twice", "more than one status report is sent for one submission")
			return
		}
		if answered == nil {
			c.fail("accepted", x, ev, "early", "a status report is sent although the submission has not been answered with success")
			return
		}
		if !ownConn(ev.Args[0]) {
			c.fail("accepted", x, ev, "elsewhere", "a status report is sent to another connection")
			return
		}
		r.ok("accepted", r.P.funcAt(ev.Pos))
		st := ev.Extra.(*FrameSnap).St
		want, ok := c.at(st, req, sp.asked).(IntV)
		if !ok || !st.holds(cLe(linC(1), want.L)) {
			c.fail("asked", x, ev, "unasked", "a status report is sent although the submission did not ask for one")
		} else {
			r.ok("asked", "")
		}
		if !encodedAs(st.obj(obj.Obj), frameTerm(ev).Args[1]) {
			panic(undecided("status report changed after it was encoded"))
		}
		if v, ok := c.at(st, obj, sp.flag).(IntV); !ok || !st.eqL(v.L, linC(1)) {
			c.fail("names", x, ev, "flag", "the message is not marked as a status report")
		}
		rep, ok := c.at(st, obj, sp.body).(PtrV)
		if !ok {
			c.fail("names", x, ev, "body", "the status report is empty")
			return
		}
		for _, q := range []struct {
			key, what string
			got, want Val
		}{
			{"id", "does not carry the message identifier of the response", c.at(st, rep, sp.id), c.at(st, resp, sp.resp)},
			{"from", "does not come from the submission's recipient", c.at(st, obj, sp.from), c.at(st, req, sp.dest)},
			{"to", "is not addressed to the submission's own number", c.at(st, obj, sp.to), c.at(st, req, sp.src)},
		} {
			if !c.same(st, q.got, q.want) {
				c.fail("names", x, ev, q.key, fmt.Sprintf("the status report %s: %s instead of %s", q.what, show(q.got), show(q.want)))
			} else {
				r.ok("names", q.key)
			}
		}
		for _, f := range sp.copies {
			if got, want := c.at(st, rep, f), c.at(st, req, sp.dest); !c.same(st, got, want) {
				c.fail("names", x, ev, f, fmt.Sprintf("the status report's %s is not the submission's recipient: %s", f, show(got)))
			}
		}
	}
}

func init() {
	register(&Check{ID: "S09", Level: "proof", Tech: "path-sensitive abstract interpretation: must-precede rule for status reports, value tracking of their content",
		Rule:  "For each protocol Server.OnTraffic is interpreted on a submission from an arbitrary state through handler, worker task, write callbacks and timers; besides responses only messages of the protocol's report-carrying type are written, at most one per submission, on the same connection, each only after the response made from this very submission was handed over with status 0, on a path that has found the submission's report wish set; at the write the message is marked as a report, its report holds the identifier the response object holds, its originator is the submission's (first) recipient and its destination the submission's own number.",
		Assum: []string{"Decode fills the message from the frame and Encode renders it (C01, C03)", "writes on one connection are sent in the order they were handed over"},
		Run: func(r *Report) {
			r.atLeast("accepted", 4)
			r.atLeast("asked", 4)
			r.atLeast("names", 12)
			r.srvCases(append([]string{"encode"}, srvEvents...), func(role string, _ int64) bool { return role == "submit" }, nil, func(c *srvCase) {
				for k := range c.ends {
					c.reports(&c.ends[k])
				}
			})
		}})
}
