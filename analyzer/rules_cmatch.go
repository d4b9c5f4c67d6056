package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How the client finds the submission a response or report belongs to.

// shape writes a value as text in which the given terms have names, so that two values can be
// compared as functions of what the names stand for.
func shape(v Val, names map[*Term]string) string {
	switch x := v.(type) {
	case IntV:
		return shapeL(x.L, names)
	case StrV:
		return shapeT(x.T, names)
	case TermV:
		return shapeT(x.T, names)
	case *StructV:
		if x.Base != nil && len(x.F) == 0 {
			return shapeT(x.Base, names)
		}
	case IfaceV:
		return x.T.String() + "(" + shape(x.V, names) + ")"
	case TupleV:
		var ss []string
		for _, y := range x {
			ss = append(ss, shape(y, names))
		}
		return "(" + strings.Join(ss, ",") + ")"
	case nil:
		return "none"
	}
	return v.key()
}

func shapeL(l Lin, names map[*Term]string) string {
	var ss []string
	for _, t := range l.T {
		ss = append(ss, fmt.Sprintf("%d*%s", t.K, shapeT(t.T, names)))
	}
	sort.Strings(ss)
	return fmt.Sprintf("%d+%s", l.C, strings.Join(ss, "+"))
}

func shapeT(t *Term, names map[*Term]string) string {
	if n, ok := names[t]; ok {
		return "<" + n + ">"
	}
	if len(t.Args) == 0 {
		return t.Op
	}
	var ss []string
	for _, a := range t.Args {
		ss = append(ss, shape(a, names))
	}
	return t.Op + "(" + strings.Join(ss, ",") + ")"
}

// seqWords are the words of a message's sequence number.
func seqWords(st *State, v Val) []Lin {
	switch v := v.(type) {
	case IntV:
		return []Lin{v.L}
	case SliceV:
		var ws []Lin
		for i := int64(0); i < 3; i++ {
			w, ok := st.elemAt(st.obj(v.Obj), v.Off.addC(i), "").(IntV)
			if !ok {
				return nil
			}
			ws = append(ws, w.L)
		}
		return ws
	}
	return nil
}

// ofWords is the value with the words of the sequence number replaced by names.
func ofWords(v Val, ws []Lin) string {
	names := map[*Term]string{}
	for i, w := range ws {
		if len(w.T) == 1 && w.T[0].K == 1 {
			n := fmt.Sprintf("w%d", i)
			if w.C != 0 {
				n += fmt.Sprintf("%+d", -w.C)
			}
			names[w.T[0].T] = n
		}
	}
	return shape(v, names)
}

// sameFn: v is the same function of the words ws (in st) as the pattern is of the words pw.
func sameFn(st *State, v Val, ws []Lin, pat Val, pw []Lin) bool {
	if len(ws) == 0 || len(ws) != len(pw) {
		return false
	}
	if a, ok := unIface(v).(IntV); ok {
		if b, ok := unIface(pat).(IntV); ok {
			ia, oka := v.(IfaceV)
			ib, okb := pat.(IfaceV)
			if oka != okb || oka && !types.Identical(ia.T, ib.T) {
				return false
			}
			l, whole := b.L, true
			for i, w := range pw {
				if len(w.T) != 1 || w.C != 0 || w.T[0].K != 1 {
					whole = false
					break
				}
				k := l.coef(w.T[0].T)
				l = l.sub(w.mulC(k)).add(ws[i].mulC(k))
			}
			if whole && st.eqL(l, a.L) {
				return true
			}
		}
	}
	return ofWords(v, ws) == ofWords(pat, pw)
}

// fieldNames names the terms the fields of a message other than its header and version hold.
func fieldNames(st *State, pt PtrV, t types.Type) map[*Term]string {
	m := map[*Term]string{}
	for _, q := range leafPaths(t) {
		if strings.Contains(q, "Header.") || q == ".Version" {
			continue
		}
		switch v := st.obj(pt.Obj).loadPath(pt.Path + q).(type) {
		case IntV:
			if len(v.L.T) == 1 && v.L.C == 0 && v.L.T[0].K == 1 {
				m[v.L.T[0].T] = q
			}
		case StrV:
			m[v.T] = q
		case SliceV:
			if v.Obj != "" {
				m[st.bytesVal(v).T] = q
			}
		}
	}
	return m
}

// oneField: exactly one of the fields occurs in the value; the value as a function of it.
func oneField(v Val, fields map[*Term]string) (fn, field string) {
	for t, q := range fields {
		if s := shape(v, map[*Term]string{t: "id"}); strings.Contains(s, "<id>") {
			if field != "" {
				return "", ""
			}
			fn, field = s, q
		}
	}
	return
}

// isNamed: the field path ends in one of the names.
func isNamed(path string, names ...string) bool {
	for _, n := range names {
		if strings.EqualFold(path, "."+n) {
			return true
		}
	}
	return false
}

// cliMatch gathers, for one protocol, how pending results are filed and found.
type cliMatch struct {
	*cliCase
	result  *types.Named
	seqMap  string // key of the map from sequence number
	idMap   string // and from message id
	key     Val    // the key of the sender, and the words of its message
	words   []Lin
	idFn    string // message id key as a function of the id
	hits    int
	reports int
}

func init() {
	register(&Check{ID: "K03", Level: "proof", Tech: "path-sensitive abstract interpretation of sender and receiver; key functions compared symbolically",
		Rule:  "Send and the receiver are interpreted for each protocol from arbitrary states, every write, decode and lookup failing or not. Send: before each submission is written, a new result with its phone number is filed in one map under a key K that is a function of the sequence number encoded in that frame, and the result carries K; when the write fails it is removed again under K, when it succeeds it is not removed and is kept for the caller. Receiver: a submit response is looked up exactly once in that map under the same function K of the response's sequence number; on a hit the result found, and only that one, gets the response's status and message id, and is filed in a second map under that id; a delivery that is a report is looked up there under the same function of the report's id, and on a hit that result gets the report's status; a miss and any other frame changes no result and files none.",
		Assum: []string{"a response carries the sequence number of its request (C04, S04 for this server)", "the session's connection, account and protocol do not change (K07)"},
		Run: func(r *Report) {
			r.atLeast("filed", 6)
			r.atLeast("found", 6)
			r.atLeast("unmatched", 10)
			t := r.P.cliTypes()
			recv := r.receiver(t)
			send := r.P.method(types.NewPointer(t.sess), "Send")
			if send == nil {
				panic(undecided("anchor: (*Session).Send not found"))
			}
			for _, n := range srvNames {
				r.guard(n, func() {
					m := &cliMatch{result: r.P.typ(sessPkg, "Result")}
					m.send(r, t, send, n)
					m.receive(r, t, recv, n)
				})
			}
		}})
}

func (m *cliMatch) send(r *Report, t *cliTypes, fn *ssa.Function, name string) {
	e := r.clientEngine(cliEvents...)
	c := &cliCase{r: r, t: t, name: name, pk: "codec/" + name, fn: fn, e: e}
	m.cliCase = c
	c.watchStat()
	st := newState(r.P.base)
	st.ctx = "api"
	args := symArgs(e, fn)
	var phone Val
	for i, q := range fn.Params {
		if pt, ok := args[i].(PtrV); ok {
			e.NotNil[pt.Obj] = true
		}
		c.cliState(st, args[i])
		if q.Type() == types.Typ[types.String] && phone == nil {
			phone = args[i]
		}
	}
	c.ends = r.rootEndsOf(fn, e, args, nil, st)
	n := 0
	for k := range c.ends {
		n += m.sent(&c.ends[k], phone)
	}
	if n == 0 {
		r.fail("filed", fullName(fn), fn.Pos(), name+" never", name+" client: no path writes a submission")
	}
}

// resultOf is the result a stored interface value points to.
func (m *cliMatch) resultOf(st *State, v Val) (PtrV, bool) {
	pt, ok := unIface(v).(PtrV)
	return pt, ok && pt.Path == "" && isObj(st.obj(pt.Obj), m.result)
}

// sent judges the submissions one path writes.
func (m *cliMatch) sent(x *srvEnd, phone Val) (n int) {
	r, st := m.r, x.st
	if x.panic {
		return
	}
	for i, w := range x.evs {
		if w.Kind != "netwrite" && w.Kind != "netwritefail" {
			continue
		}
		typ, obj, ok := frameMsg(w)
		if !ok {
			m.fail("filed", x, w, "bytes", "what is written is not the encoding of a message")
			continue
		}
		if typ != "Submit" {
			continue
		}
		var ws []Lin
		var filed *Ev
		for _, ev := range x.evs[:i] {
			switch {
			case ev.Kind == "encode" && ev.Args[0].key() == obj.key():
				ws = seqWords(st, ev.Args[2])
			case ev.Kind == "smstore" || ev.Kind == "smloadorstore" && ev.Extra == "stored":
				if _, ok := m.resultOf(st, ev.Args[2]); ok {
					if m.seqMap == "" {
						m.seqMap = ev.Args[0].key()
					}
					if ev.Args[0].key() == m.seqMap {
						filed = ev
					}
				}
			case ev.Kind == "netwrite" || ev.Kind == "netwritefail":
				filed = nil
			}
		}
		if ws == nil {
			m.fail("filed", x, w, "words", "the sequence number of the submission written is not known")
			continue
		}
		if filed == nil {
			m.fail("filed", x, w, "late", "a submission is written before its result is filed: the response may come first")
			continue
		}
		if m.key == nil {
			m.key, m.words = filed.Args[1], ws
			if !strings.Contains(ofWords(m.key, ws), "<w") {
				m.fail("filed", x, filed, "key", "the key a result is filed under does not depend on the sequence number sent")
				continue
			}
		} else if !sameFn(st, filed.Args[1], ws, m.key, m.words) {
			m.fail("filed", x, filed, "key", "the key a result is filed under is not the same function of the sequence number sent on every path")
			continue
		}
		res, _ := m.resultOf(st, filed.Args[2])
		o := st.obj(res.Obj)
		id, okI := o.loadPath(".SequenceId").(IntV)
		key, okK := unIface(filed.Args[1]).(IntV)
		ph := o.loadPath(".Phone")
		removed := false
		for _, ev := range x.evs[i:] {
			if ev.Kind == "smdelete" && ev.Args[0].key() == m.seqMap {
				if ev.Args[1].key() != filed.Args[1].key() {
					m.fail("filed", x, ev, "removes another", "removes a result filed under another key")
					return
				}
				removed = true
			}
		}
		switch {
		case !o.Alloc || m.shared(o):
			m.fail("filed", x, filed, "reused", "the result filed is not a new one")
		case okI && (!okK || !st.eqL(id.L, key.L)):
			m.fail("filed", x, filed, "carries", "the result does not carry the key it is filed under")
		case ph == nil || ph.key() != phone.key():
			m.fail("filed", x, filed, "phone", "the result does not carry the phone number of the message")
		case w.Kind == "netwritefail" && !removed:
			m.fail("filed", x, w, "left", "the result of a submission that could not be written is left behind")
		case w.Kind == "netwrite" && removed:
			m.fail("filed", x, w, "dropped", "the result of a submission that was written is removed")
		case w.Kind == "netwrite" && !m.kept(x, res):
			m.fail("filed", x, filed, "lost", "the result of a submission that was written is not kept for the caller")
		default:
			n++
			r.ok("filed", "")
		}
	}
	return
}

// shared: the variable is made once and used in every round of a loop.
func (m *cliMatch) shared(o *Obj) bool {
	for _, fn := range m.r.P.funcsOf(sessPkg, func(*ssa.Function) bool { return true }) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || a.Pos() != o.Site {
					continue
				}
				for _, u := range *a.Referrers() {
					if mi, ok := u.(*ssa.MakeInterface); ok && m.r.P.loopsAround(fn, mi.Block(), b) {
						return true
					}
					if c, ok := u.(ssa.CallInstruction); ok && m.r.P.loopsAround(fn, c.Block(), b) {
						return true
					}
				}
			}
		}
	}
	return false
}

// loopsAround: a loop of the function contains the block use and not the block made.
func (p *Program) loopsAround(fn *ssa.Function, use, made *ssa.BasicBlock) bool {
	for _, l := range p.info(fn).loops {
		if l.blocks[use] && !l.blocks[made] {
			return true
		}
	}
	return false
}

// kept: some list made on the path refers to the result.
func (m *cliMatch) kept(x *srvEnd, res PtrV) bool {
	for _, o := range x.st.heap {
		if o.Kind != OArr {
			continue
		}
		for _, v := range o.F {
			if pt, ok := unIface(v).(PtrV); ok && pt.Obj == res.Obj {
				return true
			}
		}
	}
	return false
}

func (m *cliMatch) receive(r *Report, t *cliTypes, fn *ssa.Function, name string) {
	c := r.receive(t, fn, name, func(c *cliCase) {
		stat := c.e.Track
		c.e.Track = func(o *Obj, path string) string {
			if isObj(o, m.result) {
				return "result" + path
			}
			return stat(o, path)
		}
	})
	m.cliCase = c
	for _, typ := range []string{"SubmitRsp", "Delivery"} {
		for k := range c.ends {
			if x := &c.ends[k]; !x.panic {
				m.received(x, typ)
			}
		}
	}
	if m.hits == 0 {
		r.fail("found", fullName(fn), fn.Pos(), name+" never", name+" client: no path finds the result of a response")
	}
	if m.reports == 0 && hasStr(cliRequests[c.pk], "Delivery") {
		r.fail("found", fullName(fn), fn.Pos(), name+" never reported", name+" client: no path finds the result of a report")
	}
}

// received judges one round of the receiver: first those with a response, then the others.
func (m *cliMatch) received(x *srvEnd, round string) {
	r, st := m.r, x.st
	var d *Ev
	for _, ev := range x.all("decode") {
		d = ev
	}
	typ := ""
	if d != nil {
		typ = typeName(d.Extra)
	}
	if (typ == "SubmitRsp") != (round == "SubmitRsp") {
		return
	}
	var loads, changes, wrs []*Ev
	files := func(ev *Ev) bool {
		_, ok := m.resultOf(st, ev.Args[2])
		return ok && !(ev.Kind == "smloadorstore" && ev.Extra != "stored")
	}
	for _, ev := range x.evs {
		switch {
		case ev.Kind == "smload":
			loads = append(loads, ev)
		case (ev.Kind == "smstore" || ev.Kind == "smloadorstore") && files(ev):
			changes = append(changes, ev)
		case ev.Kind == "smdelete" && (ev.Args[0].key() == m.seqMap || ev.Args[0].key() == m.idMap):
			changes = append(changes, ev)
		case ev.Kind == "wr" && strings.HasPrefix(fmt.Sprint(ev.Extra), "result."):
			wrs = append(wrs, ev)
		}
	}
	quiet := func(why string) {
		if len(changes) > 0 && typ == "SubmitRsp" && changes[0].Kind == "smdelete" && changes[0].Args[0].key() == m.seqMap && changes[0].Args[1].key() == loads[0].Args[1].key() {
			changes = changes[1:]
		}
		switch {
		case len(changes) > 0:
			m.fail("unmatched", x, changes[0], "files "+why, "files or removes a result after "+why)
		case len(wrs) > 0:
			m.fail("unmatched", x, wrs[0], "writes "+why, "changes a result after "+why)
		default:
			r.ok("unmatched", why)
		}
	}
	switch typ {
	case "SubmitRsp":
	case "Delivery":
		pt := d.Args[0].(PtrV)
		rep, known := m.asks(x, pt, "IsReport")
		if !known && (len(loads)+len(changes)+len(wrs) > 0) {
			m.fail("unmatched", x, d, "not told", "a delivery is used as a report without having been told from a message")
			return
		}
		rp, there := m.reportOf(x, pt)
		if !known || !rep || !there {
			quiet("a delivery that is no report")
			return
		}
		if len(loads) != 1 || loads[0].Args[0].key() != m.idMap {
			m.fail("found", x, d, "report lookup", fmt.Sprintf("a report is looked up %d times in the results filed by message id", len(loads)))
			return
		}
		own := fieldNames(st, rp, st.obj(rp.Obj).Typ)
		if fn, f := oneField(loads[0].Args[1], own); !isNamed(f, "msgId", "id") || fn != m.idFn {
			m.fail("found", x, loads[0], "report key", "a report is looked up under another form of the message id than the response filed")
			return
		}
		if is, known := st.decide(cTerm(mk("is:*"+m.result.String(), TermV{T: loads[0].Args[2].(TermV).T}))); loads[0].Extra != true || known && !is {
			quiet("a report of an unknown message")
			return
		}
		if len(changes) > 0 {
			m.fail("found", x, changes[0], "report files", "a report files or removes results")
			return
		}
		if m.wrote(x, loads[0], wrs, map[string]func(Val) bool{".Report": func(v Val) bool {
			s, isS := v.(StrV)
			return isS && isNamed(own[s.T], "stat")
		}}) {
			m.reports++
		}
		return
	default:
		quiet("another frame")
		return
	}
	// a submit response
	pt := d.Args[0].(PtrV)
	ts := st.obj(pt.Obj).Typ
	hp := headerPath(ts, "SequenceId", "SequenceNumber")
	ws := seqWords(st, st.obj(pt.Obj).loadPath(pt.Path+hp))
	if ws == nil {
		m.fail("found", x, d, "words", "the sequence number of the response is not known")
		return
	}
	if len(loads) != 1 || loads[0].Args[0].key() != m.seqMap {
		m.fail("found", x, d, "lookup", fmt.Sprintf("a response is looked up %d times in the results filed by sequence number", len(loads)))
		return
	}
	if !sameFn(st, loads[0].Args[1], ws, m.key, m.words) {
		m.fail("found", x, loads[0], "key", fmt.Sprintf("a response is looked up under another key than its submission was filed: %s, filed %s", ofWords(loads[0].Args[1], ws), ofWords(m.key, m.words)))
		return
	}
	is, known := st.decide(cTerm(mk("is:*"+m.result.String(), TermV{T: loads[0].Args[2].(TermV).T})))
	if loads[0].Extra != true || known && !is {
		quiet("an unknown response")
		return
	}
	var filed *Ev
	for _, ev := range changes {
		switch {
		case ev.Kind == "smdelete" && ev.Args[0].key() == m.seqMap && ev.Args[1].key() == loads[0].Args[1].key():
		case ev.Kind != "smdelete" && ev.Args[0].key() != m.seqMap && filed == nil:
			filed = ev
		default:
			m.fail("found", x, ev, "other", "a response files or removes another result")
			return
		}
	}
	if filed == nil {
		m.fail("found", x, loads[0], "not filed", "the result of a response is not filed under its message id")
		return
	}
	if m.idMap == "" {
		m.idMap = filed.Args[0].key()
	}
	if to, ok := m.resultOf(st, filed.Args[2]); !ok || !m.isHit(x, loads[0], to) {
		m.fail("found", x, filed, "files another", "another result than the one found is filed under the message id")
		return
	}
	own := fieldNames(st, pt, ts)
	fn, of := oneField(filed.Args[1], own)
	seq := ofWords(filed.Args[1], ws)
	all := true // the id may be the sequence number
	for i := range ws {
		all = all && strings.Contains(seq, fmt.Sprintf("<w%d>", i))
	}
	switch {
	case filed.Args[0].key() != m.idMap:
		m.fail("found", x, filed, "id map", "results are not all filed in the same map")
		return
	case !isNamed(of, "msgId") && !(fn == "" && all && m.pk == "codec/sgip"):
		m.fail("found", x, filed, "id key", "the key a result is filed under is not a function of the response's message id")
		return
	case m.idFn == "":
		m.idFn = fn
	case m.idFn != fn:
		m.fail("found", x, filed, "id key", "the key a result is filed under is not always the same function of the message id")
		return
	}
	if m.wrote(x, loads[0], wrs, map[string]func(Val) bool{
		".Result": func(v Val) bool {
			_, f := oneField(v, own)
			return isNamed(f, "result", "status")
		},
		".MsgId": func(v Val) bool { return v.key() == unIface(filed.Args[1]).key() },
	}) {
		m.hits++
	}
}

// isHit: the pointer is the value the lookup returned.
func (m *cliMatch) isHit(x *srvEnd, load *Ev, to PtrV) bool {
	pt, ok := symVal(mk("as:*"+m.result.String(), TermV{T: load.Args[2].(TermV).T}), types.NewPointer(m.result)).(PtrV)
	return ok && pt.Obj == to.Obj
}

// wrote: the result found, and no other, got the given fields.
func (m *cliMatch) wrote(x *srvEnd, load *Ev, wrs []*Ev, want map[string]func(Val) bool) bool {
	for q, is := range want {
		n := 0
		for _, ev := range wrs {
			to, ok := ev.Args[0].(PtrV)
			if !ok || !m.isHit(x, load, PtrV{Obj: to.Obj}) {
				m.fail("found", x, ev, "writes another", "another result than the one found is changed")
				return false
			}
			if ev.Extra == "result"+q {
				n++
				if !is(ev.Args[1]) {
					m.fail("found", x, ev, "value"+q, "the result found gets something else than the message's "+strings.ToLower(q[1:]))
					return false
				}
			}
		}
		if n == 0 {
			m.fail("found", x, load, "missing"+q, "the result found does not get the message's "+strings.ToLower(q[1:]))
			return false
		}
	}
	m.r.ok("found", m.name)
	return true
}

// asks evaluates a predicate of a message at the end of a path.
func (m *cliMatch) asks(x *srvEnd, pt PtrV, name string) (bool, bool) {
	outs := m.ask(x, pt, name)
	if len(outs) == 1 && len(outs[0].Res) == 1 {
		if b, ok := outs[0].Res[0].(BoolV); ok {
			return outs[0].St.decide(b.C)
		}
	}
	return false, false
}

func (m *cliMatch) ask(x *srvEnd, pt PtrV, name string) []Outcome {
	fn := m.r.P.method(types.NewPointer(x.st.obj(pt.Obj).Typ), name)
	if fn == nil {
		panic(undecided("anchor: %s of a delivery not found", name))
	}
	return m.e.Run(fn, []Val{pt}, nil, x.st.fork(), fn.Pos())
}

// reportOf is the report a delivery carries at the end of a path.
func (m *cliMatch) reportOf(x *srvEnd, pt PtrV) (PtrV, bool) {
	outs := m.ask(x, pt, "Report")
	if len(outs) != 1 || len(outs[0].Res) != 1 {
		panic(undecided("the report of a delivery"))
	}
	rp, ok := outs[0].Res[0].(PtrV)
	if !ok {
		return rp, false
	}
	nil_, known := x.st.decide(cTerm(mk("isnil", TermV{T: symObjs[rp.Obj].Sym.Args[0].(TermV).T})))
	return rp, known && !nil_
}
