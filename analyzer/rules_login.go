package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what a login check means

// atoms flattens a concatenation.
func atoms(v Val) []Val {
	s, ok := v.(StrV)
	if !ok {
		if t, ok := v.(TermV); ok {
			s = StrV{T: t.T}
		} else {
			return []Val{v}
		}
	}
	switch {
	case s.T.Op == "cat":
		return append(atoms(s.T.Args[0]), atoms(s.T.Args[1])...)
	case (s.T.Op == "ext:bytes.Join" || s.T.Op == "ext:strings.Join") && len(s.T.Args) == 2:
		if sep, ok := s.T.Args[1].(StrV); ok {
			if l, ok := sep.lit(); ok && l == "" {
				if list, ok := s.T.Args[0].(TupleV); ok {
					var r []Val
					for _, x := range list {
						r = append(r, atoms(x)...)
					}
					return r
				}
			}
		}
	}
	return []Val{s}
}

// joined is the text of a concatenation: literals next to each other run together.
func joined(v Val) string {
	var b strings.Builder
	lit := ""
	flush := func() {
		if lit != "" {
			fmt.Fprintf(&b, "%q+", lit)
			lit = ""
		}
	}
	for _, a := range atoms(v) {
		if s, ok := a.(StrV); ok {
			if l, ok := s.lit(); ok {
				lit += l
				continue
			}
			flush()
			b.WriteString(s.T.String() + "+")
			continue
		}
		flush()
		b.WriteString(show(a) + "+")
	}
	flush()
	return b.String()
}

// loginChecks: a login check succeeds exactly when the account exists, the major version is the
// account's and the authenticator (or name and password) is the account's.
func (r *Report) loginChecks() {
	p := r.P
	for _, n := range srvNames {
		t := p.loginTypes()[n]
		fn := p.method(types.NewPointer(t), "Check")
		if fn == nil || len(fn.Params) != 2 {
			panic(undecided("anchor: login check of %s not found", n))
		}
		r.root(fn)
		vers := []int64{0}
		if typeAt(t, ".Version") != nil {
			vers = []int64{0x10, 0x20, 0x21, 0x30, 0x31, 0x40}
		}
		for _, va := range vers {
			for _, vb := range vers {
				r.guard(fmt.Sprintf("%s check, version %#x against %#x", n, va, vb), func() { r.loginCheck(n, t, fn, va, vb) })
			}
		}
	}
}

func (r *Report) loginCheck(n string, t *types.Named, f *ssa.Function, va, vb int64) {
	p := r.P
	for _, isNil := range []bool{true, false} {
		e := NewEngine(p)
		e.NoMerge = true
		e.Want["md5"] = true
		e.Skip = returnsLogFields
		e.CallHook["crypto/md5.Sum"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
			e.event(c.St, "md5", c.Pos, "", nil, c.St.bytesVal(c.Args[0].(SliceV)))
			return nil, false
		}
		st := newState(p.base)
		args := symArgs(e, f)
		lg, _ := e.asPtr(st, args[0], nil, f.Pos())
		var ac PtrV
		if isNil {
			args[1] = NilV{}
		} else {
			ac, _ = e.asPtr(st, args[1], nil, f.Pos())
			st.storePath(ac.Obj, ".Version", IntV{linC(vb)})
		}
		if va != 0 {
			st.storePath(lg.Obj, ".Version", IntV{linC(va)})
		}
		of := func(st *State, pt PtrV, path string) Val { return st.obj(pt.Obj).loadPath(path) }
		want := map[string]Val{}
		if !isNil {
			want["name"], want["secret"] = of(st, ac, ".LoginName"), of(st, ac, ".SharedSecret")
			if n != "sgip" {
				zeros := map[string]int{"cmpp": 9, "smgp": 7}[n]
				ts := mk("ext:fmt.Sprintf", litStr("%010d"), TupleV{of(st, lg, ".timestamp")})
				want["input"] = TupleV{of(st, ac, ".ClientId"), litStr(strings.Repeat("\x00", zeros)), of(st, ac, ".SharedSecret"), TermV{T: ts}}
			}
		}
		outs := e.Run(f, args, nil, st, f.Pos())
		nOK := 0
		for _, o := range outs {
			what := fmt.Sprintf("%s %s.Check (login version %#x, account version %#x, account missing: %v)", n, t.Obj().Name(), va, vb, isNil)
			if o.Panic || len(o.Res) != 1 {
				r.fail("credentials", fullName(f), f.Pos(), n+" panics", what+" does not return")
				continue
			}
			res, ok := o.Res[0].(IntV)
			if !ok {
				panic(undecided("result of %s is not a number", fullName(f)))
			}
			code, ok := o.St.constOf(res.L)
			if !ok {
				panic(undecided("result of %s is not decided", fullName(f)))
			}
			may := !isNil && va&0xf0 == vb&0xf0
			if code == 0 {
				nOK++
				if !may {
					r.fail("credentials", fullName(f), f.Pos(), n+" version or account", what+" succeeds")
					continue
				}
			}
			if !may {
				r.ok("credentials", "")
				continue
			}
			match, decided := r.credentialMatch(n, t, e, &o, lg, want)
			switch {
			case !decided:
				r.fail("credentials", fullName(f), f.Pos(), n+" undetermined", what+": a path answers "+fmt.Sprint(code)+" without having compared the credentials with the account's")
			case match != (code == 0):
				r.fail("credentials", fullName(f), f.Pos(), n+" wrong", fmt.Sprintf("%s answers %d although the credentials match: %v", what, code, match))
			default:
				r.ok("credentials", what)
			}
		}
		if !isNil && va&0xf0 == vb&0xf0 && nOK == 0 {
			r.fail("credentials", fullName(f), f.Pos(), n+" never", n+": no path accepts a login")
		}
		r.done(e, len(outs))
	}
}

// credentialMatch: does the path know that the credentials are (or are not) the account's?
func (r *Report) credentialMatch(n string, t *types.Named, e *Engine, o *Outcome, lg PtrV, want map[string]Val) (match, decided bool) {
	st := o.St
	of := func(path string) Val { return st.obj(lg.Obj).loadPath(path) }
	if n == "sgip" {
		all := true
		for k, path := range map[string]string{"name": ".LoginName", "secret": ".LoginPassword"} {
			v, known := st.decide(e.equal(st, want[k], of(path)))
			if known && !v {
				return false, true
			}
			all = all && known
		}
		return true, all
	}
	auth := ""
	for _, q := range leafPaths(t) {
		if strings.HasPrefix(strings.ToLower(q), ".authenticator") {
			auth = q
		}
	}
	exp := ""
	for _, x := range want["input"].(TupleV) {
		exp += joined(x)
	}
	for b, val := range st.bools {
		if b.Op != "streq" {
			continue
		}
		var other *Term
		av := of(auth)
		at := ""
		switch x := av.(type) {
		case SliceV:
			at = st.bytesVal(x).T.String()
		case StrV:
			at = x.T.String()
		}
		for i, a := range b.Args {
			if s, ok := a.(StrV); ok && s.T.String() == at {
				if q, ok := b.Args[1-i].(StrV); ok {
					other = q.T
				}
			}
		}
		for other != nil && (other.Op == "sub" || other.Op == "arr") {
			switch x := other.Args[0].(type) {
			case TermV:
				other = x.T
			case StrV:
				other = x.T
			default:
				other = nil
			}
		}
		if other == nil || other.Op != "ext:crypto/md5.Sum" {
			continue
		}
		in := joined(other.Args[0])
		if in != exp {
			r.fail("credentials", fullName(r.P.method(types.NewPointer(t), "Check")), r.P.method(types.NewPointer(t), "Check").Pos(), n+" digest",
				fmt.Sprintf("%s: the authenticator is compared with the digest of %s, not of %s", n, in, exp))
		}
		return val, true
	}
	return false, false
}

// ---- logging in

// loginHooks summarises account lookup, the copy of an account and the login check.
func (c *srvCase) loginHooks() {
	e, p := c.e, c.r.P
	for _, w := range []string{"findacct", "copyacct", "check", "lock", "unlock", "newlimiter", "every", "makechan", "newpool"} {
		e.Want[w] = true
	}
	e.acctHooks()
	for _, n := range srvNames {
		t := p.loginTypes()[n]
		fn := p.method(types.NewPointer(t), "Check")
		if fn == nil {
			panic(undecided("anchor: login check of %s not found", n))
		}
		e.CallHook[fullName(fn)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
			st := c.St
			var outs []Outcome
			// success implies an account (shown by the credentials rule)
			if ac, ok := c.Args[1].(PtrV); ok {
				s := st.fork()
				if q, ok := e.asPtrQuiet(s, ac); ok {
					e.event(s, "check", c.Pos, "", t, c.Args[0], q, IntV{linC(0)})
					outs = append(outs, Outcome{St: s, Res: []Val{IntV{linC(0)}}})
				}
			}
			res := mkR("checkfail", &rng{1, 255, true, true}, TermV{T: e.fresh(st, "check", c.Pos)})
			e.event(st, "check", c.Pos, "", t, c.Args[0], c.Args[1], IntV{linT(res)})
			return append(outs, Outcome{St: st, Res: []Val{IntV{linT(res)}}}), true
		}
	}
}

// asPtrQuiet assumes a pointer is not nil.
func (e *Engine) asPtrQuiet(st *State, pt PtrV) (PtrV, bool) {
	if so := symObjs[pt.Obj]; pt.Path == "" && so != nil && so.Sym != nil && len(so.Sym.Args) == 1 && !e.NotNil[pt.Obj] {
		if t, ok := so.Sym.Args[0].(TermV); ok && !st.assume(cTerm(mk("isnil", TermV{T: t.T})).not()) {
			return pt, false
		}
	}
	return pt, true
}

// acctHooks: an account is found or not; a copy has the fields of the same name and type.
func (e *Engine) acctHooks() {
	find := func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		st := c.St
		args := c.Args[len(c.Args)-2:]
		f := st.fork()
		v := c.res(st, "account")[0].(PtrV)
		e.asPtrQuiet(st, v)
		e.event(st, "findacct", c.Pos, "", nil, args[0], args[1], v)
		e.event(f, "findacct", c.Pos, "", nil, args[0], args[1], NilV{})
		return []Outcome{{St: st, Res: []Val{v}}, {St: f, Res: []Val{NilV{}}}}, true
	}
	for _, n := range []string{"iface auth.Store.FindByCid", "(*auth.YamlStore).FindByCid", "(*auth.MongoStore).FindByCid"} {
		e.CallHook[n] = find
	}
	e.CallHook["utils.StructCopy"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		a, ok1 := unIface(c.Args[0]).(PtrV)
		b, ok2 := unIface(c.Args[1]).(PtrV)
		if !ok1 || !ok2 {
			return nil, false
		}
		st := c.St
		oa, ob := st.obj(a.Obj), st.obj(b.Obj)
		if oa == nil || ob == nil || a.Path != "" || b.Path != "" {
			return nil, false
		}
		ta, k1 := oa.Typ.Underlying().(*types.Struct)
		tb, k2 := ob.Typ.Underlying().(*types.Struct)
		if !k1 || !k2 {
			return nil, false
		}
		for i := 0; i < tb.NumFields(); i++ {
			for j := 0; j < ta.NumFields(); j++ {
				if tb.Field(i).Name() == ta.Field(j).Name() && types.Identical(tb.Field(i).Type(), ta.Field(j).Type()) {
					path := "." + tb.Field(i).Name()
					st.storePath(b.Obj, path, e.load(st, PtrV{Obj: a.Obj, Path: path}, ta.Field(j).Type(), c.Pos))
				}
			}
		}
		e.event(st, "copyacct", c.Pos, "", nil, a, b)
		return c.ret(st), true
	}
}

// login judges one end of a login request.
func (c *srvCase) login(x *srvEnd) {
	r, p := c.r, c.r.P
	dec := x.all("decode")
	if len(x.all("decodefail")) > 0 || len(dec) == 0 {
		if x.consumed() {
			r.check(p.action(x) == "close", "answered", "OnTraffic", c.where, c.name+" undecodable", c.name+": a login that cannot be read leaves the connection open")
		}
		if len(x.loginWrites(c.t)) > 0 {
			c.fail("login", x, x.loginWrites(c.t)[0], "unread", "a session is logged in without a login request")
		}
		return
	}
	lg := dec[0].Args[0].(PtrV)
	code, resp, ok := c.answer(x, lg)
	if !ok {
		return
	}
	idPath := ""
	for _, q := range leafPaths(p.loginTypes()[c.name]) {
		if strings.EqualFold(q, "."+map[string]string{"cmpp": "SourceAddr", "sgip": "LoginName", "smgp": "ClientID"}[c.name]) {
			idPath = q
		}
	}
	if idPath == "" {
		panic(undecided("anchor: account name of the %s login not found", c.name))
	}
	logins := x.loginWrites(c.t)
	if resp == nil {
		// handed to nobody: must close
		if len(logins) > 0 {
			c.fail("login", x, logins[0], "unanswered", "a session is logged in without a response to its login")
		}
		return
	}
	zero, known := x.st.decide(cEqL(code, linC(0)))
	if !known {
		c.fail("login", x, resp, "code", "the status of the login response is not determined by the outcome of the checks")
		return
	}
	for _, w := range logins {
		if !ownSess(w.Args[0]) {
			c.fail("login", x, w, "other session", "a session other than the one that asked is logged in")
		}
		if !zero {
			c.fail("login", x, w, "refused", "a session is logged in although the response refuses the login")
		}
	}
	if zero {
		if why := c.entitled(x, resp, lg, idPath); why != "" {
			c.fail("login", x, resp, why, "the response accepts a login "+why)
			return
		}
		r.ok("login", c.name+" accepted after account, credentials and limit")
	} else {
		r.ok("login", c.name+" refused")
	}
	if len(logins) == 0 && resp.Kind == "asyncwrite" {
		closed, mark := false, false
		for _, ev := range x.evs {
			if ev.Kind == "close" && ownConn(ev.Args[0]) {
				closed = true
			}
			if fieldEv(ev, "wr", "session"+c.t.stat) && stateIs(x.st, ev.Args[1], c.t.closed) {
				mark = true
			}
		}
		r.check(closed && mark, "refusal-closes", p.funcAt(resp.Pos), resp.Pos, c.name, fmt.Sprintf("%s: after a refused login the connection is not closed (closed: %v, session marked closing: %v)", c.name, closed, mark))
	}
}

func (x *srvEnd) loginWrites(t *srvTypes) []*Ev {
	var r []*Ev
	for _, ev := range x.evs {
		if fieldEv(ev, "wr", "session"+t.stat) && stateIs(x.st, ev.Args[1], t.login) {
			r = append(r, ev)
		}
	}
	return r
}

// entitled says what is missing before event w: a stored account found for the login's name,
// checked with success, and admitted under its limit.
func (c *srvCase) entitled(x *srvEnd, w *Ev, lg PtrV, idPath string) string {
	st := x.st
	var acct, copied Val
	checked, admitted := false, false
	for _, ev := range x.evs {
		if ev == w {
			break
		}
		switch ev.Kind {
		case "findacct":
			isp, _ := ev.Args[0].(StrV)
			l, ok := isp.lit()
			id := st.obj(lg.Obj).loadPath(lg.Path + idPath)
			if _, isNil := ev.Args[2].(NilV); isNil || !ok || !strings.EqualFold(l, c.name) || ev.Args[1].key() != id.key() {
				continue
			}
			acct = ev.Args[2]
		case "copyacct":
			if acct != nil && ev.Args[0].key() == acct.key() {
				copied = ev.Args[1]
			}
		case "check":
			k := ev.Args[1].key()
			if ev.Args[0].key() == lg.key() && (acct != nil && k == acct.key() || copied != nil && k == copied.key()) && st.eqL(ev.Args[2].(IntV).L, linC(0)) {
				checked = true
			}
		case "wr":
			if fieldEv(ev, "wr", "session.clientId") && ownSess(ev.Args[0]) && acct != nil {
				if v, ok := ev.Args[1].(StrV); ok && v.key() == st.obj(acct.(PtrV).Obj).loadPath(".ClientId").key() && c.serverLocked(ev) {
					admitted = true
				}
			}
		}
	}
	switch {
	case acct == nil:
		return "without having found the account the request names"
	case !checked:
		return "without a successful check of the request against the account"
	case !admitted:
		return "without having admitted the session to the account's connections"
	}
	return ""
}

// serverLocked: the server's own lock is held at the event.
func (c *srvCase) serverLocked(ev *Ev) bool {
	for _, l := range strings.Split(ev.Locks, ",") {
		if strings.HasSuffix(lockClass[l], "/server.Server.Mutex") || strings.HasSuffix(lockClass[l], "server.Server.Mutex") {
			return true
		}
	}
	return false
}

// answer finds the one response to a request: its code and the write that sends it (nil when the
// connection is closed instead).
func (c *srvCase) answer(x *srvEnd, req PtrV) (code Lin, resp *Ev, ok bool) {
	r, p := c.r, c.r.P
	codes := map[string]Val{}
	body := map[string]string{}
	for _, ev := range x.all("respond") {
		if ev.Args[0].key() == req.key() {
			if pt, ok := unIface(ev.Args[2]).(PtrV); ok {
				codes[pt.Obj] = ev.Args[1]
				body[pt.Obj], _ = ev.Extra.(string)
			}
		}
	}
	closed := p.action(x) == "close"
	for _, ev := range x.evs {
		switch ev.Kind {
		case "close":
			if ownConn(ev.Args[0]) {
				closed = true
			}
		case "asyncwrite", "writefail", "loopwrite":
			t, obj, known := frameMsg(ev)
			if !known {
				c.fail("answered", x, ev, "bytes", "sends bytes that are not the encoding of a message")
				return
			}
			v, mine := codes[obj.Obj]
			if !mine {
				if c.isResponse(t) {
					c.fail("answered", x, ev, "foreign "+t, "sends a "+t+" that was not made from the request")
					return
				}
				continue
			}
			if !ownConn(ev.Args[0]) {
				c.fail("answered", x, ev, "elsewhere", "sends the response to another connection")
				return
			}
			if !c.sameHead(x, ev, obj, req) {
				c.fail("answered", x, ev, "sequence", "the response does not carry the request's sequence number and paired command")
				return
			}
			if f := frameTerm(ev); f == nil || f.Args[1].key() != body[obj.Obj] {
				c.fail("answered", x, ev, "altered", "the response is changed after it was made from the request and the status")
				return
			}
			if resp != nil {
				c.fail("answered", x, ev, "twice", "the request is answered more than once")
				return
			}
			resp = ev
			iv, isInt := v.(IntV)
			if !isInt {
				panic(undecided("response code %s", show(v)))
			}
			code = iv.L
		}
	}
	if resp == nil && !closed {
		c.fail("answered", x, nil, "silent", "the request is neither answered nor is the connection closed")
		return
	}
	if resp != nil {
		r.ok("answered", "")
	} else {
		r.ok("answered", "connection closed instead")
	}
	return code, resp, true
}

func (c *srvCase) isResponse(t string) bool {
	for _, sp := range specs[c.pk] {
		if sp.typ == t {
			return sp.cmd&respBit != 0
		}
	}
	return false
}

// sameHead: what was encoded for this write carried the request's sequence number and the paired command.
func (c *srvCase) sameHead(x *srvEnd, w *Ev, resp, req PtrV) bool {
	cmd, ok := c.cmdOf(x)
	return ok && x.sameHead(w, resp, req, streamWord(x.st, 8), cmd)
}

func (x *srvEnd) sameHead(w *Ev, resp, req PtrV, seq Lin, cmd int64) bool {
	var enc *Ev
	for _, ev := range x.evs {
		if ev == w {
			break
		}
		if ev.Kind == "encode" && ev.Args[0].key() == resp.key() {
			enc = ev
		}
		if ev.Kind == "decode" && ev.Args[0].key() == req.key() {
			if n, ok := ev.Args[1].(IntV); !ok || !x.st.eqL(n.L, seq) {
				return false
			}
		}
	}
	if enc == nil {
		return false
	}
	if v, ok := enc.Args[3].(IntV); !ok || !x.st.eqL(v.L, linC(cmd|respBit)) {
		return false
	}
	switch v := enc.Args[2].(type) {
	case IntV:
		return x.st.eqL(v.L, seq)
	case SliceV:
		// SGIP: the three words are the request's own, compared word by word by C04
		rq, ok := x.st.obj(req.Obj).loadPath(req.Path + headerPath(x.st.obj(req.Obj).Typ, "SequenceNumber")).(SliceV)
		if !ok {
			return false
		}
		if v.key() == rq.key() {
			return true
		}
		for i := int64(0); i < 3; i++ {
			a, ok1 := x.st.elemAt(x.st.obj(v.Obj), v.Off.addC(i), "").(IntV)
			b, ok2 := x.st.elemAt(x.st.obj(rq.Obj), rq.Off.addC(i), "").(IntV)
			if !ok1 || !ok2 || !x.st.eqL(a.L, b.L) {
				return false
			}
		}
		return true
	}
	return false
}

func init() {
	register(&Check{ID: "S02", Level: "proof", Tech: "path-sensitive abstract interpretation: required-evidence rule on every path to an accepting login response",
		Rule: "Every path of the login handlers of the three protocols (event loop, worker task, write callback) is followed from an arbitrary login request; a response with status 0, and a transition of the session to logged-in, must be preceded on the path by finding the stored account under this server's name and the account name in the request, a successful Check of this request against that account, and an admission that put the session under the account while holding the server lock; every other path answers with a non-zero status exactly once, marks the session closing and closes the connection. Each Check method is interpreted for every pair of major versions with and without an account: status 0 iff account present, major versions equal and authenticator = MD5(client id, zeros, secret, timestamp) (SGIP: name and secret equal).",
		Run: func(r *Report) {
			r.atLeast("credentials", 60)
			r.atLeast("login", 12)
			r.atLeast("refusal-closes", 6)
			r.atLeast("answered", 12)
			r.loginChecks()
			r.srvCases(append([]string{"encode"}, srvEvents...), func(role string, _ int64) bool { return role == "login" }, (*srvCase).loginHooks, func(c *srvCase) {
				for k := range c.ends {
					c.login(&c.ends[k])
				}
			})
		}})
}
