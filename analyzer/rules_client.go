package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the checks on the client share.

const (
	cliPkg  = "smc_client"
	sessPkg = "smc_client/session"
)

var cliEvents = []string{"netwrite", "netwritefail", "readfull", "netread", "readerr", "netclose", "dial", "dialok", "decode", "decodefail", "encode", "respond", "go", "send", "recv", "smload", "smstore", "smdelete", "smloadorstore", "range", "rd", "wr", "lock", "unlock", "now", "sleep", "chclose", "dyncall", "submit", "submitfail", "select", "deadline"}

// client interprets a function of the client for a carrier protocol.
func (r *Report) client(fn *ssa.Function, name string, e *Engine) []srvEnd {
	st := newState(r.P.base)
	st.ctx = "api"
	args := symArgs(e, fn)
	var binds []Val
	for _, b := range fn.FreeVars {
		v := symVal(mk("free:"+b.Name()+":"+fullName(fn)), b.Type())
		if pt, ok := v.(PtrV); ok {
			e.NotNil[pt.Obj] = true
		}
		binds = append(binds, v)
	}
	fix := func(v Val) {
		pt, ok := v.(PtrV)
		if !ok || name == "" {
			return
		}
		for i, q := range fn.Params {
			if e.MayNil["arg:"+fn.String()+"."+q.Name()] && args[i].key() == v.key() {
				return
			}
		}
		if q, ok := e.asPtr(st, pt, nil, 0); ok {
			pt = q
		}
		o := st.obj(pt.Obj)
		if o == nil {
			return
		}
		if strings.HasPrefix(o.Typ.String(), "*") { // a captured variable
			if in, ok := o.loadPath("").(PtrV); ok {
				if q, ok := e.asPtr(st, in, nil, 0); ok {
					pt, o = q, st.obj(q.Obj)
				}
			}
		}
		if o != nil && strings.HasSuffix(o.Typ.String(), sessPkg+".Session") {
			st.storePath(pt.Obj, ".serverName", litStr(name))
		}
	}
	for _, v := range append(append([]Val{}, args...), binds...) {
		fix(v)
	}
	for i, q := range fn.Params {
		if q.Type().String() == "string" && q.Name() == "isp" && name != "" {
			args[i] = litStr(name)
		}
	}
	return r.rootEndsOf(fn, e, args, binds, st)
}

func (r *Report) clientEngine(want ...string) *Engine {
	e := r.srvEngine(want...)
	e.OneIter = nil
	return e
}

// cliTypes are the client's session type and its fields, found by their types.
type cliTypes struct {
	sess                          *types.Named
	con, conf, name, stat, cancel string
	login, fresh, closing         int64
	make                          *ssa.Function // makes a session for a connection
	ctorConf, ctorName, ctorCon   int           // its parameters
}

func (p *Program) cliTypes() *cliTypes {
	t := &cliTypes{sess: p.typ(sessPkg, "Session")}
	for _, q := range leafPaths(t.sess) {
		ft := typeAt(t.sess, q)
		switch {
		case types.Unalias(ft).String() == "net.Conn":
			t.con = q
		case strings.HasSuffix(ft.String(), "codec.AuthConf"):
			t.conf = q
		case ft == types.Typ[types.String]:
			t.name = q
		}
		if n, ok := ft.(*types.Named); ok && n.Obj().Name() == "stat" && n.Obj().Pkg() == t.sess.Obj().Pkg() {
			t.stat = q
		}
		if _, ok := ft.Underlying().(*types.Chan); ok {
			t.cancel = q
		}
	}
	if t.con == "" || t.conf == "" || t.name == "" || t.stat == "" {
		panic(undecided("anchor: connection, account, protocol or state of the client session not found"))
	}
	t.login, t.fresh, t.closing = p.localConst(sessPkg, "StatLogin"), p.localConst(sessPkg, "StatConnect"), p.localConst(sessPkg, "StatClosing")
	for _, fn := range p.funcsOf(sessPkg, func(f *ssa.Function) bool {
		return f.Parent() == nil && token.IsExported(f.Name()) && f.Signature.Recv() == nil
	}) {
		rs := fn.Signature.Results()
		if rs.Len() != 1 || !types.Identical(rs.At(0).Type(), types.NewPointer(t.sess)) {
			continue
		}
		t.make = fn
		for i, q := range fn.Params {
			switch ts := types.Unalias(q.Type()).String(); {
			case ts == "net.Conn":
				t.ctorCon = i
			case strings.HasSuffix(ts, "codec.AuthConf"):
				t.ctorConf = i
			case ts == "string":
				t.ctorName = i
			}
		}
	}
	if t.make == nil || len(t.make.Params) != 3 {
		panic(undecided("anchor: the function that makes a client session was not found"))
	}
	return t
}

// cliCase is one client function analysed for one protocol.
type cliCase struct {
	r     *Report
	t     *cliTypes
	name  string // protocol
	pk    string
	fn    *ssa.Function
	e     *Engine
	args  []Val
	ends  []srvEnd
	extra string // which variant
}

func (c *cliCase) fail(rule string, x *srvEnd, ev *Ev, key, msg string) {
	pos, fn := c.fn.Pos(), fullName(c.fn)
	if ev != nil {
		pos = ev.Pos
		fn = c.r.P.funcAt(pos)
	}
	who := c.name + " client"
	if c.name == "" {
		who = "client"
	}
	c.r.fail(rule, fn, pos, c.name+" "+fn2(c.fn)+" "+key, fmt.Sprintf("%s, %s%s: %s", who, fn2(c.fn), c.extra, msg), traceStr(c.r.P, x.evs)...)
}

func typeName(x any) string {
	t, _ := x.(types.Type)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// isFieldOf: the address is that of the given top-level field.
func isFieldOf(fa *ssa.FieldAddr, n *types.Named, path string) bool {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), n) {
		return false
	}
	return "."+n.Underlying().(*types.Struct).Field(fa.Field).Name() == path
}

func fn2(f *ssa.Function) string {
	s := fullName(f)
	return s[strings.LastIndex(s, "/")+1:]
}

func dbgClient(p *Program) {
	r := newReport(p, &Check{ID: "dbg"}, false)
	for _, pk := range []string{sessPkg, cliPkg, "auth", "event_manager"} {
		for _, fn := range p.funcsOf(pk, func(f *ssa.Function) bool { return strings.HasSuffix(fullName(f), os.Getenv("GOSMS_ROOT")) }) {
			e := r.clientEngine(cliEvents...)
			e.NoSpawn = os.Getenv("GOSMS_SPAWN") == ""
			w := r.lockWorld()
			e.Track = nil
			if os.Getenv("GOSMS_TRACK") != "" {
				w.watch(e)
			}
			ends := r.client(fn, os.Getenv("GOSMS_NAME"), e)
			fmt.Println("=====", fullName(fn), len(ends), "ends", e.steps, "steps")
			for i, x := range ends {
				fmt.Println("--", i, "panic", x.panic, "ret", x.ret, "result", x.act)
				for _, s := range traceStr(p, x.evs) {
					fmt.Println("     ", s)
				}
			}
		}
	}
}
