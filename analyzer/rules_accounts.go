package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Whether a lookup sees the stored accounts, all of them and whole.

const authPkg = "auth"

func init() {
	register(&Check{ID: "A01", Level: "proof", Tech: "path-sensitive abstract interpretation of load, lookup and conversion of accounts, store content and failures symbolic; field-by-field comparison of the account types",
		Rule:  "The loading of each store is interpreted for arbitrary content and for every way a read can fail: the table others see is only ever replaced, once per load, by a map made in this load that is not changed afterwards, under the lock lookups take, after the whole store was gone over; a load with a failed read replaces nothing, and does not end the process once a table was loaded. In an arbitrary round an account that was decoded is put into the new map under the key under which the lookup looks for its carrier and id; a file account that cannot be decoded keeps its previous entry. For account file names of every accepted form the key is the one a lookup for the carrier and the id of the name uses, and files of other names are left alone. A lookup returns what the table holds under the key of exactly the pair given. The accounts are loaded before New returns and on every tick. The conversion asks for exactly the pair given, and every field of what it returns is the field of the same name of what was found; the copying utility sets every field that has a counterpart.",
		Assum: []string{"a store file is written in one step by its editor", "a document of the database that cannot be decoded is reported and left out"},
		Run: func(r *Report) {
			r.atLeast("replaced", 2)
			r.atLeast("kept", 3)
			r.atLeast("filed", 2)
			r.atLeast("named", 8)
			r.atLeast("lookup", 2)
			r.atLeast("refreshed", 2)
			r.atLeast("locked", 4)
			r.atLeast("converted", 2)
			r.atLeast("field", 10)
			r.atLeast("copied", 1)
			a := newAccounts(r)
			for _, t := range a.stores {
				r.guard("load "+t.Obj().Name(), func() { a.load(t, "") })
				r.guard("names "+t.Obj().Name(), func() { a.names(t) })
				r.guard("lookup "+t.Obj().Name(), func() { a.lookup(t) })
			}
			r.guard("refresh", func() { a.refresh() })
			r.guard("conversion", func() { a.conversion() })
			r.guard("copy", func() { a.copier() })
		}})
}

type accounts struct {
	*cliCase
	client *types.Named
	stores []*types.Named
	table  map[*types.Named]string // field that holds the table
}

func newAccounts(r *Report) *accounts {
	a := &accounts{cliCase: &cliCase{r: r, t: r.P.cliTypes()}, client: r.P.typ(authPkg, "Client"), table: map[*types.Named]string{}}
	pk := r.P.pkg(authPkg)
	a.stores = r.P.implementers(pk, r.P.iface(authPkg, "Store"))
	for _, t := range a.stores {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(undecided("anchor: store %s is not a structure", t))
		}
		for i := 0; i < s.NumFields(); i++ {
			if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && types.Identical(m.Elem(), types.NewPointer(a.client)) {
				if a.table[t] != "" {
					panic(undecided("anchor: several tables in %s", t))
				}
				a.table[t] = "." + s.Field(i).Name()
			}
		}
		if a.table[t] == "" {
			panic(undecided("anchor: table of %s not found", t))
		}
	}
	if len(a.stores) < 2 {
		panic(undecided("anchor: account stores not found"))
	}
	return a
}

// engine reports reads of a store and what becomes of them.
func (a *accounts) engine(t *types.Named) *Engine {
	e := a.r.srvEngine("mapset", "mapget", "mapdelete", "rd", "wr", "read", "decoded", "decodefail", "exit", "loads", "go", "cfg", "every")
	e.NoMerge = true
	e.NoSpawn = true
	if t != nil {
		e.Track = func(o *Obj, path string) string {
			if isObj(o, t) && path == a.table[t] {
				return "table"
			}
			return ""
		}
		e.Shared = func(typ types.Type, path string) bool { return types.Identical(typ, t) && path == a.table[t] }
	}
	// a read succeeds or fails
	read := func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		n := c.Sig.Results().Len()
		if n == 0 {
			return nil, false
		}
		var ok, no []Val
		f := c.St.fork()
		for i := 0; i < n-1; i++ {
			v := e.freshVal(c.St, "read", c.Pos, c.Sig.Results().At(i).Type())
			if pt, isP := v.(PtrV); isP {
				e.NotNil[pt.Obj] = true
			}
			ok = append(ok, v)
			no = append(no, zeroVal(c.Sig.Results().At(i).Type()))
		}
		e.event(c.St, "read", c.Pos, c.Name+" ok", readEv{c.Name, "ok"}, append(append([]Val{}, ok...), c.Args...)...)
		e.event(f, "read", c.Pos, c.Name+" fails", readEv{c.Name, "fails"})
		return []Outcome{{St: c.St, Res: append(ok, errNil)}, {St: f, Res: append(no, c.errVal(f, "read"))}}, true
	}
	for _, n := range []string{"io/ioutil.ReadDir", "os.ReadDir", "io/ioutil.ReadFile", "os.ReadFile", "os.Open", "os.Stat", "path/filepath.Glob",
		"(*go.mongodb.org/mongo-driver/mongo.Collection).Find", "(*go.mongodb.org/mongo-driver/mongo.Cursor).Err"} {
		e.CallHook[n] = read
	}
	e.CallHook["(*go.mongodb.org/mongo-driver/mongo.Cursor).Next"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		f := c.St.fork()
		e.event(c.St, "read", c.Pos, c.Name+" next", readEv{c.Name, "next"})
		e.event(f, "read", c.Pos, c.Name+" end", readEv{c.Name, "end"})
		return []Outcome{{St: c.St, Res: []Val{BoolV{cTrue}}}, {St: f, Res: []Val{BoolV{cFalse}}}}, true
	}
	decode := func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		st := c.St
		pt, ok := unIface(c.Args[1]).(PtrV)
		if !ok || pt.Path != "" || !isObj(st.obj(pt.Obj), a.client) {
			return nil, false
		}
		fill := func(st *State) {
			for _, q := range leafPaths(a.client) {
				st.storePath(pt.Obj, q, e.freshVal(st, "stored"+q, c.Pos, typeAt(a.client, q)))
			}
		}
		f := st.fork()
		fill(st)
		fill(f) // in part, perhaps
		e.event(st, "decoded", c.Pos, "", nil, pt, c.Args[0])
		e.event(f, "decodefail", c.Pos, "", nil, pt, c.Args[0])
		return []Outcome{{St: st, Res: []Val{errNil}}, {St: f, Res: []Val{c.errVal(f, "decode")}}}, true
	}
	for _, n := range []string{"gopkg.in/yaml.v3.Unmarshal", "encoding/json.Unmarshal"} {
		e.CallHook[n] = decode
	}
	e.CallHook["(*go.mongodb.org/mongo-driver/mongo.Cursor).Decode"] = decode
	return e
}

// lookupKey is the key of the table a lookup for the pair uses.
func (a *accounts) lookupKey(t *types.Named, isp, cid Val) Val {
	fn := a.method(t, "FindByCid")
	e := a.engine(t)
	args := symArgs(e, fn)
	args[1], args[2] = isp, cid
	var key Val
	for _, o := range e.Run(fn, args, nil, newState(a.r.P.base), fn.Pos()) {
		for _, ev := range o.St.trace.list() {
			if ev.Kind == "mapget" {
				if key != nil && key.key() != ev.Args[1].key() {
					panic(undecided("the key of a lookup in %s is not one value", t.Obj().Name()))
				}
				key = ev.Args[1]
			}
		}
	}
	if key == nil {
		panic(undecided("anchor: no lookup of the table in %s", fullName(fn)))
	}
	return key
}

func (a *accounts) method(t *types.Named, n string) *ssa.Function {
	fn := a.r.P.method(types.NewPointer(t), n)
	if fn == nil {
		panic(undecided("anchor: %s of %s not found", n, t.Obj().Name()))
	}
	return fn
}

func evFn(x *srvEnd, kind string, f func(ev *Ev) bool) *Ev {
	for _, ev := range x.evs {
		if ev.Kind == kind && f(ev) {
			return ev
		}
	}
	return nil
}

// load judges one load of a store. With a name, every account file has that name.
func (a *accounts) load(t *types.Named, name string) (filed []Val) {
	fn := a.method(t, "Load")
	k := &accounts{cliCase: &cliCase{r: a.r, t: a.t, name: t.Obj().Name(), fn: fn}, client: a.client, stores: a.stores, table: a.table}
	e := k.engine(t)
	k.e = e
	if name != "" {
		for _, n := range []string{"iface fs.FileInfo.Name", "iface fs.DirEntry.Name", "iface os.FileInfo.Name"} {
			e.CallHook[n] = func(e *Engine, c *CallCtx) ([]Outcome, bool) { return c.ret(c.St, litStr(name)), true }
		}
		for _, n := range []string{"iface fs.FileInfo.IsDir", "iface fs.DirEntry.IsDir", "iface os.FileInfo.IsDir"} {
			e.CallHook[n] = func(e *Engine, c *CallCtx) ([]Outcome, bool) { return c.ret(c.St, BoolV{cFalse}), true }
		}
	}
	rounds, maps := 0, map[string]bool{}
	var over *Term
	e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		x := &srvEnd{st: st, evs: d}
		if len(x.all("decoded", "decodefail", "mapset", "read")) == 0 && name == "" {
			return
		}
		over = e.CurK
		for _, ev := range x.all("mapset") {
			filed = append(filed, ev.Args[1])
			if pt, ok := ev.Args[2].(PtrV); ok && name != "" && len(x.all("decoded")) > 0 {
				filed = append(filed, e.load(st, PtrV{Obj: pt.Obj, Path: ".ISP"}, types.Typ[types.String], ev.Pos))
			}
			maps[siteOf(st, ev.Args[0])] = true
		}
		if name != "" {
			return
		}
		rounds++
		for _, ev := range x.all("decoded") {
			if o := st.obj(ev.Args[0].(PtrV).Obj); o == nil || !o.Alloc || outside(l, o.Site) {
				k.fail("filed", x, ev, "shared", "accounts are decoded into one place: all entries become the last account")
				return
			}
		}
		k.round(t, x)
	}
	a.r.root(fn)
	st := newState(a.r.P.base)
	run := func(st *State, again bool) (after []*State) {
		n := 0
		outs := e.Run(fn, symArgs(e, fn), nil, st, fn.Pos())
		for _, o := range outs {
			x := &srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic}
			n++
			if name == "" {
				k.loaded(t, x, over, maps)
			}
			if len(x.all("wr")) > 0 {
				after = append(after, o.St)
			}
		}
		a.r.done(e, n)
		return
	}
	after := run(st, false)
	if name != "" {
		return
	}
	if rounds == 0 || len(after) == 0 {
		panic(undecided("anchor: no load of %s completes", t.Obj().Name()))
	}
	// a load after a load
	e.OnEvent = func(st *State, ev *Ev) {
		if ev.Kind == "exit" {
			k.fail("kept", &srvEnd{st: st, evs: st.trace.list()}, ev, "ends", "a reload that fails ends the process")
		}
	}
	for i, st := range after {
		if i == 2 {
			break
		}
		s := st.fork()
		s.trace = nil
		run(s, true)
	}
	return
}

type readEv struct{ name, res string }

func (ev *Ev) read() readEv { r, _ := ev.Extra.(readEv); return r }

func failedRead(ev *Ev) bool { return ev.read().res == "fails" }

// loaded judges the end of a load.
func (a *accounts) loaded(t *types.Named, x *srvEnd, over *Term, maps map[string]bool) {
	bad := evFn(x, "read", failedRead)
	ws := x.all("wr")
	if !a.held(x) {
		return
	}
	for _, ev := range x.all("mapset", "mapdelete") {
		if pt, ok := ev.Args[0].(PtrV); !ok || x.st.obj(pt.Obj) == nil || !x.st.obj(pt.Obj).Alloc {
			a.fail("replaced", x, ev, "in place", "the table that lookups use is changed in place")
			return
		}
	}
	switch {
	case x.panic:
		a.fail("kept", x, nil, "panic", "loading the accounts can fault")
		return
	case bad != nil:
		for _, w := range ws {
			if evFn(x, "rd", func(ev *Ev) bool { return ev.Args[1].key() == w.Args[1].key() }) == nil {
				a.fail("kept", x, w, "replaced", "the table is replaced although reading the store failed")
				return
			}
		}
		a.r.ok("kept", a.name+" "+bad.read().name)
		return
	case len(x.all("read")) == 0:
		return
	case len(ws) != 1:
		a.fail("replaced", x, nil, "once", fmt.Sprintf("a load that read the whole store replaces the table %d times", len(ws)))
		return
	}
	w := ws[0]
	pt, ok := w.Args[1].(PtrV)
	if o := x.st.obj(pt.Obj); !ok || o == nil || !o.Alloc || o.Kind != OMap {
		a.fail("replaced", x, w, "made", "the table is replaced by a map that was not made in this load")
		return
	}
	for m := range maps {
		if m != siteOf(x.st, pt) {
			a.fail("replaced", x, w, "other", "the accounts are put into a map that does not become the table")
			return
		}
	}
	seen := false
	for _, ev := range x.evs {
		if ev == w {
			seen = true
		}
		if seen && (ev.Kind == "mapset" || ev.Kind == "mapdelete" || ev.Kind == "read" && ev.read().res != "ok") {
			a.fail("replaced", x, ev, "early", "the table is replaced before it is complete")
			return
		}
	}
	// the whole store was gone over
	whole := false
	next, ended := false, false
	for _, ev := range x.all("read") {
		switch {
		case ev.read().res == "next":
			next, whole, ended = true, false, false
		case ev.read().res == "end":
			next, whole, ended = true, false, true
		case strings.HasSuffix(ev.read().name, ".Err") && next:
			whole = ended
		case ev.read().res == "ok" && !next:
			for _, v := range ev.Args {
				if s, ok := v.(SliceV); ok && !isByte(s.Elem) && over != nil && x.st.holds(cLe(s.Len, linT(over))) {
					whole = true
				}
			}
		}
	}
	if !whole {
		a.fail("replaced", x, w, "part", "the table is replaced although the store may not have been read to its end")
		return
	}
	a.r.ok("replaced", a.name)
}

// held: the table is read and replaced only under the store's lock.
func (a *accounts) held(x *srvEnd) bool {
	for _, ev := range x.all("rd", "wr") {
		if ev.Locks == "" {
			a.fail("locked", x, ev, "unlocked", "the table is read or replaced without the store's lock, so that a refresh may not be seen")
			return false
		}
		a.r.ok("locked", a.name)
	}
	return true
}

// round judges what becomes of one account.
func (a *accounts) round(t *types.Named, x *srvEnd) {
	sets := x.all("mapset")
	dec, no := x.all("decoded"), x.all("decodefail")
	pairKey := func(p PtrV) (Val, bool) {
		f := func(q string) Val {
			return a.e.load(x.st, PtrV{Obj: p.Obj, Path: q}, types.Typ[types.String], a.fn.Pos())
		}
		k := a.lookupKey(t, f(".ISP"), f(".ClientId"))
		return k, true
	}
	if ev := evFn(x, "read", failedRead); ev != nil {
		if len(sets) != 1 || !a.previous(x, sets[0]) {
			a.fail("kept", x, ev, "goes on", "a load goes on without an account whose file could not be read")
			return
		}
		a.r.ok("kept", a.name)
		return
	}
	switch {
	case len(dec)+len(no) > 1:
		a.fail("filed", x, nil, "several", "several accounts are decoded in one round")
	case len(sets) > 1:
		a.fail("filed", x, sets[1], "several", "several entries are made for one account")
	case len(dec) == 0 && len(no) == 0:
		if len(sets) > 0 {
			a.fail("filed", x, sets[0], "undecoded", "an entry is made without an account")
		}
	case len(dec) == 1 && len(sets) == 0:
		if !a.unnamed(x) {
			a.fail("filed", x, dec[0], "lost", "an account that was read does not get into the table")
		}
	case len(dec) == 1:
		p := dec[0].Args[0].(PtrV)
		if sets[0].Args[2].key() != p.key() {
			a.fail("filed", x, sets[0], "other", "what is filed is not the account that was read")
			return
		}
		if !a.byFile(x) {
			want, _ := pairKey(p)
			if shape(want, nil) != shape(sets[0].Args[1], nil) {
				a.fail("filed", x, sets[0], "key", fmt.Sprintf("an account is filed under %s and looked up under %s", shape(sets[0].Args[1], nil), shape(want, nil)))
				return
			}
		}
		a.r.ok("filed", a.name)
	case len(no) == 1:
		switch {
		case !a.byFile(x):
			if len(sets) > 0 {
				a.fail("filed", x, sets[0], "broken", "an account that could not be decoded is filed")
				return
			}
		case len(sets) == 0:
			none := false
			for _, ev := range x.all("mapget") {
				_, own := ev.Args[0].(PtrV)
				none = none || !own && absent(x.st, ev)
			}
			if !none {
				a.fail("kept", x, no[0], "dropped", "a file that cannot be decoded takes the account out of the table")
				return
			}
		case !a.previous(x, sets[0]):
			a.fail("kept", x, sets[0], "broken", "a file that cannot be decoded does not keep the account's previous entry")
			return
		}
		a.r.ok("kept", a.name)
	}
}

// previous: what is filed is what the table held under the same key.
func (a *accounts) previous(x *srvEnd, set *Ev) bool {
	for _, ev := range x.all("mapget") {
		if _, own := ev.Args[0].(PtrV); !own && ev.Args[1].key() == set.Args[1].key() && termOf(set.Args[2]) == ev.Extra.(*Term) {
			return true
		}
	}
	return false
}

// absent: the lookup found nothing.
func absent(st *State, get *Ev) bool {
	t := get.Extra.(*Term)
	return st.holds(cTerm(mk("isnil", TermV{T: t}))) || st.holds(cTerm(mk(strings.Replace(t.Op, "lookup@", "present@", 1), t.Args...)).not())
}

// byFile: the account's identity is that of a file, not of what is in it.
func (a *accounts) byFile(x *srvEnd) bool {
	for _, ev := range x.all("decoded", "decodefail") {
		if _, ok := ev.Args[1].(SliceV); ok {
			return true
		}
	}
	return false
}

// unnamed: the round ended because the file's name is not that of an account (names judges which are).
func (a *accounts) unnamed(x *srvEnd) bool { return false }

// names judges the key of files with names of every form.
func (a *accounts) names(t *types.Named) {
	fn := a.method(t, "Load")
	if !a.readsFiles(fn, map[*ssa.Function]bool{}) {
		return
	}
	for _, c := range [][3]string{
		{"cmpp_123456.yaml", "cmpp", "123456"}, {"cmpp_123456.yml", "cmpp", "123456"}, {"SMGP_98765.yaml", "smgp", "98765"}, {"Sgip_1.yml", "SGIP", "1"},
		{"smgp_a_b.yaml", "smgp", "a_b"}, {"cmpp_Ab9.yaml", "cmpp", "Ab9"}, {"sgip_10.20.yml", "sgip", "10.20"}, {"cmpp_x.yml.yaml", "cmpp", "x.yml"},
		{"readme.txt", "", ""}, {"account.yaml", "", ""}, {".yaml", "", ""}, {".yml", "", ""}, {"cmpp_123456.yaml.bak", "", ""}, {"cmpp_123456", "", ""}} {
		a.r.guard("file "+c[0], func() {
			keys := map[string]bool{}
			for _, v := range a.load(t, c[0]) {
				if v.key() != litStr(strings.ToLower(c[1])).key() {
					keys[v.key()] = true
					if os.Getenv("GOSMS_DEBUG") != "" {
						println(c[0], show(v))
					}
				}
			}
			ks := sortedKeys(keys)
			switch {
			case c[1] == "":
				a.r.check(len(ks) == 0, "named", fullName(fn), fn.Pos(), t.Obj().Name()+" "+c[0], fmt.Sprintf("a file %s is taken for an account's (%s)", c[0], strings.Join(ks, ", ")))
			default:
				want := a.lookupKey(t, litStr(c[1]), litStr(c[2])).key()
				a.r.check(len(ks) == 1 && ks[0] == want, "named", fullName(fn), fn.Pos(), t.Obj().Name()+" "+c[0],
					fmt.Sprintf("the account of file %s is filed under %s, and looked up under %s", c[0], strings.Join(ks, ", "), want))
			}
		})
	}
}

func (a *accounts) readsFiles(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn.Blocks == nil {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					if strings.HasPrefix(f.String(), "io/ioutil.Read") || strings.HasPrefix(f.String(), "os.Read") {
						return true
					}
					if f.Pkg == fn.Pkg && a.readsFiles(f, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// lookup: what is found is what the table holds under the pair's key.
func (a *accounts) lookup(t *types.Named) {
	fn := a.method(t, "FindByCid")
	k := &cliCase{r: a.r, t: a.t, name: t.Obj().Name(), fn: fn}
	e := a.engine(t)
	a.r.root(fn)
	args := symArgs(e, fn)
	outs := e.Run(fn, args, nil, newState(a.r.P.base), fn.Pos())
	keys := map[string]bool{}
	for _, o := range outs {
		x := &srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic}
		gets := x.all("mapget")
		switch {
		case x.panic:
			k.fail("lookup", x, nil, "panic", "a lookup can fault")
			continue
		case len(x.all("mapset", "mapdelete", "wr")) > 0:
			k.fail("lookup", x, x.all("mapset", "mapdelete", "wr")[0], "changes", "a lookup changes the table")
			continue
		case len(gets) != 1 || len(o.Res) != 1:
			k.fail("lookup", x, nil, "one", "a lookup does not look up one key of the table")
			continue
		}
		res, was := o.Res[0], gets[0].Extra.(*Term)
		none := res.key() == NilV{}.key() && absent(x.st, gets[0])
		if rd := x.all("rd"); len(rd) == 0 || termOf(rd[len(rd)-1].Args[1]) != termOf(gets[0].Args[0]) {
			k.fail("lookup", x, gets[0], "elsewhere", "a lookup does not use the table of the store")
			continue
		}
		if !none && termOf(res) != was {
			k.fail("lookup", x, gets[0], "other", "a lookup does not return what the table holds under its key")
			continue
		}
		if !(&accounts{cliCase: k}).held(x) {
			continue
		}
		keys[gets[0].Args[1].key()] = true
		a.r.ok("lookup", t.Obj().Name())
	}
	a.r.done(e, len(outs))
	if len(keys) > 1 {
		k.fail("lookup", &srvEnd{st: newState(a.r.P.base)}, nil, "keys", "a lookup uses different keys")
	}
	// different pairs have different keys; carriers differ in more than letter case
	one := func(i, c string) string { return a.lookupKey(t, litStr(i), litStr(c)).key() }
	for _, c := range [][4]string{{"cmpp", "1", "smgp", "1"}, {"cmpp", "1", "cmpp", "2"}, {"cmpp", "Ab", "cmpp", "ab"}, {"cmpp", "1", "cmpp", "1 "}, {"cmpp", "12", "cmpp", "1"}} {
		if one(c[0], c[1]) == one(c[2], c[3]) {
			k.fail("lookup", &srvEnd{st: newState(a.r.P.base)}, nil, "same "+strings.Join(c[:], " "), fmt.Sprintf("the accounts (%s, %s) and (%s, %s) share a key", c[0], c[1], c[2], c[3]))
		}
	}
	if one("CMPP", "1") != one("cmpp", "1") {
		k.fail("lookup", &srvEnd{st: newState(a.r.P.base)}, nil, "case", "the name of a carrier is looked up in a letter case the tables do not use")
	}
}

// refresh: the accounts are loaded at the start and on every tick.
func (a *accounts) refresh() {
	e := a.engine(nil)
	e.NoSpawn = false
	load := func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		e.event(c.St, "loads", c.Pos, "", nil, c.Args[0])
		return c.ret(c.St), true
	}
	e.CallHook["iface auth.Store.Load"] = load
	for _, t := range a.stores {
		e.CallHook[fullName(a.method(t, "Load"))] = load
	}
	fn := a.r.P.fn(authPkg, "New")
	k := &cliCase{r: a.r, t: a.t, fn: fn, name: "store"}
	a.r.root(fn)
	ticks := 0
	e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		if l.fn.Pkg != fn.Pkg || st.ctx != "go" {
			return
		}
		x := &srvEnd{st: st, evs: d}
		if len(x.all("loads")) == 0 {
			k.fail("refreshed", x, nil, "tick", "a tick of the reload timer passes without a reload")
			return
		}
		ticks++
		a.r.ok("refreshed", "tick")
	}
	outs := e.Run(fn, symArgs(e, fn), nil, newState(a.r.P.base), fn.Pos())
	n := 0
	for _, o := range outs {
		x := &srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic}
		if x.panic || len(o.Res) != 1 || o.Res[0].key() == (NilV{}).key() {
			continue
		}
		n++
		ld := x.all("loads")
		if len(ld) == 0 || unIface(ld[0].Args[0]).key() != unIface(o.Res[0]).key() {
			k.fail("refreshed", x, nil, "start", "New returns a store whose accounts were not loaded")
			continue
		}
		if len(x.all("go")) == 0 {
			k.fail("refreshed", x, nil, "timer", "New returns a store that is not reloaded by a timer")
			continue
		}
		a.r.ok("refreshed", "start")
	}
	a.r.done(e, len(outs))
	if n < len(a.stores) || ticks == 0 {
		a.r.fail("refreshed", fullName(fn), fn.Pos(), "ticker", "New does not set up a reload of the accounts for every kind of store")
	}
}

// conversion: what the users of an account get is what was stored for the pair they named.
func (a *accounts) conversion() {
	conf := a.r.P.typ("codec", "AuthConf")
	for _, pk := range []string{"msc_server", cliPkg} {
		for _, fn := range a.r.P.funcsOf(pk, func(f *ssa.Function) bool {
			sg := f.Signature
			return f.Parent() == nil && sg.Recv() == nil && sg.Params().Len() == 2 && isStr(sg.Params().At(0).Type()) && isStr(sg.Params().At(1).Type()) &&
				sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), types.NewPointer(conf))
		}) {
			a.convert(fn, conf)
		}
	}
}

func (a *accounts) convert(fn *ssa.Function, conf *types.Named) {
	k := &cliCase{r: a.r, t: a.t, fn: fn, name: "account"}
	e := a.r.srvEngine("findacct", "copyacct")
	e.NoMerge = true
	e.acctHooks()
	a.r.root(fn)
	args := symArgs(e, fn)
	outs := e.Run(fn, args, nil, newState(a.r.P.base), fn.Pos())
	a.r.done(e, len(outs))
	found := false
	for _, o := range outs {
		x := &srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic}
		fs := x.all("findacct")
		switch {
		case x.panic:
			k.fail("converted", x, nil, "panic", "the search for an account can fault")
			continue
		case len(fs) != 1 || fs[0].Args[0].key() != args[0].key() || fs[0].Args[1].key() != args[1].key():
			k.fail("converted", x, nil, "pair", "the search for an account does not look for exactly the carrier and id it is given")
			continue
		}
		acct, ok := fs[0].Args[2].(PtrV)
		if !ok {
			a.r.check(o.Res[0].key() == (NilV{}).key(), "converted", fullName(fn), fn.Pos(), fn2(fn)+" none", "an account is made up for an unknown client")
			continue
		}
		res, ok := unIface(o.Res[0]).(PtrV)
		if !ok || res.Path != "" || !isObj(o.St.obj(res.Obj), conf) {
			k.fail("converted", x, nil, "none", "an account that was found is not returned")
			continue
		}
		found = true
		for _, q := range leafPaths(conf) {
			from, to := typeAt(a.client, q), typeAt(conf, q)
			if from == nil || !types.Identical(from, to) {
				a.r.fail("field", fullName(fn), fn.Pos(), "AuthConf"+q, fmt.Sprintf("the setting %s of an account has no counterpart of its type in what is stored", q[1:]))
				continue
			}
			got, want := e.load(o.St, PtrV{Obj: res.Obj, Path: q}, to, fn.Pos()), e.load(o.St, PtrV{Obj: acct.Obj, Path: q}, from, fn.Pos())
			a.r.check(got.key() == want.key(), "field", fullName(fn), fn.Pos(), fn2(fn)+" AuthConf"+q,
				fmt.Sprintf("%s: the setting %s of the account found does not reach the one who asked", fn2(fn), q[1:]))
		}
		a.r.ok("converted", fn2(fn))
	}
	if !found {
		a.r.fail("converted", fullName(fn), fn.Pos(), fn2(fn)+" never", fn2(fn)+" never returns an account")
	}
}

// copier: every field of the target that has a counterpart is set from it.
func (a *accounts) copier() {
	fn := a.r.P.fn("utils", "StructCopy")
	k := &cliCase{r: a.r, t: a.t, fn: fn, name: "copy"}
	e := a.r.srvEngine("set", "count")
	e.NoMerge = true
	for _, n := range []string{"Field", "FieldByName", "NumField", "Name", "Kind"} {
		e.CallHook["iface reflect.Type."+n] = func(e *Engine, c *CallCtx) ([]Outcome, bool) { return e.pure(c), true }
	}
	e.CallHook["(reflect.Value).Set"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		e.event(c.St, "set", c.Pos, "", nil, c.Args...)
		return c.ret(c.St), true
	}
	a.r.root(fn)
	args := symArgs(e, fn)
	// given two pointers
	e.CallHook["(reflect.Value).Kind"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		return c.ret(c.St, IntV{linC(int64(reflect.Ptr))}), true
	}
	e.CallHook["(reflect.Value).IsNil"] = func(e *Engine, c *CallCtx) ([]Outcome, bool) { return c.ret(c.St, BoolV{cFalse}), true }
	count := func(e *Engine, c *CallCtx) ([]Outcome, bool) {
		outs := e.pure(c)
		e.event(outs[0].St, "count", c.Pos, "", nil, c.Args[0], outs[0].Res[0])
		return outs, true
	}
	e.CallHook["(reflect.Value).NumField"], e.CallHook["iface reflect.Type.NumField"] = count, count
	elem := func(v Val) string { return "ext:(reflect.Value).Elem(ext:reflect.ValueOf(" + shape(v, nil) + "))" }
	shapeAt := func(v Val, i *Term) string { return shape(v, map[*Term]string{i: "i"}) }
	rounds := 0
	var over *Term
	e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		if l.fn.Pkg != fn.Pkg {
			return
		}
		x := &srvEnd{st: st, evs: d}
		over = e.CurK
		rounds++
		switch set := x.all("set"); {
		case len(set) > 1:
			k.fail("copied", x, set[1], "twice", "a field is set twice")
		case len(set) == 0:
			if !a.noCounterpart(st) {
				k.fail("copied", x, nil, "skipped", "a field is left out although the source has one of its name and type")
			}
		default:
			to := "ext:(reflect.Value).Field(" + elem(args[1]) + ",0+1*<i>)"
			if got := shapeAt(set[0].Args[0], over); got != to {
				k.fail("copied", x, set[0], "target", fmt.Sprintf("what is set is %s, not the field of the target the round is about", got))
				return
			}
			from := shapeAt(set[0].Args[1], over)
			if !strings.HasPrefix(from, "ext:(reflect.Value).FieldByName("+elem(args[0])+",fld(") && !strings.HasPrefix(from, "ext:(reflect.Value).FieldByIndex("+elem(args[0])+",") ||
				!strings.Contains(from, "reflect.Type.Field(ext:(reflect.Value).Type("+elem(args[1])+"),0+1*<i>),\".Name\")") {
				k.fail("copied", x, set[0], "source", fmt.Sprintf("a field is set from %s, not from the source's field of its name", from))
				return
			}
			a.r.ok("copied", "")
		}
	}
	outs := e.Run(fn, args, nil, newState(a.r.P.base), fn.Pos())
	a.r.done(e, len(outs))
	for _, o := range outs {
		x := &srvEnd{st: o.St, evs: o.St.trace.list(), panic: o.Panic, ret: !o.Panic}
		if x.panic {
			k.fail("copied", x, nil, "panic", "copying an account can fault")
			continue
		}
		whole := false
		for _, ev := range x.all("count") {
			of := shape(ev.Args[0], nil)
			whole = whole || (of == elem(args[1]) || of == "ext:(reflect.Value).Type("+elem(args[1])+")") && over != nil && x.st.holds(cLe(ev.Args[1].(IntV).L, linT(over)))
		}
		if !whole {
			k.fail("copied", x, nil, "part", "the copy may end before every field of the target was looked at")
		}
	}
	if rounds == 0 {
		panic(undecided("anchor: no loop over the fields in %s", fullName(fn)))
	}
}

// noCounterpart: the source was found to have no field of the name and type.
func (a *accounts) noCounterpart(st *State) bool {
	for t, v := range st.bools {
		if s := shapeT(t, nil); !v && strings.Contains(s, "FieldByName(") && (strings.HasPrefix(s, "res1(") || strings.HasPrefix(s, "eq(") || strings.HasPrefix(s, "ext:(reflect.Value).IsValid(")) {
			return true
		}
	}
	return false
}

// siteOf says where a map was made.
func siteOf(st *State, v Val) string {
	if pt, ok := v.(PtrV); ok {
		if o := st.obj(pt.Obj); o != nil && o.Alloc {
			return fmt.Sprint(o.Site)
		}
	}
	return v.key()
}

// outside: the place is in the function of the loop and not in the loop.
func outside(l *loopInfo, site token.Pos) bool {
	for _, b := range l.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(*ssa.Alloc); ok && v.Pos() == site {
				return !l.blocks[b]
			}
		}
	}
	return false
}
