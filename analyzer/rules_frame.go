package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the protocols' message tables

// A layout lists the parts of a message body in wire order: Name:width, Name:width*Count
// (repeated), Name:Length (variable, its size is the value of the named field), -width (reserved).
// A leading = marks a part that selects the shape of the message and keeps its value.
type msgSpec struct {
	typ    string
	cmd    uint32
	layout func(ver int64) string
	shapes func(ver int64) []map[string]int64 // values of the shape-selecting fields
	body   bool                               // no message header
}

func (sp *msgSpec) head(pk string) int64 {
	if sp.body {
		return 0
	}
	return headLen(pk)
}

func (sp *msgSpec) shapesAt(ver int64) []map[string]int64 {
	if sp.shapes == nil {
		return []map[string]int64{nil}
	}
	return sp.shapes(ver)
}

func fixed(s string) func(int64) string { return func(int64) string { return s } }

func cmppV(v3, other string) func(int64) string {
	return func(v int64) string {
		if v&0xf0 == 0x30 {
			return v3
		}
		return other
	}
}

const respBit = 0x80000000

var specs = map[string][]msgSpec{
	"codec/cmpp": {
		{"Connect", 1, fixed("SourceAddr:6 AuthenticatorSource:16 Version:1 Timestamp:4"), nil, false},
		{"ConnectResp", 1 | respBit, cmppV("Status:4 AuthenticatorISMG:16 Version:1", "Status:1 AuthenticatorISMG:16 Version:1"), nil, false},
		{"Terminate", 2, fixed(""), nil, false},
		{"TerminateRsp", 2 | respBit, fixed(""), nil, false},
		{"Submit", 4, cmppV(
			"-8 PkTotal:1 PkNumber:1 RegisteredDel:1 MsgLevel:1 ServiceId:10 FeeUsertype:1 FeeTerminalId:32 FeeTerminalType:1 TpPid:1 TpUdhi:1 MsgFmt:1 MsgSrc:6 FeeType:2 FeeCode:6 ValidTime:17 AtTime:17 SrcId:21 DestUsrTl:1 TermIds:32*DestUsrTl DestTerminalType:1 MsgLength:1 MsgContent:MsgLength LinkID:20",
			"-8 PkTotal:1 PkNumber:1 RegisteredDel:1 MsgLevel:1 ServiceId:10 FeeUsertype:1 FeeTerminalId:21 TpPid:1 TpUdhi:1 MsgFmt:1 MsgSrc:6 FeeType:2 FeeCode:6 ValidTime:17 AtTime:17 SrcId:21 DestUsrTl:1 TermIds:21*DestUsrTl MsgLength:1 MsgContent:MsgLength -8"), nil, false},
		{"SubmitRsp", 4 | respBit, cmppV("MsgId:8 Result:4", "MsgId:8 Result:1"), nil, false},
		{"Delivery", 5, cmppV(
			"MsgId:8 DestId:21 ServiceId:10 TpPid:1 TpUdhi:1 MsgFmt:1 SrcTerminalId:32 SrcTerminalType:1 =RegisteredDelivery:1 MsgLength:1 MsgContent:MsgLength LinkID:20",
			"MsgId:8 DestId:21 ServiceId:10 TpPid:1 TpUdhi:1 MsgFmt:1 SrcTerminalId:21 =RegisteredDelivery:1 MsgLength:1 MsgContent:MsgLength -8"),
			func(ver int64) []map[string]int64 {
				n := int64(60)
				if ver&0xf0 == 0x30 {
					n = 71
				}
				return []map[string]int64{{"RegisteredDelivery": 0}, {"RegisteredDelivery": 1, "MsgLength": n}}
			}, false},
		{"DeliveryRsp", 5 | respBit, cmppV("MsgId:8 Result:4", "MsgId:8 Result:1"), nil, false},
		{"ActiveTest", 8, fixed(""), nil, false},
		{"ActiveTestRsp", 8 | respBit, fixed("-1"), nil, false},
	},
	"codec/sgip": {
		{"Bind", 1, fixed("LoginType:1 LoginName:16 LoginPassword:16 Reserve:8"), nil, false},
		{"BindRsp", 1 | respBit, fixed("Status:1 Reserve:8"), nil, false},
		{"Unbind", 2, fixed(""), nil, false},
		{"UnbindRsp", 2 | respBit, fixed(""), nil, false},
		{"Submit", 3, fixed("SPNumber:21 ChargeNumber:21 UserCount:1 UserNumber:21*UserCount CorpId:5 ServiceType:10 FeeType:1 FeeValue:6 GivenValue:6 AgentFlag:1 MorelatetoMTFlag:1 Priority:1 ExpireTime:16 ScheduleTime:16 ReportFlag:1 TpPid:1 TpUdhi:1 MessageCoding:1 MessageType:1 MessageLength:4 MessageContent:MessageLength Reserve:8"), nil, false},
		{"SubmitRsp", 3 | respBit, fixed("Status:1 Reserve:8"), nil, false},
		{"Deliver", 4, fixed("UserNumber:21 SPNumber:21 TpPid:1 TpUdhi:1 MessageCoding:1 MessageLength:4 MessageContent:MessageLength Reserve:8"), nil, false},
		{"DeliverRsp", 4 | respBit, fixed("Status:1 Reserve:8"), nil, false},
		{"Report", 5, fixed("=MtSequence:12 ReportType:1 UserNumber:21 State:1 ErrorCode:1 Reserve:8"), nil, false},
		{"ReportRsp", 5 | respBit, fixed("Status:1 Reserve:8"), nil, false},
	},
	"codec/smgp": {
		{"Login", 1, fixed("ClientID:8 AuthenticatorClient:16 LoginMode:1 Timestamp:4 Version:1"), nil, false},
		{"LoginRsp", 1 | respBit, fixed("Status:4 AuthenticatorServer:16 Version:1"), nil, false},
		{"Submit", 2, fixed("MsgType:1 NeedReport:1 Priority:1 ServiceID:10 FeeType:2 FeeCode:6 FixedFee:6 MsgFormat:1 ValidTime:17 AtTime:17 SrcTermID:21 ChargeTermID:21 DestTermIDCount:1 DestTermID:21*DestTermIDCount MsgLength:1 MsgContent:MsgLength Reserve:8 &TlvList"), nil, false},
		{"SubmitRsp", 2 | respBit, fixed("MsgId:10 Status:4"), nil, false},
		{"Delivery", 3, fixed("MsgId:10 =IsReport:1 MsgFormat:1 RecvTime:14 SrcTermID:21 DestTermID:21 MsgLength:1 MsgContent:MsgLength Reserve:8 &TlvList"),
			func(int64) []map[string]int64 {
				return []map[string]int64{{"IsReport": 0}, {"IsReport": 1, "MsgLength": 122}}
			}, false},
		{"DeliverRsp", 3 | respBit, fixed("MsgId:10 Status:4"), nil, false},
		{"ActiveTest", 4, fixed(""), nil, false},
		{"ActiveTestRsp", 4 | respBit, fixed(""), nil, false},
		{"Exit", 6, fixed(""), nil, false},
		{"ExitRsp", 6 | respBit, fixed(""), nil, false},
	},
}

type slot struct {
	name  string
	w     int64
	size  string // variable: name of the length field
	count string // repeated: name of the count field
	keep  bool   // shape selecting
	tail  bool   // optional parameters up to the end of the frame
}

func parseLayout(s string) []slot {
	var r []slot
	for _, f := range strings.Fields(s) {
		var x slot
		if f[0] == '-' {
			x.w, _ = strconv.ParseInt(f[1:], 10, 64)
			r = append(r, x)
			continue
		}
		if f[0] == '&' {
			r = append(r, slot{name: f[1:], tail: true})
			continue
		}
		if f[0] == '=' {
			x.keep = true
			f = f[1:]
		}
		n, w, _ := strings.Cut(f, ":")
		x.name = n
		if a, c, ok := strings.Cut(w, "*"); ok {
			x.w, _ = strconv.ParseInt(a, 10, 64)
			x.count = c
		} else if v, err := strconv.ParseInt(w, 10, 64); err == nil {
			x.w = v
		} else {
			x.size = w
		}
		r = append(r, x)
	}
	return r
}

func headLen(pk string) int64 {
	if pk == "codec/sgip" {
		return 20
	}
	return 12
}

func specOf(pk, typ string) *msgSpec {
	for i := range specs[pk] {
		if specs[pk][i].typ == typ {
			return &specs[pk][i]
		}
	}
	return nil
}

// pdu is a message value made by a constructor or response builder.
type pdu struct {
	st    *State
	obj   string
	typ   *types.Named
	pk    string
	part  bool  // one of a family made by a loop
	k     *Term // counter of that loop
	delta []*Ev
	from  *ssa.Function
}

func (x *pdu) String() string { return fullName(x.from) + " -> " + x.typ.Obj().Name() }

// fieldPath finds the field behind a layout name: by field name or through the accessor.
type resolver struct {
	p    *Program
	memo map[string]string
}

func (rs *resolver) path(t *types.Named, name string) string {
	k := t.String() + "." + name
	if v, ok := rs.memo[k]; ok {
		return v
	}
	r := ""
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if strings.EqualFold(s.Field(i).Name(), name) {
				r = "." + s.Field(i).Name()
			}
		}
		if r == "" {
			if m := rs.p.methodFold(types.NewPointer(t), name); m != nil && m.Signature.Params().Len() == 0 && len(m.Blocks) > 0 {
				r = rs.viaAccessor(t, s, m)
			}
		}
	}
	rs.memo[k] = r
	return r
}

func (rs *resolver) viaAccessor(t *types.Named, s *types.Struct, m *ssa.Function) (r string) {
	defer func() {
		if x := recover(); x != nil {
			r = ""
		}
	}()
	e := NewEngine(rs.p)
	b := mk("resolve:" + t.String())
	recv := symVal(b, types.NewPointer(t)).(PtrV)
	e.NotNil[recv.Obj] = true
	outs := e.Run(m, []Val{recv}, nil, newState(rs.p.base), m.Pos())
	if len(outs) != 1 || len(outs[0].Res) != 1 {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		f := "." + s.Field(i).Name()
		if outs[0].Res[0].key() == outs[0].St.obj(recv.Obj).loadPath(f).key() {
			return f
		}
	}
	return ""
}

func (p *Program) methodFold(t types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if strings.EqualFold(ms.At(i).Obj().Name(), name) {
			return p.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---- making messages

// protoEngine stands the generators' results in by events.
func protoEngine(p *Program) *Engine {
	e := NewEngine(p)
	e.Skip = returnsLogFields
	for _, k := range []string{"append", "appendall", "elemstore", "nextval"} {
		e.Want[k] = true
	}
	// the SGIP generator is a concrete type
	if m := p.pkg("codec/sgip").Var("Sequencer"); m != nil {
		if g := p.method(deref(m.Type()), "NextVal"); g != nil {
			e.CallHook[fullName(g)] = func(e *Engine, c *CallCtx) ([]Outcome, bool) {
				el := types.Typ[types.Uint32]
				o := e.alloc(c.St, OArr, el, c.Pos, linC(3)).clone()
				o.Idx = map[string]Lin{}
				t := e.fresh(c.St, "seq", c.Pos)
				for i := int64(0); i < 3; i++ {
					x := linC(i)
					o.F[x.key()] = IntV{linT(mkR("seqpart"+strconv.FormatInt(i, 10), &rng{0, 1<<32 - 1, true, true}, TermV{T: t}))}
					o.Idx[x.key()] = x
				}
				c.St.setObj(o)
				s := SliceV{Obj: o.ID, Off: linC(0), Len: linC(3), Cap: linC(3), Elem: el}
				e.event(c.St, "nextval", c.Pos, "", nil, NilV{}, TermV{T: t})
				return c.ret(c.St, s), true
			}
		}
	}
	return e
}

func (p *Program) asPdu(v Val) (obj string, t *types.Named) {
	if iv, ok := v.(IfaceV); ok {
		if pt, ok := iv.V.(PtrV); ok && pt.Path == "" {
			if n, ok := deref(iv.T).(*types.Named); ok {
				return pt.Obj, n
			}
		}
		return "", nil
	}
	return "", nil
}

func pkOf(t *types.Named) string { return strings.TrimPrefix(t.Obj().Pkg().Path(), modPath) }

// make runs a constructor and collects every message it can produce.
func (r *Report) makePdus(fn *ssa.Function, ver int64, pre ...func(*State, []Val)) (pdus []*pdu, refusals int) {
	p := r.P
	e := protoEngine(p)
	e.NoMerge, e.Peel = r.fine, r.fine
	if r.tune != nil {
		r.tune(e)
	}
	st := newState(p.base)
	args := symArgs(e, fn)
	for i, q := range fn.Params {
		pt, ok := args[i].(PtrV)
		if !ok {
			continue
		}
		e.NotNil[pt.Obj] = true
		if n, ok := deref(q.Type()).(*types.Named); ok {
			setVersion(st, pt, n, ver)
			if s := typeAt(n, ".SequenceNumber"); s != nil { // SGIP headers carry three words
				sl := st.obj(pt.Obj).loadPath(".SequenceNumber")
				if sv, ok := sl.(SliceV); ok {
					st.addLe(linC(3).sub(sv.Len))
				}
			} else if s := typeAt(n, ".MessageHeader.SequenceNumber"); s != nil {
				sl := st.obj(pt.Obj).loadPath(".MessageHeader.SequenceNumber")
				if sv, ok := sl.(SliceV); ok {
					st.addLe(linC(3).sub(sv.Len))
				}
			}
		}
	}
	for _, f := range pre {
		f(st, args)
	}
	iface := p.iface("codec", "Pdu")
	seen := map[string]bool{}
	add := func(s *State, obj string, t *types.Named, part bool, k *Term, d []*Ev) {
		if t == nil || obj == "" || !types.Implements(types.NewPointer(t), iface) {
			return
		}
		key := obj + strconv.FormatBool(part)
		if part {
			if seen[key+strconv.Itoa(len(d))] && false {
				return
			}
		}
		pdus = append(pdus, &pdu{st: s.fork(), obj: obj, typ: t, pk: pkOf(t), part: part, k: k, delta: d, from: fn})
	}
	value := func(s *State, v Val, rt types.Type, part bool, k *Term, d []*Ev) bool {
		switch x := v.(type) {
		case IfaceV:
			o, t := p.asPdu(x)
			add(s, o, t, part, k, d)
			return t != nil
		case PtrV:
			if n, ok := deref(rt).(*types.Named); ok {
				add(s, x.Obj, n, part, k, d)
				return true
			}
		}
		return false
	}
	loops := 0
	e.OnBack = func(s *State, l *loopInfo, d []*Ev) {
		for _, ev := range d {
			if ev.Kind == "append" || ev.Kind == "elemstore" {
				if value(s, ev.Args[0], elemPtr(fn), true, e.CurK, d) {
					loops++
				}
			}
		}
	}
	outs := e.Run(fn, args, nil, st, fn.Pos())
	r.done(e, len(outs))
	for _, o := range outs {
		if o.Panic {
			continue
		}
		for i, v := range o.Res {
			rt := fn.Signature.Results().At(i).Type()
			switch x := v.(type) {
			case NilV:
				refusals++
			case SliceV:
				if x.Obj == "" {
					refusals++
					continue
				}
				a := o.St.obj(x.Obj)
				for _, ek := range sortedKeys(a.F) {
					value(o.St, a.F[ek], rt.Underlying().(*types.Slice).Elem(), false, nil, o.St.trace.list())
				}
				if n, ok := o.St.constOf(x.Len); (!ok || int(n) > len(a.F)) && loops == 0 {
					r.fail("undecided", fn.String(), fn.Pos(), "list", "the messages in the returned list cannot be determined")
				}
			default:
				if !value(o.St, v, rt, false, nil, o.St.trace.list()) {
					r.fail("undecided", fn.String(), fn.Pos(), "result", "the returned message cannot be determined: "+show(v))
				}
			}
		}
	}
	return
}

func elemPtr(fn *ssa.Function) types.Type {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if s, ok := rs.At(i).Type().Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return types.Typ[types.Invalid]
}

func setVersion(st *State, pt PtrV, n *types.Named, ver int64) {
	if ver < 0 {
		return
	}
	if t := typeAt(n, ".Version"); t != nil && isInt(t) {
		st.storePath(pt.Obj, pt.Path+".Version", IntV{linC(ver)})
	}
}

// makers lists the functions that build messages: those that return a message type.
func (p *Program) makers() []*ssa.Function {
	var r []*ssa.Function
	iface := p.iface("codec", "Pdu")
	isMsg := func(t types.Type) bool {
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return types.Implements(t, iface)
		}
		return types.Implements(t, iface)
	}
	for _, pk := range protoPkgs {
		r = append(r, p.funcsOf(pk, func(f *ssa.Function) bool {
			if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
				return false
			}
			rs := f.Signature.Results()
			return rs.Len() == 1 && isMsg(rs.At(0).Type())
		})...)
	}
	return r
}

func versions(deep bool) []int64 {
	if deep {
		var v []int64
		for i := int64(0); i < 256; i++ {
			v = append(v, i)
		}
		return v
	}
	return []int64{0x00, 0x13, 0x20, 0x21, 0x2f, 0x30, 0x31, 0x3f, 0x40, 0xff}
}

// encode runs the message's encoder; nil when it gives no frame.
func (r *Report) encode(x *pdu, rule string) (frames []*FrameSnap) {
	m := r.P.method(types.NewPointer(x.typ), "Encode")
	if m == nil {
		r.fail("undecided", x.typ.String(), x.typ.Obj().Pos(), "Encode", "no encoder")
		return nil
	}
	e := NewEngine(r.P)
	e.Oblige = true
	e.NotNil[x.obj] = true
	e.Skip = returnsLogFields
	outs := e.Run(m, []Val{PtrV{Obj: x.obj}}, nil, x.st.fork(), m.Pos())
	r.done(e, len(outs))
	if rule != "" {
		r.takeObls(e, rule)
	}
	for _, o := range outs {
		if o.Panic {
			if rule != "" {
				r.fail(rule, m.String(), m.Pos(), "panic|"+x.String(), "encoding a built message panics")
			}
			continue
		}
		s, ok := o.Res[0].(SliceV)
		if !ok || s.Obj == "" {
			if rule != "" {
				r.fail(rule, m.String(), m.Pos(), "nil|"+x.String(), "a built message encodes to nothing ("+x.String()+")")
			}
			continue
		}
		frames = append(frames, &FrameSnap{St: o.St, S: s})
	}
	return
}

// length of the region a slot occupies, given the offsets of its count or length field
type placed struct {
	slot
	off, n Lin
}

// place lays the slots over the frame, reading count and length fields from it.
func place(head int64, layout []slot, f *FrameSnap) (ps []placed, end Lin) {
	off := linC(head)
	at := map[string]placed{}
	for _, s := range layout {
		x := placed{slot: s, off: off}
		val := func(name string) Lin {
			q := at[name]
			return f.St.beInt(f.St.obj(f.S.Obj), f.S.Off.add(q.off), q.w)
		}
		switch {
		case s.tail:
			ps = append(ps, x)
			continue
		case s.size != "":
			x.n = val(s.size)
		case s.count != "":
			x.n = val(s.count).mulC(s.w)
		default:
			x.n = linC(s.w)
		}
		at[s.name] = x
		ps = append(ps, x)
		off = off.add(x.n)
	}
	return ps, off
}

func init() {
	register(&Check{ID: "C02", Level: "proof", Tech: "abstract interpretation (symbolic frame contents, linear length equalities)",
		Rule:  "Every exported function of the protocol packages that returns a message is interpreted for arbitrary arguments, account settings and options, at each protocol version; every message it can produce (single results, list elements, the general element a loop adds) is encoded in its own state. On each path: no access outside the frame, a frame results, its length equals its length word, and header + fixed parts + repeated parts (count x width) + variable parts (length field) add up to exactly that length, with the repeated and variable regions fully written.",
		Assum: []string{"account records are present (non-nil); at most the option functions write into the option record", "protocol versions: quick tier a representative of each class, thorough tier all 256 values"},
		Run:   checkC02})
	register(&Check{ID: "C05", Level: "proof", Tech: "abstract interpretation (symbolic frame contents)",
		Rule: "For every message a request constructor can produce (as in C02), the encoded frame's bytes 4..8 equal the command code of the message in the protocol's table and the sequence bytes equal the sequence argument or the value drawn from the generator for this message; in a loop over parts only the first part may use the given sequence and every other part's value is drawn inside its own iteration.",
		Run:  checkC05})
}

func checkC02(r *Report) {
	p := r.P
	for _, fn := range p.makers() {
		r.root(fn)
		for _, ver := range versions(r.Deep) {
			r.guard(fullName(fn), func() {
				r.refine(func(r *Report) {
					pdus, _ := r.makePdus(fn, ver)
					r.check(len(pdus) > 0, "produces", fn.String(), fn.Pos(), fullName(fn), "no message produced")
					for _, x := range pdus {
						r.frameLen(x, ver)
					}
				})
			})
		}
	}
	r.atLeast("produces", 300)
	r.atLeast("declared-length", 300)
	r.atLeast("parts-add-up", 300)
	r.atLeast("region-written", 40)
}

func (r *Report) frameLen(x *pdu, ver int64) {
	sp := specOf(x.pk, x.typ.Obj().Name())
	if sp == nil {
		r.fail("undecided", x.typ.String(), x.typ.Obj().Pos(), "spec", "message type without an entry in the layout table: "+x.typ.String())
		return
	}
	for _, f := range r.encode(x, "frame-bounds") {
		name := x.String()
		decl := f.be(0, 4)
		r.check(f.St.eqL(decl, f.S.Len), "declared-length", x.from.String(), x.from.Pos(), name,
			fmt.Sprintf("the frame of %s has %s bytes but declares %s (version %#x)", name, f.S.Len, decl, ver))
		ps, end := place(headLen(x.pk), parseLayout(sp.layout(ver)), f)
		tail := false
		for _, q := range ps {
			tail = tail || q.tail
		}
		total := end
		if tail {
			// optional parameters fill the rest
			total = end.add(r.tailLen(x, f))
		}
		r.check(f.St.eqL(total, f.S.Len), "parts-add-up", x.from.String(), x.from.Pos(), name,
			fmt.Sprintf("the parts of %s add up to %s bytes, the frame has %s (version %#x)", name, total, f.S.Len, ver))
		for _, q := range ps {
			if q.size == "" && q.count == "" {
				continue
			}
			why := regionWritten(f, q)
			r.check(why == "", "region-written", x.from.String(), x.from.Pos(), name+"."+q.name,
				fmt.Sprintf("the %s region of %s is not filled as its count or length announces: %s (version %#x)", q.name, name, why, ver))
		}
	}
}

// tailLen is the size of the optional parameters written after the fixed parts.
func (r *Report) tailLen(x *pdu, f *FrameSnap) Lin {
	// sum of the sizes of the list's elements: 4 bytes of type and length, then the value
	for _, ref := range f.St.reachList(x.obj) {
		l := f.St.obj(ref)
		if l == nil || l.Hav {
			continue
		}
		n := linC(0)
		for _, el := range l.List {
			v := f.St.obj(el).loadPath(".Value")
			pt, ok := unIface(v).(PtrV)
			if !ok {
				panic(undecided("optional parameter of unknown kind"))
			}
			ln, ok := f.St.obj(pt.Obj).loadPath(".len").(IntV)
			if !ok {
				// by accessor
				panic(undecided("optional parameter without a length"))
			}
			n = n.add(ln.L).addC(4)
		}
		return n
	}
	return linC(0)
}

// reachList finds lists reachable from an object.
func (st *State) reachList(id string) []string {
	var r []string
	for x := range st.reach(PtrV{Obj: id}) {
		if o := st.obj(x); o != nil && o.Kind == OList {
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

// regionWritten says why a variable region is not completely filled, or "".
func regionWritten(f *FrameSnap, q placed) string {
	st := f.St
	o := st.obj(f.S.Obj)
	off := f.S.Off.add(q.off)
	if st.eqL(q.n, linC(0)) {
		return ""
	}
	why := "no write covers it"
	for i := len(o.W) - 1; i >= 0; i-- {
		w := o.W[i]
		if w.Each != nil {
			c := w.Off.coef(w.Each)
			if q.w > 0 && c == q.w && st.eqL(w.Off.subst(w.Each, linC(0)), off) && st.eqL(w.EachN.mulC(q.w), q.n) {
				if !st.eqL(w.Win, linC(q.w)) {
					return fmt.Sprintf("each element is written into %s bytes instead of %d", w.Win, q.w)
				}
				return ""
			}
			if c == 1 && st.eqL(w.Off.subst(w.Each, linC(0)), off) && st.eqL(w.EachN, q.n) {
				return "" // byte by byte
			}
			continue
		}
		if st.eqL(w.Off, off) {
			if st.eqL(w.N, q.n) {
				return ""
			}
			why = fmt.Sprintf("%s of %s bytes are written", w.N, q.n)
		}
	}
	return why
}

func checkC05(r *Report) {
	p := r.P
	for _, fn := range p.makers() {
		if fn.Signature.Recv() != nil && fn.Name() == "ToResponse" {
			continue
		}
		r.root(fn)
		for _, ver := range []int64{0x20, 0x30} {
			r.guard(fullName(fn), func() {
				r.refine(func(r *Report) {
					pdus, _ := r.makePdus(fn, ver)
					r.check(len(pdus) > 0, "produces", fn.String(), fn.Pos(), fullName(fn), "no message produced")
					used := map[string]int{}
					for _, x := range pdus {
						r.headWords(x, used)
					}
				})
			})
		}
	}
	r.atLeast("produces", 20)
	r.atLeast("command-code", 20)
	r.atLeast("sequence", 20)
}

func (r *Report) headWords(x *pdu, used map[string]int) {
	sp := specOf(x.pk, x.typ.Obj().Name())
	if sp == nil {
		r.fail("undecided", x.typ.String(), x.typ.Obj().Pos(), "spec", "message type without an entry in the layout table: "+x.typ.String())
		return
	}
	name := x.String()
	for _, f := range r.encode(x, "") {
		cmd := f.be(4, 4)
		r.check(f.St.eqL(cmd, linC(int64(sp.cmd))), "command-code", x.from.String(), x.from.Pos(), name,
			fmt.Sprintf("%s starts with command code %s instead of %#x", name, cmd, sp.cmd))
		// which sequence?
		var got string
		var words []Lin
		n := int64(1)
		if x.pk == "codec/sgip" {
			n = 3
		}
		for i := int64(0); i < n; i++ {
			words = append(words, f.be(8+4*i, 4))
		}
		ok := false
		why := ""
		if arg := seqArg(x.from); arg != nil {
			if n == 1 && f.St.eqL(words[0], linT(arg)) {
				if x.part && !(x.k != nil && f.St.eqL(linT(x.k), linC(0))) {
					why = "a part other than the first reuses the given sequence number"
				} else {
					ok = true
				}
			}
		}
		if !ok && why == "" {
			for _, ev := range x.delta {
				if ev.Kind == "nextval" && sameSeq(f.St, words, ev.Args[1]) {
					ok, got = true, ev.Args[1].key()
				}
			}
			if !ok && n == 3 && x.part && x.k != nil && f.St.eqL(linT(x.k), linC(0)) {
				// the first part keeps the number drawn before the loop
				for _, ev := range f.St.trace.list() {
					if ev.Kind == "nextval" && sameSeq(f.St, words, ev.Args[1]) {
						ok, got = true, ev.Args[1].key()
					}
				}
			}
			if !ok {
				why = fmt.Sprintf("sequence bytes %v are neither the given sequence number nor one drawn for this message", words)
			}
		}
		r.check(ok, "sequence", x.from.String(), x.from.Pos(), name, name+": "+why)
		_ = got
	}
}

func seqArg(fn *ssa.Function) *Term {
	for _, q := range fn.Params {
		if isInt(q.Type()) && strings.HasPrefix(strings.ToLower(q.Name()), "seq") {
			return mk("arg:" + fn.String() + "." + q.Name())
		}
	}
	// the only integer parameter that is as wide as a sequence number
	var r *Term
	for _, q := range fn.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint32 {
			if r != nil {
				return nil
			}
			r = mk("arg:" + fn.String() + "." + q.Name())
		}
	}
	return r
}

func sameSeq(st *State, words []Lin, drawn Val) bool {
	switch d := drawn.(type) {
	case IntV:
		if st.eqL(words[0], d.L) {
			return true
		}
		// narrowed to 32 bits
		return len(words[0].T) == 1 && words[0].C == 0 && mentions(words[0], d.L)
	case TermV:
		for i, w := range words {
			if len(w.T) != 1 || w.C != 0 || w.T[0].T.Op != "seqpart"+strconv.Itoa(i) || w.T[0].T.Args[0].key() != d.key() {
				return false
			}
		}
		return true
	}
	return false
}

// mentions: every leaf of l is a leaf of m.
func mentions(l, m Lin) bool {
	want := map[*Term]bool{}
	for _, t := range m.T {
		want[t.T] = true
	}
	found := false
	leaves(IntV{l}, func(t *Term) bool {
		if want[t] {
			found = true
			return false
		}
		return true
	})
	return found
}

// leaves walks the terms of a value; the callback says whether to descend.
func leaves(v Val, f func(t *Term) bool) {
	switch x := v.(type) {
	case IntV:
		for _, t := range x.L.T {
			leaves(TermV{T: t.T}, f)
		}
	case BoolV:
		for _, t := range x.C.L.T {
			leaves(TermV{T: t.T}, f)
		}
		if x.C.T != nil {
			leaves(TermV{T: x.C.T}, f)
		}
	case StrV:
		leaves(TermV{T: x.T}, f)
		for _, t := range x.Len.T {
			if t.T.Op != "len" {
				leaves(TermV{T: t.T}, f)
			}
		}
	case TermV:
		if f(x.T) {
			for _, a := range x.T.Args {
				leaves(a, f)
			}
		}
	case IfaceV:
		leaves(x.V, f)
	case *StructV:
		if x.Base != nil {
			leaves(TermV{T: x.Base}, f)
		}
		for _, k := range sortedKeys(x.F) {
			leaves(x.F[k], f)
		}
	case TupleV:
		for _, y := range x {
			leaves(y, f)
		}
	case PtrV:
		if o := symObjs[x.Obj]; o != nil && o.Sym != nil {
			leaves(TermV{T: o.Sym}, f)
		}
	case SliceV:
		if o := symObjs[x.Obj]; o != nil && o.Sym != nil {
			leaves(TermV{T: o.Sym}, f)
		}
	}
}
