package main

import (
	"fmt"
	"strings"
)

// debugFn prints the abstract outcomes of one function (development aid).
func debugFn(p *Program, spec string) {
	spec, bind, _ := strings.Cut(spec, ":")
	i := strings.LastIndexByte(spec, '.')
	fn := p.fn(spec[:i], spec[i+1:])
	e := NewEngine(p)
	e.Want["append"] = true
	e.OnBack = func(st *State, l *loopInfo, d []*Ev) {
		fmt.Println("-- iteration end")
		for _, s := range traceStr(p, d) {
			fmt.Println("   ", s)
		}
	}
	args := symArgs(e, fn)
	if n, v, ok := strings.Cut(bind, "="); ok {
		for i, q := range fn.Params {
			if q.Name() == n {
				x := int64(0)
				fmt.Sscan(v, &x)
				args[i] = IntV{linC(x)}
			}
		}
	}
	outs := e.Run(fn, args, nil, newState(p.base), fn.Pos())
	for _, o := range outs {
		fmt.Println("== outcome panic:", o.Panic)
		for _, v := range o.Res {
			fmt.Println("  ", show(v))
			if s, ok := v.(SliceV); ok && s.Obj != "" {
				ob := o.St.obj(s.Obj)
				fmt.Println("    hav", ob.Hav, "sum", ob.Sum.key(), "all", o.St.sumObj(ob).key(), "F", len(ob.F))
			}
		}
		for _, l := range o.St.Lins.le {
			fmt.Println("   le", l)
		}
		for _, l := range o.St.Lins.eq {
			fmt.Println("   eq", l)
		}
	}
}
