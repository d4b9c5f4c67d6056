package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	prop := flag.String("property", "", "property id(s), comma separated, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "directory of the framework")
	dbg := flag.String("debugfn", "", "print the outcomes of one function (pkg.Func)")
	list := flag.Bool("list", false, "list the checks as JSON lines")
	flag.Parse()
	if *list {
		sort.Slice(checks, func(i, j int) bool { return checks[i].ID < checks[j].ID })
		for _, c := range checks {
			t := c.Tech
			if t == "" {
				t = "abstract interpretation"
			}
			b, _ := json.Marshal(map[string]string{"id": c.ID, "level": c.Level, "rule": c.Rule, "technique": t, "assumptions": strings.Join(c.Assum, "; ")})
			fmt.Println(string(b))
		}
		return
	}
	if *dbg != "" {
		p, err := loadSafe()
		if err != nil {
			fmt.Println(err)
			return
		}
		if *dbg == "client" {
			dbgClient(p)
			return
		}
		if *dbg == "server" {
			dbgServer(p)
			return
		}
		debugFn(p, *dbg)
		return
	}
	if f := os.Getenv("GOSMS_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(15 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
	}
	start := time.Now()
	sort.Slice(checks, func(i, j int) bool { return checks[i].ID < checks[j].ID })
	var sel []*Check
	for _, c := range checks {
		if *prop == "all" {
			sel = append(sel, c)
			continue
		}
		for _, x := range strings.Split(*prop, ",") {
			if c.ID == x {
				sel = append(sel, c)
			}
		}
	}
	if len(sel) == 0 {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	p, err := loadSafe()
	code := 0
	known := loadKnown(*verif + "/known-findings.txt")
	for _, c := range sel {
		if err != nil {
			p = &Program{}
			r := newReport(p, c, false)
			r.failAt("load", "-", "-", "load", "the source cannot be analysed: "+err.Error())
			code |= r.finish(*verif, *tier, start, known)
			continue
		}
		t0 := start
		if len(sel) > 1 {
			t0 = time.Now()
		}
		r := newReport(p, c, *tier == "thorough")
		r.guard(c.ID, func() { c.Run(r) })
		code |= r.finish(*verif, *tier, t0, known)
	}
	os.Exit(code)
}

func loadSafe() (p *Program, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecidedErr); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			if os.Getenv("GOSMS_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("%v", r)
		}
	}()
	return Load()
}
