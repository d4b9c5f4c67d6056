package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID    string
	Level string // proof or other
	Tech  string // short name of the deciding method
	Rule  string // what the check enumerates and by which rule it decides
	Assum []string
	Run   func(r *Report)
}

var checks []*Check

func register(c *Check) { checks = append(checks, c) }

// Finding is a violated (or undecided) obligation. Key has no line numbers.
type Finding struct {
	Rule  string   `json:"rule"`
	Fn    string   `json:"function"`
	Where string   `json:"where"`
	Msg   string   `json:"message"`
	Key   string   `json:"key"`
	Trace []string `json:"trace,omitempty"`
}

type ruleStat struct {
	N, Bad, Min int
	Sample      []string
}

// Report collects what a check analysed and found.
type Report struct {
	P     *Program
	C     *Check
	Deep  bool
	Rules map[string]*ruleStat
	Finds []Finding
	Fns   map[string]bool
	Roots []string
	Calls int
	Steps int
	Ends  int // abstract end states
	seen  map[string]bool
	tune  func(e *Engine) // adjusts the engines of makePdus
	fine  bool            // path-sensitive mode of the run in progress
}

func newReport(p *Program, c *Check, deep bool) *Report {
	return &Report{P: p, C: c, Deep: deep, Rules: map[string]*ruleStat{}, Fns: map[string]bool{}, seen: map[string]bool{}}
}

func (r *Report) rule(name string) *ruleStat {
	s := r.Rules[name]
	if s == nil {
		s = &ruleStat{Min: 1}
		r.Rules[name] = s
	}
	return s
}

// atLeast declares how many instances of a rule a meaningful run must have seen.
func (r *Report) atLeast(name string, n int) { r.rule(name).Min = n }

func (r *Report) ok(name, what string) {
	s := r.rule(name)
	s.N++
	if len(s.Sample) < 3 && what != "" {
		s.Sample = append(s.Sample, what)
	}
}

// fail records a violation, once per key.
func (r *Report) fail(name, fn string, pos token.Pos, key, msg string, trace ...string) {
	r.failAt(name, fn, r.P.pos(pos), key, msg, trace...)
}

func (r *Report) failAt(name, fn, where, key, msg string, trace ...string) {
	s := r.rule(name)
	s.N++
	s.Bad++
	fn = strings.ReplaceAll(fn, modPath, "")
	k := name + "|" + fn + "|" + key
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	msg = short(msg)
	r.Finds = append(r.Finds, Finding{Rule: name, Fn: fn, Where: where, Msg: msg, Key: k, Trace: trace})
}

func short(s string) string {
	if len(s) > 400 && os.Getenv("GOSMS_TRACE") == "" {
		return s[:400] + "…"
	}
	return s
}

// check is ok or fail.
func (r *Report) check(cond bool, name, fn string, pos token.Pos, key, msg string) bool {
	if cond {
		r.ok(name, key)
		return true
	}
	r.fail(name, fn, pos, key, msg)
	return false
}

// guard runs part of a check; what cannot be decided is a finding.
func (r *Report) guard(what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecidedErr); ok && os.Getenv("GOSMS_DEBUG") != "2" {
				r.failAt("undecided", what, "-", u.msg, "cannot be decided: "+u.msg)
				return
			}
			if os.Getenv("GOSMS_DEBUG") != "" {
				panic(x)
			}
			r.failAt("undecided", what, "-", fmt.Sprint(x), "analysis failed: "+fmt.Sprint(x))
		}
	}()
	f()
}

// refine runs part of a check with joined paths first, and keeps the paths apart
// where that does not settle it.
func (r *Report) refine(f func(r *Report)) {
	try := func(fine bool) *Report {
		s := newReport(r.P, r.C, r.Deep)
		s.fine = fine
		s.guard("analysis", func() { f(s) })
		return s
	}
	s := try(false)
	if len(s.Finds) > 0 {
		t := try(true)
		if len(t.Finds) == 0 {
			s = t
		} else if os.Getenv("GOSMS_TRACE") != "" {
			for _, f := range t.Finds {
				fmt.Println("still, path-sensitively:", f.Rule, f.Msg)
			}
		}
	}
	r.absorb(s)
}

func (r *Report) absorb(s *Report) {
	for n, x := range s.Rules {
		y := r.rule(n)
		y.N += x.N
		y.Bad += x.Bad
		for _, z := range x.Sample {
			if len(y.Sample) < 3 {
				y.Sample = append(y.Sample, z)
			}
		}
	}
	for _, f := range s.Finds {
		if !r.seen[f.Key] {
			r.seen[f.Key] = true
			r.Finds = append(r.Finds, f)
		}
	}
	for f := range s.Fns {
		r.Fns[f] = true
	}
	r.Roots = append(r.Roots, s.Roots...)
	r.Calls += s.Calls
	r.Steps += s.Steps
	r.Ends += s.Ends
}

// engine makes an engine and books its statistics when done.
func (r *Report) done(e *Engine, outs int) {
	for f := range e.Fns {
		r.Fns[f] = true
	}
	r.Calls += e.Calls
	r.Steps += e.steps
	r.Ends += outs
}

func (r *Report) root(fn *ssa.Function) { r.Roots = append(r.Roots, fullName(fn)) }

// takeObls moves the engine's proof obligations into the report.
func (r *Report) takeObls(e *Engine, rule string) {
	for _, k := range sortedKeys(e.Obls) {
		o := e.Obls[k]
		if o.Bad == 0 {
			r.ok(rule, fmt.Sprintf("%s %s in %s at %s", o.Kind, o.Detail, strings.ReplaceAll(o.Fn, modPath, ""), r.P.pos(o.Pos)))
			continue
		}
		r.fail(rule, o.Fn, o.Pos, o.Kind+"|"+o.Detail, fmt.Sprintf("%s: cannot show %s (needs %s)", o.Kind, o.Detail, o.Why), "via "+o.Stack)
	}
}

func traceStr(p *Program, evs []*Ev) []string {
	var r []string
	for _, e := range evs {
		s := fmt.Sprintf("%s [%s] %s", p.pos(e.Pos), e.Ctx, e.Kind)
		for _, a := range e.Args {
			x := show(a)
			if len(x) > 60 {
				x = x[:60] + "…"
			}
			s += " " + x
		}
		r = append(r, s)
	}
	return r
}

// known findings: lines "known: property=<id> key=<key> :: <what>"
func loadKnown(path string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, ok := strings.Cut(l, " key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " :: ")
		m[id+"\x00"+key] = what
	}
	return m
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish(verif, tier string, start time.Time, known map[string]string) int {
	for _, n := range sortedKeys(r.Rules) {
		s := r.Rules[n]
		if s.N < s.Min {
			r.failAt("coverage", n, "-", n, fmt.Sprintf("rule %s met only %d of at least %d instances: the code it judges was not found", n, s.N, s.Min))
		}
	}
	id := r.C.ID
	obl, bad := 0, 0
	for _, s := range r.Rules {
		obl += s.N
		bad += s.Bad
	}
	var viol []Finding
	nKnown := 0
	for _, f := range r.Finds {
		if what, ok := known[id+"\x00"+f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			nKnown++
			continue
		}
		viol = append(viol, f)
	}
	rules := map[string]any{}
	var samples []string
	for _, n := range sortedKeys(r.Rules) {
		s := r.Rules[n]
		rules[n] = map[string]any{"instances": s.N, "violated": s.Bad, "minimum_instances": s.Min}
		for _, x := range s.Sample {
			samples = append(samples, n+": "+x)
		}
	}
	cov := map[string]any{
		"obligations": obl, "discharged": obl - bad,
		"rule": r.C.Rule, "rules": rules, "samples": samples,
		"roots": r.Roots, "functions_analysed": len(r.Fns), "calls_interpreted": r.Calls, "instructions_interpreted": r.Steps, "end_states": r.Ends,
		"source_files_type_checked": r.P.Files,
		"checker_cmd":               "./run.sh " + id + " " + tier,
		"trusted_base":              trusted,
		"known_findings_matched":    nKnown,
	}
	if r.C.Level == "other" {
		cov["explanation"] = r.C.Rule
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": r.C.Level, "coverage": cov, "wall_s": time.Since(start).Seconds(),
		"violations": len(viol), "assumptions": append([]string{}, r.C.Assum...)}
	if len(viol) > 0 {
		ev["findings"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if len(viol) == 0 {
		fmt.Printf("%s: held on everything analysed: %d obligations, %d functions, %d roots (%.1fs)\n", id, obl, len(r.Fns), len(r.Roots), time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(dir, id+".replay.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "re-run: cd /verif && ./run.sh %s %s\n", id, tier)
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Key < viol[j].Key })
	for _, f := range viol {
		fmt.Fprintf(&sb, "\n[%s] %s\n  at %s in %s\n  key %s\n", f.Rule, f.Msg, f.Where, f.Fn, f.Key)
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for _, f := range viol {
		fmt.Printf("  [%s] %s in %s: %s\n", f.Rule, f.Where, f.Fn, f.Msg)
		if os.Getenv("GOSMS_TRACE") != "" {
			for _, t := range f.Trace {
				fmt.Println("      ", t)
			}
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

var trusted = []string{
	"the Go type checker and the SSA construction of golang.org/x/tools",
	"the abstract interpreter in /verif/analyzer (joins, loop generalisation with checked induction, linear arithmetic by Fourier-Motzkin)",
	"the models of library calls listed in analyzer/external.go (gnet, ants, sync, time, net, encoding/binary, rate)",
}
