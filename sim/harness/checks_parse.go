package main

import (
	"fmt"
	"runtime"
	"strings"

	tk "github.com/shellyln/takenoco/base"
	strparser "github.com/shellyln/takenoco/string"
	"verif.local/vsim"
)

// ParseCase: one grammar, a list of operations of one or several goroutines.
type ParseCase struct {
	G    *Gram  `json:"gram"`
	Prep []Op   `json:"prep,omitempty"` // results held before the run starts
	Ops  []Op   `json:"ops"`
	S    Sched  `json:"sched"`
	N    int    `json:"n,omitempty"`
	K    string `json:"kind,omitempty"`
	St   int64  `json:"st,omitempty"`
	V    int    `json:"v,omitempty"`
	Soak int    `json:"soak,omitempty"` // rounds of further use: the operations again, and bulk text
}

func (c *ParseCase) ok() bool {
	if c.G == nil || len(c.Ops) == 0 || len(c.Ops) > 60 || !c.G.valid() {
		return false
	}
	if c.Soak < 0 || c.Soak > 300 {
		return false
	}
	all := append(append([]Op{}, c.Ops...), c.Prep...)
	if c.badTrace(all) {
		return false
	}
	for _, o := range all {
		if o.Task < 0 || o.Task > 16 || o.Cap > 4096 || o.Cap < -1 || o.Pre < 0 || !opKinds[o.K] || len(o.Obj) > 2000 || len(o.Src) > 3000 || o.N < 0 {
			return false
		}
		for _, t := range o.T {
			if t.K == "toslice" || t.K == "" {
				return false
			}
		}
		if c.G.Obj && o.Src != "" && (o.K == "parse" || o.K == "build") {
			return false
		}
	}
	return true
}

var opKinds = map[string]bool{"parse": true, "build": true, "csv": true, "formula": true, "torpn": true, "tocsv": true, "marshal": true, "unmarshal": true, "trav": true, "prod": true, "oparse": true, "zero": true, "tree": true}

const soloMax = 40000

// soloMax of a case whose longest source has n bytes or items
func soloFor(ops ...Op) int64 {
	for _, o := range ops {
		if len(o.Src) > 80 || len(o.Obj) > 40 || len(o.Recs) > 10 {
			return 600000
		}
	}
	return soloMax
}

func (c *ParseCase) max() int64 { return soloFor(append(append([]Op{}, c.Ops...), c.Prep...)...) }

// world makes a new parser of the case's grammar, with its prepared results.
func (c *ParseCase) world(quiet bool) *World {
	vsim.Reset()
	w := newWorld(c.G)
	w.quiet = quiet
	w.setReent(c)
	s := solo(c.max(), func() {
		w.start()
		w.holding = true
		for i := range c.Prep {
			w.do(-1-i, &c.Prep[i])
		}
		w.holding = false
	})
	if w.root == nil || s.Capped {
		panic(badCase("world could not be built"))
	}
	return w
}

// soak uses the world's parser, and the library, a lot: nothing is recorded.
func (w *World) soak(c *ParseCase, rc *RC) bool {
	if c.Soak == 0 {
		return true
	}
	q, h := w.quiet, w.holding
	w.quiet, w.holding = true, false
	chunk := strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz-", 16)
	text := strings.Repeat(chunk, 100)
	s := solo(int64(c.Soak)*400000, func() {
		bulk := tk.Trans(tk.ZeroOrMoreTimes(strparser.Seq(chunk)), strparser.Concat)
		word := tk.Trans(tk.OneOrMoreTimes(strparser.Seq(chunk[:37])), strparser.Concat)
		for r := 0; r < c.Soak; r++ {
			for i := range c.Ops {
				op := c.Ops[i]
				op.Faults = nil
				w.do(-1000-i, &op)
			}
			// texts of all sizes
			bulk(*strparser.NewStringParserContext(text[:len(text)>>(uint(r*5)%8)]))
			for k := 0; k < 12; k++ {
				word(*strparser.NewStringParserContext(chunk[:37<<(uint(k)%5)]))
			}
		}
	})
	w.quiet, w.holding = q, h
	rc.sim(s)
	rc.add("rounds of further use", int64(c.Soak))
	return !s.Capped && s.Deadlock == ""
}

func (w *World) setReent(c *ParseCase) {
	w.reent = func(e *Env, n int64) string {
		var op *Op
		for k := 0; k < len(c.Ops); k++ {
			o := &c.Ops[(int(n)+k)%len(c.Ops)]
			if o.K == "parse" {
				op = o
				break
			}
		}
		if op == nil {
			return ""
		}
		e2 := &Env{Op: 1000 + e.Op, W: w, nest: 1, mute: 1}
		defer func() {
			// a failing constructor inside the inner parse
			if e2.Build == "exit" {
				e.Build = "exit"
			} else if e2.Build != "" && e.Build == "" {
				e.Build = "inner"
			}
		}()
		o := inEnv(e2, false, func(o *Outcome) {
			ctx := w.newCtx(op, e2)
			out, err := w.root(ctx)
			o.setCtx(out, err)
		})
		if e2.Bad != "" && e.Bad == "" {
			e.Bad = e2.Bad
		}
		if o.quiet {
			return ""
		}
		return o.key()
	}
}

// alone runs every operation by itself on a fresh parser.
func (c *ParseCase) alone(rc *RC) ([]*Outcome, int64, bool) {
	outs := make([]*Outcome, len(c.Ops))
	sum := int64(0)
	for i := range c.Ops {
		w := c.world(false)
		i := i
		s := solo(c.max(), func() { outs[i] = w.do(i, &c.Ops[i]) })
		if s.Capped || s.Deadlock != "" || outs[i] == nil {
			return nil, 0, false
		}
		rc.sim(s)
		sum += s.Steps
	}
	return outs, sum, true
}

func compareOutcomes(a, b *Outcome, i int, what string) *Violation {
	if b == nil {
		return viol("never-ended", "op%d never ended %s", i, what)
	}
	if b.Env.Bad != "" {
		return viol("foreign-data", "op%d: %s", i, b.Env.Bad)
	}
	if x, y := a.key(), b.key(); x != y {
		return viol("outcome-differs", "op%d alone on a fresh parser: %s; %s: %s", i, clip(x, 600), what, clip(y, 600))
	}
	if d := diffLines(a.Env.Log, b.Env.Log); d != "" {
		return viol("callbacks-differ", "op%d callbacks, alone vs %s: %s", i, what, d)
	}
	return nil
}

func genConc(r *Rand, o genOpt, faults []string, tasks, ops int) *ParseCase {
	c := &ParseCase{G: genGram(r, o), S: genSched(r)}
	nt := 2 + r.Intn(tasks-1)
	if r.Intn(60) == 0 {
		nt = 6 + r.Intn(8)
	}
	no := nt + r.Intn(ops)
	same, own := r.Intn(3) == 0, r.Intn(4) == 0
	front := ""
	if r.Intn(8) == 0 {
		front = pick(r, "csv", "formula", "torpn", "formula", "any")
	}
	for i := 0; i < no; i++ {
		k := mixedKind(r)
		if front != "" {
			k = front
			if k == "any" {
				k = pick(r, "csv", "formula", "torpn", "unmarshal", "marshal", "tocsv")
			}
		}
		op := genOp(r, c.G, k)
		if front != "" && op.Src != "" && r.Intn(2) == 0 {
			op.Src = mutate(r, op.Src)
		}
		if same && i > 0 && r.Intn(2) == 0 {
			op = c.Ops[0]
			op.Faults = nil
		}
		op.Task = i % nt
		if i >= nt {
			op.Task = r.Intn(nt)
		}
		if r.Intn(2) == 0 {
			op.Faults = genFaults(r, faults, 1+r.Intn(2))
		}
		op.Own = own && r.Intn(2) == 0
		c.Ops = append(c.Ops, op)
	}
	return c
}

func genSoak(r *Rand) int {
	if r.Intn(30) == 0 {
		return 1 + r.Intn(pick(r, 3, 3, 3, 3, 3, 3, 20, 200))
	}
	return 0
}

func runConcurrent(c *ParseCase, rc *RC) *Violation {
	if !c.ok() {
		rc.Discard = true
		return nil
	}
	alone, sum, ok := c.alone(rc)
	if !ok {
		rc.Discard = true
		return nil
	}
	w := c.world(false)
	if !w.soak(c, rc) {
		rc.Discard = true
		return nil
	}
	outs, s := w.runAll(c.Ops, c.S.config(sum*50+100000))
	rc.sim(s)
	rc.Trace = s.Trace
	if v := trouble(s); v != nil {
		return v
	}
	for i := range outs {
		if v := compareOutcomes(alone[i], outs[i], i, "together with the other operations"); v != nil {
			return v
		}
		rc.note(outs[i].key())
		rc.add("outcome "+outs[i].Kind, 1)
	}
	if w.bad != "" {
		return viol("constructor", "%s", w.bad)
	}
	if s.Switches >= 2 {
		rc.nontrivial()
	}
	return nil
}

// ---- C01 ---------------------------------------------------------------------------

var realAll = []string{"base", "string", "object", "extra", "_examples/csv", "_examples/formula", "_examples/torpn (all from /repo's working tree, instrumented copy)", "Go standard library"}
var stubAll = []string{"sync primitives, time, math/rand, map iteration order, channels and goroutine scheduling used by takenoco (simulated)", "user callbacks, sources and caller slices (generated by the simulator)"}

var allFaults = []string{"err", "err", "panic", "panic", "unm", "unm", "exit", "stall", "stall", "reent", "far", "errnil"}

func init() {
	r := reg("C01", 220000, 2400000, func(r *Rand) *ParseCase {
		c := genConc(r, genOpt{obj: 2, shared: r.Intn(2) == 0}, allFaults, 4, 4)
		if r.Intn(4) == 0 {
			for i := 0; i < 1+r.Intn(2); i++ {
				c.Prep = append(c.Prep, genPrep(r, c.G))
			}
			for i := range c.Ops {
				if r.Intn(2) == 0 {
					t := c.Ops[i].Task
					c.Ops[i] = genReuse(r, c.Ops[i].Faults)
					c.Ops[i].Task = t
				}
			}
		}
		return c
	}, runConcurrent, func(c *ParseCase) *Sched { return &c.S },
		"A generated grammar over the public API (or a bundled front end), 2-4 goroutines with 2-8 operations, injected callback errors, panics, mismatches, goroutine exits, stalls and re-entrant parses, and a seeded schedule; each operation is compared with the same operation alone on a fresh parser (status, position, tokens, error, panic value, callback log). Non-trivial: at least two context switches inside the code under test.")
	r.Real, r.Stub = realAll, stubAll
}

func genPrep(r *Rand, g *Gram) Op {
	if r.Intn(3) == 0 {
		return Op{K: "tree", N: r.Intn(1000), Cap: 4}
	}
	return genOp(r, g, "parse")
}

func genReuse(r *Rand, f []Fault) Op {
	op := Op{K: pick(r, "trav", "trav", "prod", "oparse", "zero"), Ref: r.Intn(8), N: r.Intn(12), Faults: f}
	if op.K == "zero" {
		for i := 0; i < 1+r.Intn(3); i++ {
			op.T = append(op.T, Tr{K: pick(r, "setop", "setopc", "cls", "setval", "prepend", "push", "pop", "exch", "roll", "group", "concat", "trim", "erase"), N: r.Intn(5), S: "w"})
		}
	}
	return op
}

// ---- C02 ---------------------------------------------------------------------------

func init() {
	r := reg("C02", 50000, 1200000, func(r *Rand) *ParseCase {
		c := genConc(r, genOpt{obj: 2, shared: r.Intn(2) == 0}, []string{"err", "panic", "panic", "unm", "exit", "stall", "errnil", "errnil"}, 4, 4)
		for i := range c.Ops {
			if c.Ops[i].K == "build" {
				c.Ops[i].K = "parse"
			}
		}
		if r.Intn(3) == 0 {
			for i := 0; i < 1+r.Intn(2); i++ {
				c.Prep = append(c.Prep, genPrep(r, c.G))
			}
			for i := range c.Ops {
				if r.Intn(2) == 0 {
					t := c.Ops[i].Task
					c.Ops[i] = genReuse(r, c.Ops[i].Faults)
					c.Ops[i].Task = t
				}
			}
		}
		return c
	}, func(c *ParseCase, rc *RC) *Violation {
		if !c.ok() {
			rc.Discard = true
			return nil
		}
		// bound the work first
		for i := range c.Ops {
			w := c.world(true)
			var o *Outcome
			s := solo(c.max(), func() { o = w.do(i, &c.Ops[i]) })
			if s.Capped || s.Deadlock != "" || o == nil {
				rc.Discard = true
				return nil
			}
		}
		w := c.world(true)
		newRaces()
		outs, s := w.runAll(c.Ops, c.S.config(400000*int64(len(c.Ops))))
		rc.sim(s)
		rc.Trace = s.Trace
		if rs := newRaces(); len(rs) > 0 {
			return viol("data-race", "unsynchronised conflicting accesses: %s", clip(strings.Join(rs, "; "), 600))
		}
		for _, o := range outs {
			if o != nil {
				rc.add("outcome "+o.Kind, 1)
			}
		}
		runtime.KeepAlive(outs)
		if s.Switches >= 2 {
			rc.nontrivial()
		}
		return nil
	}, func(c *ParseCase) *Sched { return &c.S },
		"As C01, in a build with the Go race detector in which only takenoco is instrumented and the simulator's own hand-over between goroutines creates no happens-before edge, so every pair of conflicting accesses not ordered by takenoco's own synchronisation is reported whatever the schedule was. Non-trivial: at least two context switches inside the code under test.")
	r.Race = true
	r.Real, r.Stub = append(realAll, "Go race detector"), stubAll
}

// ---- C03 ---------------------------------------------------------------------------

func init() {
	r := reg("C03", 140000, 2000000, func(r *Rand) *ParseCase {
		c := &ParseCase{G: genGram(r, genOpt{obj: 2, shared: r.Intn(2) == 0})}
		c.S.Kind = "seq"
		n := 3 + r.Intn(6)
		own := r.Intn(4) == 0
		for i := 0; i < n; i++ {
			op := genOp(r, c.G, mixedKind(r))
			if i > 0 && r.Intn(3) == 0 {
				op = c.Ops[r.Intn(i)]
				op.Faults = nil
				if r.Intn(2) == 0 {
					op = op.tweak(r)
				}
			}
			if r.Intn(2) == 0 {
				op.Faults = genFaults(r, []string{"err", "panic", "panic", "unm", "exit", "reent", "far", "errnil"}, 1+r.Intn(2))
			}
			op.Own = own && r.Intn(2) == 0
			c.Ops = append(c.Ops, op)
		}
		if !own && r.Intn(5) == 0 {
			c.Prep = append(c.Prep, genPrep(r, c.G), genPrep(r, c.G))
			for i := range c.Ops {
				if r.Intn(2) == 0 {
					c.Ops[i] = genReuse(r, c.Ops[i].Faults)
				}
			}
		}
		c.Soak = genSoak(r)
		return c
	}, func(c *ParseCase, rc *RC) *Violation {
		for i := range c.Ops {
			c.Ops[i].Task = 0
		}
		v := runConcurrent(c, rc)
		rc.nontriv = v == nil && !rc.Discard && len(c.Ops) >= 2 && rc.Steps > 0
		return v
	}, nil,
		"A generated grammar and a history of 3-8 operations on one parser, with injected errors, panics, mismatches, goroutine exits and re-entrant parses; one history in 30 begins with up to 200 rounds of ordinary use. Every operation is compared with the same operation on a freshly built parser. Non-trivial: at least two operations ran.")
	r.Real, r.Stub = realAll, stubAll
}

// ---- C04 ---------------------------------------------------------------------------

func init() {
	r := reg("C04", 180000, 3000000, func(r *Rand) *ParseCase {
		c := genConc(r, genOpt{obj: 2}, []string{"err", "panic", "unm", "exit", "stall"}, 3, 5)
		if r.Intn(3) == 0 {
			for i := range c.Ops {
				c.Ops[i].Task = 0
			}
		}
		for i := range c.Ops {
			c.Ops[i].Own = false
		}
		n := len(c.Ops)
		for i := 0; i < 1+r.Intn(4); i++ {
			op := genReuse(r, nil)
			if r.Intn(3) == 0 {
				op.Faults = genFaults(r, []string{"err", "panic", "unm"}, 1)
			}
			op.Task = c.Ops[r.Intn(n)].Task
			c.Ops = append(c.Ops, op)
		}
		if r.Intn(4) == 0 {
			c.Prep = append(c.Prep, genPrep(r, c.G))
		}
		c.Soak = genSoak(r)
		return c
	}, func(c *ParseCase, rc *RC) *Violation {
		if !c.ok() {
			rc.Discard = true
			return nil
		}
		w := c.world(false)
		w.holding = true
		outs, s := w.runAll(c.Ops, c.S.config((c.max()+20000)*int64(len(c.Ops))))
		if s.Capped {
			rc.Discard = true
			return nil
		}
		rc.sim(s)
		rc.Trace = s.Trace
		if !w.soak(c, rc) {
			rc.Discard = true
			return nil
		}
		if x := w.heldCheck(); x != "" {
			return viol("result-altered", "%s", x)
		}
		if x := w.supplyCheck(); x != "" {
			return viol("supplied-data-altered", "%s", x)
		}
		rc.add("results held", int64(len(w.held)))
		rc.add("supplied objects", int64(len(w.sup)))
		for _, h := range w.held {
			rc.note(h.fp)
		}
		runtime.KeepAlive(outs)
		if len(w.held) > 1 {
			rc.nontrivial()
		}
		return nil
	}, func(c *ParseCase) *Sched { return &c.S },
		"Operations of 1-3 goroutines, among them parses, traversals, production rules, object parses and Zero/transformer parsers over results held from earlier operations, with injected failures; every held result and every object the caller supplied is fingerprinted (to depth 40, positions included) when it is handed over and again after the run (after one run in 30 there are up to 200 rounds of further use, with megabytes of text, first). Non-trivial: at least two results were held.")
	r.Real, r.Stub = realAll, stubAll
}

// ---- C07 ---------------------------------------------------------------------------

func init() {
	r := reg("C07", 650000, 9000000, func(r *Rand) *ParseCase {
		c := &ParseCase{G: genGram(r, genOpt{obj: 2, cb: 30 + r.Intn(50), shared: r.Intn(3) == 0})}
		c.Ops = []Op{genOp(r, c.G, "parse")}
		if r.Intn(6) == 0 {
			c.Prep = []Op{genPrep(r, c.G)}
			c.Ops = []Op{{K: "prod", N: r.Intn(4)}}
		}
		c.K = pick(r, "err", "err", "panic", "none")
		c.N = r.Intn(1000)
		c.St = int64(r.Intn(3))
		if r.Intn(3) == 0 {
			c.V = 1 + r.Intn(errKinds-1)
		}
		return c
	}, func(c *ParseCase, rc *RC) *Violation {
		if !c.ok() || len(c.Ops) != 1 || c.N < 0 || (c.K != "err" && c.K != "panic" && c.K != "none") {
			rc.Discard = true
			return nil
		}
		c.Ops[0].Faults = nil
		run := func(f []Fault) (*Outcome, *vsim.Sim) {
			vsim.Reset()
			w := newWorld(c.G)
			w.watch = true
			var o *Outcome
			op := c.Ops[0]
			op.Faults = f
			if solo(c.max(), func() {
				w.start()
				w.holding = true
				for i := range c.Prep {
					w.do(-1-i, &c.Prep[i])
				}
				w.holding = false
			}).Capped {
				panic(badCase("preparation too long"))
			}
			s := solo(c.max(), func() { o = w.do(0, &op) })
			return o, s
		}
		o, s := run(nil)
		if s.Capped || o == nil {
			rc.Discard = true
			return nil
		}
		n := o.Env.N
		if c.K != "none" {
			if n == 0 {
				rc.Discard = true
				return nil
			}
			// the c.N'th callback that can fail in this way
			var at []int
			for i := 0; i < n && i < 400; i++ {
				at = append(at, i)
			}
			k := at[c.N%len(at)]
			o, s = run([]Fault{{At: k, K: c.K, N: c.St, V: c.V}})
			if s.Capped || o == nil {
				rc.Discard = true
				return nil
			}
			rc.add("callbacks of the undisturbed parse", int64(n))
		}
		rc.sim(s)
		rc.note(o.key())
		e := o.Env
		if len(e.Late) > 0 {
			return viol("late-callback", "after the failure (%v %v) the parse still called: %v", e.Fired, e.libErr, e.Late)
		}
		if e.Bad != "" {
			return viol("foreign-data", "%s", e.Bad)
		}
		switch {
		case e.Pan != nil:
			if o.Kind != "panic" || !same(o.pv, e.Pan) {
				return viol("panic-lost", "callback %d panicked with %#v; the caller got %s", e.PanAt, e.Pan, clip(o.key(), 300))
			}
			rc.nontrivial()
		case e.Err != nil || e.libErr != nil:
			want := e.libErr
			if e.Err != nil {
				want = e.Err
			}
			if o.Kind != "err" {
				return viol("error-lost", "the parse raised %q; the caller got %s", want, clip(o.key(), 300))
			}
			if !same(o.err, want) {
				return viol("error-changed", "the parse raised %q; the caller got %s", want, clip(o.key(), 300))
			}
			if c.Ops[0].K == "parse" && o.Status != int(tk.MatchStatus_Error) && !rawRoot(c.G) {
				return viol("error-status", "error %q came with status %v", want, tk.MatchStatusType(o.Status))
			}
			rc.nontrivial()
		default:
			if o.Kind == "err" && !hasProduction(c.G, c.Ops[0].K) {
				return viol("stray-error", "nothing raised an error; the caller got %q", o.Err)
			}
			if c.Ops[0].K == "parse" && o.Kind == "ok" && o.Status == int(tk.MatchStatus_Error) {
				return viol("error-status", "nothing raised an error; the status is Error")
			}
		}
		return nil
	}, nil,
		"A generated grammar with many callbacks; the undisturbed parse is counted, then one callback is made to return an error (with any status) or to panic; also failing library transformers and error assertions. Identity of the error/panic value, error status, and no callback afterwards. Non-trivial: a failure was raised.")
	r.Real, r.Stub = realAll, stubAll
}

// rawRoot: the outermost parser is the caller's own function, not one of the library.
func rawRoot(g *Gram) bool {
	n := g.Rules[0]
	for n.K == "if" {
		n = n.C[n.N&1]
	}
	return n.K == "raw"
}

func hasProduction(g *Gram, op string) bool {
	if op == "prod" {
		return true
	}
	for _, n := range g.Rules {
		if hasKind(n, "calc") {
			return true
		}
		for _, k := range []string{"date", "datetime", "time"} {
			if hasKind(n, k) {
				return true
			}
		}
	}
	return false
}

// ---- C08 ---------------------------------------------------------------------------

func init() {
	r := reg("C08", 180000, 2100000, func(r *Rand) *ParseCase {
		c := genConc(r, genOpt{obj: 2, shared: true}, []string{"err", "panic", "stall", "reent"}, 5, 4)
		for i := range c.Ops {
			k := c.Ops[i]
			if k.K != "parse" {
				op := genOp(r, c.G, "parse")
				op.Task, op.Faults = k.Task, k.Faults
				c.Ops[i] = op
			}
			if r.Intn(2) == 0 {
				c.Ops[i].Faults = nil
			}
		}
		for i := 0; i < r.Intn(4); i++ {
			f := BFault{Rule: r.Intn(len(c.G.Rules)), At: r.Intn(1 + r.Intn(3)), K: pick(r, "panic", "panic", "exit", "stall", "hang", "parse")}
			if f.K == "stall" {
				f.N = int64(1+r.Intn(50)) * int64(1+r.Intn(2000))
			}
			c.G.BFaults = append(c.G.BFaults, f)
		}
		return c
	}, func(c *ParseCase, rc *RC) *Violation {
		if !c.ok() {
			rc.Discard = true
			return nil
		}
		bf := c.G.BFaults
		for _, f := range bf {
			switch f.K {
			case "panic", "exit", "stall", "hang", "parse":
			default:
				rc.Discard = true
				return nil
			}
		}
		c.G.BFaults = nil
		alone, sum, ok := c.alone(rc)
		c.G.BFaults = bf
		if !ok {
			rc.Discard = true
			return nil
		}
		w := c.world(false)
		for _, f := range bf {
			if f.K == "exit" {
				w.childOps = true
			}
		}
		outs, s := w.runAll(c.Ops, c.S.config(sum*50+100000))
		rc.sim(s)
		rc.Trace = s.Trace
		if w.bad != "" {
			return viol("constructed-again", "%s", w.bad)
		}
		if v := trouble(s); v != nil {
			return v
		}
		n := 0
		for i, o := range outs {
			if o == nil {
				return viol("never-ended", "op%d never ended", i)
			}
			switch o.Env.Build {
			case "":
				if v := compareOutcomes(alone[i], o, i, "together with the other operations"); v != nil {
					return v
				}
			case "panic":
				rc.add("ops ended by a constructor panic", 1)
				if o.Kind != "panic" || o.pv != o.Env.BuildPanic {
					return viol("constructor-panic", "the constructor panicked during op%d; the caller got %s", i, clip(o.key(), 300))
				}
			case "exit":
				rc.add("ops ended by a constructor exit", 1)
				if o.Kind != "exit" {
					return viol("constructor-exit", "the constructor's goroutine exited during op%d; the caller got %s", i, clip(o.key(), 300))
				}
			}
			rc.note(o.key())
		}
		for _, in := range w.insts {
			if in.shared {
				n += in.attempts
				rc.add("constructions", int64(in.attempts))
				if in.ok > 1 {
					return viol("constructed-again", "rule %d was constructed %d times", in.rule, in.ok)
				}
			}
		}
		if n > 0 && s.Switches >= 2 {
			rc.nontrivial()
		}
		return nil
	}, func(c *ParseCase) *Sched { return &c.S },
		"A grammar of 2-4 rules that refer to each other through shared deferred parsers (over texts, over slices, or over both in turn), 2-5 goroutines racing on their first use, constructors that panic, exit their goroutine, stall, or stay suspended until nothing else can run. Counts successful constructions, overlaps, and compares every parse that was not hit with the same parse alone. Non-trivial: a constructor ran and at least two context switches took place.")
	r.Real, r.Stub = realAll, stubAll
}

// ---- C09 ---------------------------------------------------------------------------

func init() {
	r := reg("C09", 110000, 900000, func(r *Rand) *ParseCase {
		c := genConc(r, genOpt{obj: 2, shared: r.Intn(2) == 0, cb: 30 + r.Intn(40)}, []string{"err", "panic", "panic", "unm", "exit", "exit", "stall", "hang", "hang", "reent", "reent", "far", "errnil"}, 5, 6)
		if r.Intn(3) == 0 {
			for i := 0; i < 1+r.Intn(2); i++ {
				c.G.BFaults = append(c.G.BFaults, BFault{Rule: r.Intn(len(c.G.Rules)), At: r.Intn(2), K: pick(r, "panic", "panic", "exit", "exit", "parse")})
			}
		}
		if r.Intn(10) == 0 {
			c.traced(r)
		}
		return c
	}, func(c *ParseCase, rc *RC) *Violation {
		if !c.ok() {
			rc.Discard = true
			return nil
		}
		bf := c.G.BFaults
		for _, f := range bf {
			if f.K != "panic" && f.K != "exit" && f.K != "parse" {
				rc.Discard = true
				return nil
			}
		}
		c.G.BFaults = nil
		alone, sum, ok := c.alone(rc)
		c.G.BFaults = bf
		if !ok {
			rc.Discard = true
			return nil
		}
		w := c.world(false)
		for _, f := range bf {
			if f.K == "exit" {
				w.childOps = true
			}
		}
		outs, s := w.runAll(c.Ops, c.S.config(sum*50+100000))
		rc.sim(s)
		rc.Trace = s.Trace
		if v := trouble(s); v != nil {
			return v
		}
		if s.BlockedByStall != "" {
			return viol("blocked-by-stall", "%s", s.BlockedByStall)
		}
		if len(s.Leaked) > 0 {
			return viol("leaked-goroutine", "%v", s.Leaked)
		}
		if s.Locked() > 0 {
			return viol("left-locked", "%d locks are still held after all parses have ended", s.Locked())
		}
		for i, o := range outs {
			if o == nil {
				return viol("never-ended", "op%d never ended", i)
			}
			if o.Steps > 20*alone[i].Steps+20000 && o.Env.Build == "" {
				return viol("no-progress", "op%d took %d steps of its own, alone it takes %d", i, o.Steps, alone[i].Steps)
			}
			rc.note(o.Kind, o.Steps)
		}
		// and afterwards the parser still works
		for i := range c.Ops {
			op := c.Ops[i]
			op.Faults = nil
			var o *Outcome
			c.G.BFaults = nil
			w3 := newWorld(c.G)
			long := solo(c.max(), func() { w3.start(); w3.do(i, &op) }).Capped
			c.G.BFaults = bf
			if long {
				continue
			}
			s2 := solo(sum*50+c.max()*20, func() { o = w.do(i, &op) })
			if v := trouble(s2); v != nil {
				v.Msg = "after all parses had ended: " + v.Msg
				return v
			}
			if o == nil {
				return viol("never-ended", "op%d, repeated after all parses had ended, never ended", i)
			}
		}
		rc.add("indefinite stalls released at quiescence", int64(s.Released))
		rc.add("simulated ns skipped by stalls", s.StallJumps)
		if s.Switches >= 2 {
			rc.nontrivial()
		}
		return nil
	}, func(c *ParseCase) *Sched { return &c.S },
		"As C01 with more stalls: callbacks suspended for simulated time or until nothing else can run, goroutine exits, panics, re-entrant parses, failing constructors, and the same in the callbacks of a trace. Deadlock, step bounds (20 times the steps alone + 20000 per parse), goroutines waiting for a goroutine stalled in an ordinary callback, leaked goroutines, locks still held, and a second use afterwards. Non-trivial: at least two context switches.")
	r.Real, r.Stub = realAll, stubAll
}

// ---- C10 ---------------------------------------------------------------------------

type TraceCase struct {
	G   *Gram `json:"gram"`
	G2  *Gram `json:"later"`
	Ops []Op  `json:"ops"`
	S   Sched `json:"sched"`
}

func (n *Node) clone() *Node {
	m := *n
	m.C = nil
	for _, x := range n.C {
		m.C = append(m.C, x.clone())
	}
	return &m
}

func (n *Node) redirect(from, to int) {
	if n.K == "ind" && n.I == from {
		n.I = to
	}
	for _, x := range n.C {
		x.redirect(from, to)
	}
}

func (g *Gram) lazyTrace() bool {
	for i, n := range g.Rules {
		if i > 0 && hasKind(n, "trace") {
			return true
		}
		m := n.clone()
		m.redirect(0, -1)
		if fmt.Sprint(m.inds()) != fmt.Sprint(n.inds()) {
			return true
		}
	}
	return false
}

// badTrace: traced parsers are only for use after their construction, which must not
// happen while others are constructed.
func (c *ParseCase) badTrace(ops []Op) bool {
	has := false
	for i, n := range c.G.Rules {
		if hasKind(n, "dtrace") {
			if i > 0 {
				return true
			}
			has = true
		}
	}
	if !has {
		return false
	}
	for _, n := range c.G.Rules {
		for _, i := range n.inds() {
			if i == 0 {
				return true
			}
		}
	}
	for _, o := range ops {
		if o.K == "build" {
			return true
		}
	}
	return false
}

// traced puts a part of rule 0 under a trace whose callbacks can be struck.
func (c *ParseCase) traced(r *Rand) {
	g := c.G
	g.Rules = append(g.Rules, g.Rules[0].clone())
	for _, x := range g.Rules {
		x.redirect(0, len(g.Rules)-1)
	}
	for i := 0; i < 1+r.Intn(2); i++ {
		n := g.Rules[0]
		for len(n.C) > 0 && r.Intn(3) > 0 {
			n = n.C[r.Intn(len(n.C))]
		}
		m := *n
		*n = Node{K: "dtrace", S: []string{pick(r, "in", "out", "")}, C: []*Node{&m}}
	}
	for i := range c.Ops {
		if c.Ops[i].K == "build" {
			c.Ops[i].K = "parse"
		}
	}
}

func (n *Node) inds() []int {
	var r []int
	if n.K == "ind" {
		r = append(r, n.I)
	}
	for _, x := range n.C {
		r = append(r, x.inds()...)
	}
	return r
}

func init() {
	r := reg("C10", 330000, 4200000, func(r *Rand) *TraceCase {
		c := &TraceCase{G2: genGram(r, genOpt{depth: 2}), S: genSched(r)}
		g := genGram(r, genOpt{obj: 2, shared: r.Intn(3) == 0, cb: 30 + r.Intn(40)})
		// wrap the root and some inner node in trace scopes
		var all []*Node
		var walk func(n *Node)
		walk = func(n *Node) {
			all = append(all, n)
			for _, x := range n.C {
				walk(x)
			}
		}
		walk(g.Rules[0])
		// tracing is documented as not safe while parsers are built elsewhere, hence
		// nothing that is built at parse time has a trace scope
		lazy := g.Rules[0].clone()
		g.Rules = append(g.Rules, lazy)
		for _, x := range g.Rules {
			x.redirect(0, len(g.Rules)-1)
		}
		for i := 0; i < r.Intn(3); i++ {
			n := all[r.Intn(len(all))]
			m := *n
			*n = Node{K: "trace", S: []string{pick(r, "in", "deep", "")}, C: []*Node{&m}}
		}
		g.Rules[0] = &Node{K: "trace", S: []string{"top"}, C: []*Node{g.Rules[0]}}
		if r.Intn(3) == 0 {
			// scopes one after the other, with an untraced part between
			g.Rules[0] = &Node{K: "flat", C: []*Node{{K: "trace", S: []string{"one"}, C: []*Node{{K: "opt", C: []*Node{{K: "light", N: 1, I: 900}}}}}, {K: "opt", C: []*Node{{K: "light", N: 1, I: 901}}}, g.Rules[0]}}
		}
		c.G = g
		nt := 1 + r.Intn(3)
		for i := 0; i < nt+r.Intn(3); i++ {
			op := genOp(r, g, "parse")
			op.Task = i % nt
			if r.Intn(2) == 0 {
				op.Faults = genFaults(r, []string{"err", "panic", "panic", "unm", "stall", "errnil"}, 1+r.Intn(2))
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}, func(c *TraceCase, rc *RC) *Violation {
		pc := &ParseCase{G: c.G, Ops: c.Ops}
		if c.G2 == nil || c.G2.Obj || !c.G2.valid() || !pc.ok() || c.G.lazyTrace() {
			rc.Discard = true
			return nil
		}
		for _, o := range c.Ops {
			if o.K != "parse" {
				rc.Discard = true
				return nil
			}
		}
		alone, sum, ok := pc.alone(rc)
		if !ok {
			rc.Discard = true
			return nil
		}
		vsim.Reset()
		w := newWorld(c.G)
		w.trace = &traceScopes{on: true}
		w2 := newWorld(c.G2)
		w2.trace = w.trace
		solo(soloMax, func() {
			w.start()
			w2.start() // built after every scope has ended
		})
		outs, s := w.runAll(c.Ops, c.S.config(sum*80+200000))
		rc.sim(s)
		rc.Trace = s.Trace
		if v := trouble(s); v != nil {
			return v
		}
		for i, o := range outs {
			if v := compareOutcomes(alone[i], o, i, "with tracing"); v != nil {
				return v
			}
			e := o.Env
			if e.evBad != "" {
				return viol("trace-event", "op%d: %s", i, e.evBad)
			}
			if len(e.ev) > 0 {
				return viol("trace-open", "op%d ended (%s) with %d open entries, innermost %v", i, o.Kind, len(e.ev), e.ev[len(e.ev)-1])
			}
			if c.G.Rules[0].K == "trace" && e.evN == 0 {
				return viol("trace-none", "op%d: no events from a traced parser", i)
			}
			if c.G.Rules[0].K == "trace" && o.Kind != "panic" {
				if !same(e.lastErr, o.err) || e.lastCtx.Position != o.Pos || int(e.lastCtx.MatchStatus) != o.Status || fp(e.lastCtx.AstStack, true) != o.Stack {
					return viol("trace-result", "op%d: the outermost exit event reports pos=%d status=%d err=%v; the parse returned %s", i, e.lastCtx.Position, e.lastCtx.MatchStatus, e.lastErr, clip(o.key(), 300))
				}
			}
			rc.note(o.key(), e.evN)
			rc.add("trace events opened", int64(e.evN))
		}
		if w.trace.strays != "" {
			return viol("trace-stray", "%s", w.trace.strays)
		}
		// parsers built after the scope are not traced
		before := w.trace.total
		op := Op{K: "parse", Src: "ab01", Cap: -1}
		solo(soloMax, func() { w2.do(0, &op) })
		if w.trace.total != before {
			return viol("trace-leaks", "a parser built after the trace scope reports %d events", w.trace.total-before)
		}
		if w.trace.total > 0 {
			rc.nontrivial()
		}
		return nil
	}, func(c *TraceCase) *Sched { return &c.S },
		"A grammar with one to four trace scopes (nested and consecutive), parsed by 1-3 goroutines with injected errors, panics, mismatches and stalls; compared with the same grammar without tracing; every event must match the innermost open entry of its parse (scope, number, class, tracer), the exit event must carry what the parser returned, a panic event the panic's value; user-written parsers check that they run inside their own event exactly if built under a scope. Non-trivial: events were received.")
	r.Real, r.Stub = realAll, stubAll
}

var _ = fmt.Sprint
