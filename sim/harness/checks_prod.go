package main

import (
	"fmt"
	"strconv"
	"strings"

	tk "github.com/shellyln/takenoco/base"
	objparser "github.com/shellyln/takenoco/object"
	"verif.local/vsim"
)

// ---- C14: production rules against a rewriting model --------------------------------

type PTok struct {
	K int     `json:"k"` // kind; groupKind: a nested list
	G []*PTok `json:"g,omitempty"`
}

const groupKind = 100

type PRule struct {
	Pat []int `json:"pat"`           // kinds, -1: any token
	Out []int `json:"out"`           // kinds of the replacement
	La  int   `json:"la,omitempty"`  // next token must not be of kind La-1
	Bit int   `json:"bit,omitempty"` // applies only if the user tag says so
	Lb  int   `json:"lb,omitempty"`  // the token before must be of kind Lb-1
	Anc int   `json:"anc,omitempty"` // 1: only at the start of the list, 2: only at its end
	Lim int   `json:"lim,omitempty"` // applies only to lists shorter than this
	Via int   `json:"via,omitempty"` // how the rule is written
}

type PLevel struct {
	Rules []*PRule `json:"rules"`
	Rtol  bool     `json:"rtol,omitempty"`
}

type PRun struct {
	Toks []*PTok `json:"toks"`
	X    int     `json:"x,omitempty"` // spare capacity
	Bits int     `json:"bits,omitempty"`
	Via  bool    `json:"via,omitempty"` // inside a parse
	At   int     `json:"at,omitempty"`  // reduction that fails, from 1
	F    string  `json:"f,omitempty"`
}

type ProdCase struct {
	Levels []*PLevel `json:"levels"`
	Chk    string    `json:"chk"`
	N      int       `json:"n,omitempty"`
	Runs   []*PRun   `json:"runs"`
	Conc   bool      `json:"conc,omitempty"`
	S      Sched     `json:"sched"`
}

func (c *ProdCase) ok() bool {
	var toks func(ts []*PTok, d int) int
	toks = func(ts []*PTok, d int) int {
		n := 0
		for _, t := range ts {
			if t == nil || d > 4 || t.K != groupKind && (t.K < 0 || t.K > 20) {
				return 9000
			}
			n += 1 + toks(t.G, d+1)
		}
		return n
	}
	if len(c.Runs) == 0 || len(c.Runs) > 6 {
		return false
	}
	for _, r := range c.Runs {
		if r == nil || toks(r.Toks, 0) > 1500 || r.X < 0 || r.X > 64 || r.At < 0 {
			return false
		}
	}
	for _, l := range c.Levels {
		if l == nil {
			return false
		}
		for _, r := range l.Rules {
			if r == nil || len(r.Pat) > 6 || len(r.Out) > 6 || r.Via < 0 || r.Via > 4 {
				return false
			}
		}
	}
	switch c.Chk {
	case "one", "max", "none", "never", "first":
		return true
	}
	return false
}

// prun is one run: of the library or of the model.
type prun struct {
	i     int
	spec  *PRun
	task  *vsim.Task
	log   []string
	fired int
	cut   bool
	err   error
	pan   interface{}
	bad   string
	out   tk.AstSlice
	got   error
	gotP  interface{}
	done  bool
}

type prodErr struct{ run, at int }

func (e *prodErr) Error() string { return fmt.Sprintf("rule error %d.%d", e.run, e.at) }

type prodPanic struct{ run, at int }

func (p *prun) complain(f string, a ...interface{}) {
	if p.bad == "" {
		p.bad = fmt.Sprintf(f, a...)
	}
}

func kindsOf(l tk.AstSlice) string {
	var sb strings.Builder
	for _, a := range l {
		sb.WriteString(" ")
		sb.WriteString(strconv.Itoa(int(a.OpCode)))
	}
	return sb.String()
}

func ptoks(ts []*PTok, x int) tk.AstSlice {
	z := make(tk.AstSlice, 0, len(ts)+x)
	for i, t := range ts {
		a := tk.Ast{OpCode: tk.AstOpCodeType(t.K), ClassName: "k" + strconv.Itoa(t.K), Type: tk.AstType_String, Value: "v" + strconv.Itoa(i)}
		a.Position, a.Length = i*2, 1
		if t.K == groupKind {
			a.Type, a.Value = tk.AstType_ListOfAst, ptoks(t.G, x)
		}
		z = append(z, a)
	}
	return z
}

// matches is the meaning of a rule.
func (r *PRule) matches(list tk.AstSlice, pos, bits int) bool {
	if r.Bit != 0 && bits>>(uint(r.Bit)%8)&1 == 0 {
		return false
	}
	if pos+len(r.Pat) > len(list) || r.Lim != 0 && len(list) >= r.Lim {
		return false
	}
	for i, k := range r.Pat {
		if k >= 0 && int(list[pos+i].OpCode) != k {
			return false
		}
	}
	if r.Lb != 0 && (pos == 0 || int(list[pos-1].OpCode) != r.Lb-1) {
		return false
	}
	e := pos + len(r.Pat)
	if r.Anc == 1 && pos != 0 || r.Anc == 2 && e != len(list) {
		return false
	}
	return r.La == 0 || e >= len(list) || int(list[e].OpCode) != r.La-1
}

func (r *PRule) result(id int, taken tk.AstSlice) tk.AstSlice {
	h := vsim.Mix(uint64(id), uint64(len(taken)))
	for _, t := range taken {
		for _, b := range []byte(fp(t, false)) {
			h = h*1099511628211 ^ uint64(b)
		}
	}
	var z tk.AstSlice
	for i, k := range r.Out {
		z = append(z, tk.Ast{OpCode: tk.AstOpCodeType(k), ClassName: "k" + strconv.Itoa(k), Type: tk.AstType_String, Value: fmt.Sprintf("r%d.%d:%x", id, i, h)})
	}
	return z
}

// reduction: rule id is about to replace something at pos of list.
func (p *prun) reduction(id, pos int, list tk.AstSlice) error {
	p.fired++
	p.log = append(p.log, fmt.Sprintf("rule %d at %d of%s", id, pos, kindsOf(list)))
	if p.fired != p.spec.At {
		return nil
	}
	switch p.spec.F {
	case "err":
		p.cut = true
		p.err = &prodErr{p.i, p.fired}
		return p.err
	case "panic":
		p.cut = true
		p.pan = prodPanic{p.i, p.fired}
		panic(p.pan)
	case "stall":
		if vsim.InRun() {
			fired("stall")
			vsim.Stall(1000)
		}
	}
	return nil
}

// -- model

type prodStop struct{ err error }

func (c *ProdCase) accepts(list tk.AstSlice) bool {
	switch c.Chk {
	case "one":
		return len(list) == 1
	case "max":
		return len(list) <= c.N
	case "none":
		for _, a := range list {
			if int(a.OpCode) == c.N {
				return false
			}
		}
		return true
	case "first":
		return len(list) > 0 && int(list[0].OpCode) == c.N
	}
	return false
}

type prodNone struct{}

func (prodNone) Error() string { return "no rule" }

func (c *ProdCase) model(p *prun, list tk.AstSlice, fuel *int, depth int) (tk.AstSlice, error) {
	if depth > 6 {
		panic(outOfFuel{})
	}
	for {
		*fuel--
		if *fuel < 0 || len(list) > 1600 {
			panic(outOfFuel{})
		}
		hit := false
		id := 0
	levels:
		for _, l := range c.Levels {
			base := id
			id += len(l.Rules)
			for i := 0; i <= len(list); i++ {
				pos := i
				if l.Rtol {
					pos = len(list) - i
				}
				for j, r := range l.Rules {
					if !r.matches(list, pos, p.spec.Bits) {
						continue
					}
					if err := p.reduction(base+j, pos, list); err != nil {
						return nil, err
					}
					taken := list[pos : pos+len(r.Pat)]
					var z tk.AstSlice
					if r.nested(taken) {
						var err error
						z, err = c.model(p, taken[0].Value.(tk.AstSlice), fuel, depth+1)
						if err != nil {
							return nil, err
						}
					} else {
						z = r.result(base+j, taken)
					}
					list = cat(list[:pos], z, list[pos+len(r.Pat):])
					hit = true
					break levels
				}
			}
		}
		if c.accepts(list) {
			return list, nil
		}
		if !hit {
			return nil, prodNone{}
		}
	}
}

// a rule of kind 4 replaces a group by its own reduction.
func (r *PRule) nested(taken tk.AstSlice) bool {
	if r.Via != 4 || len(taken) != 1 {
		return false
	}
	_, ok := taken[0].Value.(tk.AstSlice)
	return ok
}

// -- library

type prodTag struct{ p *prun }

func (c *ProdCase) run1(tag interface{}, what string) *prun {
	t, ok := tag.(*prodTag)
	if !ok {
		// without its tag a rule does not know which run it is for
		panic(fmt.Sprintf("the user tag in %s is %v", what, tag))
	}
	if t.p.task != vsim.Cur() {
		t.p.complain("%s has the user tag of another run", what)
	}
	if t.p.cut {
		t.p.complain("%s invoked after an error or panic of a rule", what)
	}
	return t.p
}

func asList(ctx tk.ParserContext) tk.AstSlice {
	l, _ := ctx.Slice.(tk.AstSlice)
	return l
}

func (c *ProdCase) rule(id int, r *PRule, self *tk.TransformerFn) tk.ParserFn {
	apply := func(p *prun, pos int, list, taken tk.AstSlice, ctx tk.ParserContext) (tk.AstSlice, error) {
		if err := p.reduction(id, pos, list); err != nil {
			return nil, err
		}
		if r.nested(taken) {
			return (*self)(ctx, taken[0].Value.(tk.AstSlice))
		}
		return r.result(id, taken), nil
	}
	if r.Via < 2 {
		raw := func(ctx tk.ParserContext) (tk.ParserContext, error) {
			vsim.Y(-3)
			p := c.run1(ctx.Tag, "a rule")
			list := asList(ctx)
			ctx.MatchStatus = tk.MatchStatus_Unmatched
			if !r.matches(list, ctx.Position, p.spec.Bits) {
				return ctx, nil
			}
			e := ctx.Position + len(r.Pat)
			z, err := apply(p, ctx.Position, list, list[ctx.Position:e], ctx)
			if err != nil {
				return ctx, err
			}
			ctx.AstStack = append(ctx.AstStack, z...)
			ctx.Position = e
			if r.Via == 1 && len(r.Out)%2 == 0 {
				// its context is its own
				ctx.Tag, ctx.Str, ctx.Slice = "of rule "+strconv.Itoa(id), "x", tk.AstSlice{}
			}
			ctx.MatchStatus = tk.MatchStatus_Matched
			return ctx, nil
		}
		if r.Via == 1 {
			return tk.LightBaseParser("Rule"+strconv.Itoa(id), raw)
		}
		return raw
	}
	// written with the library's parsers
	is := func(k int) tk.ParserFn {
		if k < 0 {
			return objparser.Any()
		}
		return objparser.ObjClassFn(func(x interface{}) bool {
			vsim.Y(-3)
			a, ok := x.(tk.Ast)
			return ok && int(a.OpCode) == k
		})
	}
	var kids []tk.ParserFn
	if r.Bit != 0 {
		kids = append(kids, func(ctx tk.ParserContext) (tk.ParserContext, error) {
			p := c.run1(ctx.Tag, "a rule")
			ctx.MatchStatus = tk.MatchStatus_Unmatched
			if p.spec.Bits>>(uint(r.Bit)%8)&1 != 0 {
				ctx.MatchStatus = tk.MatchStatus_Matched
			}
			return ctx, nil
		})
	}
	if r.Lim != 0 {
		kids = append(kids, func(ctx tk.ParserContext) (tk.ParserContext, error) {
			ctx.MatchStatus = tk.MatchStatus_Unmatched
			if len(asList(ctx)) < r.Lim {
				ctx.MatchStatus = tk.MatchStatus_Matched
			}
			return ctx, nil
		})
	}
	if r.Anc == 1 {
		kids = append(kids, tk.Start())
	}
	if r.Lb != 0 {
		kids = append(kids, tk.LookBehind(1, 1, is(r.Lb-1)))
	}
	for _, k := range r.Pat {
		kids = append(kids, is(k))
	}
	if r.Anc == 2 {
		kids = append(kids, objparser.End())
	}
	if r.La != 0 {
		kids = append(kids, tk.LookAheadN(is(r.La-1)))
	}
	if len(kids) == 0 {
		kids = append(kids, tk.Zero())
	}
	rule := tk.Trans(tk.FlatGroup(kids...), func(ctx tk.ParserContext, asts tk.AstSlice) (tk.AstSlice, error) {
		vsim.Y(-3)
		p := c.run1(ctx.Tag, "a rule's transformer")
		var taken tk.AstSlice
		for _, a := range asts {
			x, ok := a.Value.(tk.Ast)
			if !ok {
				p.complain("a rule took %s, which is not a token", fp(a, false))
				return nil, nil
			}
			taken = append(taken, x)
		}
		return apply(p, ctx.Position, asList(ctx), taken, ctx)
	})
	if r.Via == 3 {
		return tk.First(tk.FlatGroup(objparser.Any(), tk.Unmatched()), rule)
	}
	return rule
}

func (c *ProdCase) transformer() tk.TransformerFn {
	var self tk.TransformerFn
	var ps []tk.Precedence
	id := 0
	for _, l := range c.Levels {
		p := tk.Precedence{Rtol: l.Rtol}
		for _, r := range l.Rules {
			p.Rules = append(p.Rules, c.rule(id, r, &self))
			id++
		}
		ps = append(ps, p)
	}
	var chk tk.ParserFn
	if c.Chk == "one" {
		chk = tk.FlatGroup(tk.Start(), objparser.Any(), objparser.End())
	} else {
		chk = func(ctx tk.ParserContext) (tk.ParserContext, error) {
			vsim.Y(-3)
			c.run1(ctx.Tag, "the completion check")
			ctx.MatchStatus = tk.MatchStatus_Unmatched
			if c.accepts(asList(ctx)) {
				ctx.MatchStatus = tk.MatchStatus_Matched
			}
			return ctx, nil
		}
	}
	self = tk.ProductionRule(ps, chk)
	return self
}

func (c *ProdCase) exec(p *prun, f tk.TransformerFn) {
	defer func() { p.done = true; p.gotP = recover() }()
	p.task = vsim.Cur()
	in := ptoks(p.spec.Toks, p.spec.X)
	full := in[:cap(in)]
	for i := len(in); i < len(full); i++ {
		full[i] = tk.Ast{ClassName: "spare", Value: i}
	}
	before := fp(full, true)
	ctx := tk.ParserContext{Str: "unrelated", Tag: &prodTag{p}}
	ctx.Position = 3
	defer func() {
		if after := fp(full, true); after != before {
			p.complain("the input list was %s and is now %s", clip(before, 400), clip(after, 400))
		}
	}()
	if !p.spec.Via {
		p.out, p.got = f(ctx, in)
		return
	}
	full = nil
	before = fp(full, true)
	q := tk.Trans(func(ctx tk.ParserContext) (tk.ParserContext, error) {
		ctx.AstStack = append(ctx.AstStack, in...)
		ctx.MatchStatus = tk.MatchStatus_Matched
		return ctx, nil
	}, f)
	ctx.AstStack = tk.AstSlice{{ClassName: "below"}}
	out, err := q(ctx)
	p.got = err
	if err == nil {
		if out.MatchStatus != tk.MatchStatus_Matched || len(out.AstStack) < 1 || out.AstStack[0].ClassName != "below" {
			p.complain("status %d, stack %s after the rules were applied", out.MatchStatus, fp(out.AstStack, false))
		} else {
			p.out = out.AstStack[1:]
		}
	}
}

func genProd(r *Rand) *ProdCase {
	c := &ProdCase{S: genSched(r)}
	nk := 2 + r.Intn(4)
	groups := r.Intn(3) == 0
	nl := 1 + r.Intn(3) + rare(r, 8)
	for i := 0; i < nl; i++ {
		l := &PLevel{Rtol: r.Intn(3) == 0}
		for j := rare(r, 8) + 1 + r.Intn(3); j > 0; j-- {
			u := &PRule{Via: r.Intn(4)}
			n := pick(r, 1, 2, 2, 2, 3, 3)
			if r.Intn(25) == 0 {
				n = 0
				u.Lim = r.Intn(12)
			} else if r.Intn(25) == 0 {
				u.Lim = 1 + r.Intn(12)
			}
			for k := 0; k < n; k++ {
				u.Pat = append(u.Pat, pick(r, -1, r.Intn(nk), r.Intn(nk), r.Intn(nk)))
			}
			m := pick(r, 1, 1, 1, 0, 2)
			if n > 0 && m >= n && r.Intn(4) != 0 {
				m = n - 1
			}
			for k := 0; k < m; k++ {
				u.Out = append(u.Out, r.Intn(nk))
			}
			if n > 1 && r.Intn(6) == 0 {
				// as many tokens, of lower kinds: ends some time
				u.Out = nil
				for _, k := range u.Pat {
					if k > 0 {
						k -= r.Intn(2)
					}
					u.Out = append(u.Out, k)
				}
				i := r.Intn(n)
				u.Pat[i] = 1 + r.Intn(nk-1)
				u.Out[i] = r.Intn(u.Pat[i])
				for i, k := range u.Pat {
					if k < 0 {
						u.Pat[i], u.Out[i] = 0, 0
					}
				}
			}
			if r.Intn(6) == 0 {
				u.La = 1 + r.Intn(nk)
			}
			if r.Intn(12) == 0 {
				u.Lb = 1 + r.Intn(nk)
			}
			if r.Intn(12) == 0 {
				u.Anc = 1 + r.Intn(2)
			}
			if r.Intn(5) == 0 {
				u.Bit = 1 + r.Intn(3)
			}
			l.Rules = append(l.Rules, u)
		}
		if r.Intn(12) == 0 {
			l.Rules = nil
		}
		c.Levels = append(c.Levels, l)
	}
	if groups {
		l := c.Levels[r.Intn(nl)]
		l.Rules = append([]*PRule{{Pat: []int{groupKind}, Via: 4}}, l.Rules...)
	}
	c.Chk = pick(r, "one", "one", "one", "max", "none", "never", "first")
	c.N = r.Intn(nk)
	c.Conc = r.Intn(2) == 0
	var toks func(n, d int) []*PTok
	toks = func(n, d int) []*PTok {
		var z []*PTok
		for i := 0; i < n; i++ {
			if groups && d < 3 && r.Intn(4) == 0 {
				z = append(z, &PTok{K: groupKind, G: toks(r.Intn(5), d+1)})
			} else {
				z = append(z, &PTok{K: r.Intn(nk)})
			}
		}
		return z
	}
	for i := 0; i < pick(r, 1, 1, 2, 3); i++ {
		n := r.Intn(10)
		if r.Intn(60) == 0 {
			n = 20 + r.Intn(1+r.Intn(150))
		}
		u := &PRun{Toks: toks(n, 0), X: pick(r, 0, 0, 1, 5), Bits: r.Intn(16), Via: r.Intn(3) == 0}
		if r.Intn(3) == 0 {
			u.At, u.F = 1+r.Intn(1+r.Intn(1+n)), pick(r, "err", "panic", "stall")
		}
		c.Runs = append(c.Runs, u)
	}
	if r.Intn(250) == 0 { // a long way to the end
		u := &PRule{Pat: []int{pick(r, -1, 0), -1}, Out: []int{pick(r, 0, 0, 0, r.Intn(nk))}, Via: r.Intn(4)}
		c.Levels = c.Levels[:1]
		l := c.Levels[0]
		l.Rules = append([]*PRule{u}, l.Rules[:min(len(l.Rules), r.Intn(2))]...)
		c.Runs = c.Runs[:1]
		c.Runs[0].Toks = toks(200+r.Intn(500), 3)
		if c.Runs[0].At > 0 {
			c.Runs[0].At = 1 + r.Intn(600)
		}
	}
	return c
}

func runProd(c *ProdCase, rc *RC) *Violation {
	if !c.ok() {
		rc.Discard = true
		return nil
	}
	models := make([]*prun, len(c.Runs))
	for i, u := range c.Runs {
		m := &prun{i: i, spec: u}
		models[i] = m
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case outOfFuel:
					panic(badCase("does not end"))
				case prodPanic:
					m.gotP = r
				default:
					panic(r)
				}
			}()
			fuel := 60 + 3*len(u.Toks)
			m.out, m.got = c.model(m, ptoks(u.Toks, 0), &fuel, 0)
		}()
	}
	vsim.Reset()
	f := c.transformer()
	reals := make([]*prun, len(c.Runs))
	var fns []func()
	for i, u := range c.Runs {
		p := &prun{i: i, spec: u}
		reals[i] = p
		fns = append(fns, func() { c.exec(p, f) })
	}
	if !c.Conc {
		all := fns
		fns = []func(){func() {
			for _, g := range all {
				g()
			}
		}}
	}
	s := vsim.Run(c.S.config(60000000), nil, fns)
	rc.sim(s)
	rc.Trace = s.Trace
	n := 0
	for i, p := range reals {
		m := models[i]
		n += len(p.log)
		rc.note(join(p.log))
		if !p.done {
			return viol("never-ended", "run %d never ended", i)
		}
		if p.cut {
			fired(p.spec.F)
		}
		if p.bad != "" {
			return viol("observed", "run %d: %s", i, p.bad)
		}
		if d := diffLines(m.log, p.log); d != "" {
			if p.gotP != nil {
				d += fmt.Sprintf(" (ended with panic %v)", p.gotP)
			}
			return viol("reductions", "run %d: reductions differ, expected vs. got: %s", i, d)
		}
		if m.gotP != nil {
			if p.gotP != p.pan {
				return viol("panic-lost", "run %d: a rule panicked with %v, the caller got panic %v, error %v", i, p.pan, p.gotP, p.got)
			}
			continue
		}
		if p.gotP != nil {
			return viol("panic", "run %d: unexpected panic %v", i, p.gotP)
		}
		if m.err != nil {
			if p.got != p.err {
				return viol("error-lost", "run %d: a rule failed with %v, the caller got %v", i, p.err, p.got)
			}
			continue
		}
		if (m.got != nil) != (p.got != nil) {
			return viol("outcome", "run %d: expected error %v, got %v", i, m.got, p.got)
		}
		if m.got != nil {
			rc.add("stuck lists reported", 1)
			continue
		}
		if a, b := prodVals(m.out), prodVals(p.out); a != b {
			return viol("result", "run %d: expected %s, got %s", i, clip(a, 400), clip(b, 400))
		}
		rc.add("lists reduced", 1)
	}
	rc.add("reductions", int64(n))
	if n >= 2 {
		rc.nontrivial()
	}
	if t := trouble(s); t != nil {
		return t
	}
	return nil
}

func prodVals(l tk.AstSlice) string {
	s := ""
	for _, a := range l {
		s += fmt.Sprintf("%d/%s=", int(a.OpCode), a.ClassName)
		if g, ok := a.Value.(tk.AstSlice); ok {
			s += "{" + prodVals(g) + "} "
		} else {
			s += fp(a.Value, false) + " "
		}
	}
	return s
}

func init() {
	r := reg("C14", 650000, 7200000, genProd, runProd, func(c *ProdCase) *Sched { return &c.S },
		"Random rewriting systems (1-3 precedence levels, either direction, 1-4 rules each, written as raw parsers, LightBaseParser, or with the object parsers and combinators, some depending on the user tag, on the tokens before and behind, on the place in the list or on the length of the list, some reducing nested lists with the same rules) applied to 1-3 token lists (now and then of several hundred tokens), in turn or at the same time by several simulated goroutines sharing the transformer, called directly or inside a parse. A rule fails, panics or stalls at a chosen reduction. The sequence of reductions (rule, position, list), the result, the error or panic and the untouched input (spare capacity included) are compared with a rewriting model. Systems that do not end are discarded. Non-trivial: at least two reductions.")
	r.Real = []string{"base: ProductionRule, combinators", "object: Any, ObjClassFn, End"}
	r.Stub = []string{"rules' callbacks and completion check: scripted by the simulator", "goroutine scheduling: simulated"}
}
