package main

import (
	"encoding/json"

	tk "github.com/shellyln/takenoco/base"
	"verif.local/vsim"
)

// ---- C06: a failed attempt leaves no trace ---------------------------------------
//
// Node kind "doom": an attempt that does the work of its children and then fails.
// With World.cut it fails at once instead.  Nothing else may differ.

type UndoCase struct {
	G  *Gram `json:"gram"`
	Op Op    `json:"opn"`
}

func (w *World) doom(n *Node) tk.ParserFn {
	return w.doomOf(n.F, w.kids(n))
}

func (w *World) doomOf(f int, kids []tk.ParserFn) tk.ParserFn {
	if w.cut && f%5 != 4 {
		return tk.Unmatched()
	}
	fail := func(ctx tk.ParserContext) (tk.ParserContext, error) {
		if !w.cut {
			w.doomed++
		}
		switch f / 5 % 5 { // what the failing attempt leaves in its context
		case 1:
			s := append(tk.AstSlice{}, ctx.AstStack...)
			for i := range s {
				s[i].ClassName, s[i].Value = "undone", i
			}
			ctx.AstStack = s
		case 2:
			ctx.AstStack = nil
		case 3:
			ctx.Position, ctx.Length, ctx.Quantity = 1<<30, -5, 99
		case 4:
			ctx.AstStack = append(append(tk.AstSlice{}, ctx.AstStack...), tk.Ast{ClassName: "undone"})
			ctx.Slice, ctx.Str = nil, "undone"
		}
		ctx.Tag = &Env{Op: -9}
		ctx.MatchStatus = tk.MatchStatus_Unmatched
		return ctx, nil
	}
	var p tk.ParserFn
	switch f % 5 {
	case 4: // an optional repetition whose completion callback rejects every round
		if w.cut {
			kids = []tk.ParserFn{tk.Unmatched()}
		}
		p = tk.BaseParser("Doom", func(m, b int, ctx tk.ParserContext) (tk.ParserContext, error) {
			if m < 0 {
				return ctx, nil
			}
			return fail(ctx)
		}, []interface{}{tk.Times{Min: 0, Max: f/25 - 1}}, kids, nil)
	case 1: // the round's completion callback rejects
		p = tk.BaseParser("Doom", func(m, b int, ctx tk.ParserContext) (tk.ParserContext, error) { return fail(ctx) }, nil, kids, nil)
	case 2: // the final completion callback rejects
		p = tk.BaseParser("Doom", func(m, b int, ctx tk.ParserContext) (tk.ParserContext, error) {
			if m < 0 {
				return fail(ctx)
			}
			return ctx, nil
		}, nil, kids, nil)
	case 3: // a hand-written parser that does not clean up
		q := tk.FlatGroup(kids...)
		p = func(ctx tk.ParserContext) (tk.ParserContext, error) {
			out, err := q(ctx)
			if err == nil && out.MatchStatus == tk.MatchStatus_Matched {
				return fail(out)
			}
			return out, err
		}
	default:
		p = tk.FlatGroup(append(kids, fail)...)
	}
	return func(ctx tk.ParserContext) (out tk.ParserContext, err error) {
		e := curEnv()
		if e == nil {
			return p(ctx)
		}
		e.mute++
		done := false
		defer func() {
			e.mute--
			if !done || err != nil {
				w.doomBroke = true
			}
		}()
		out, err = p(ctx)
		done = true
		return
	}
}

// doomIn puts a doomed attempt before, around or behind *p.
func doomIn(r *Rand, z *genr, p *Node) {
	orig := *p
	cp := func() *Node {
		var c Node
		b, _ := json.Marshal(&orig)
		json.Unmarshal(b, &c)
		return &c
	}
	x := func(lb bool) *Node {
		z.lb, z.size = lb, 0
		d := &Node{K: "doom", F: r.Intn(5) + 5*pick(r, 0, 0, 0, 1, 2, 3, 4) + 25*r.Intn(4)}
		if !lb && r.Intn(2) == 0 {
			d.C = append(d.C, cp())
		}
		for i := 0; i < 1+r.Intn(2); i++ {
			d.C = append(d.C, z.node(r.Intn(3)))
		}
		if r.Intn(3) == 0 {
			m := &Node{K: "match", N: 1 + r.Intn(3)}
			m.Cs = append(m.Cs, CaseS{If: pick(r, "any", "cb"), Let: z.trs(2)})
			d.C = append(d.C, m)
		}
		if r.Intn(4) == 0 {
			d.C = append(d.C, &Node{K: "zero", N: r.Intn(5), S: []string{"d", "e"}[:1+r.Intn(2)]})
		}
		z.lb = false
		return d
	}
	o := cp()
	flat := func(c ...*Node) Node { return Node{K: "flat", C: c} }
	n := r.Intn(3)
	switch r.Intn(14) {
	case 0, 1, 2:
		*p = Node{K: "first", C: []*Node{x(false), o}}
	case 3:
		*p = flat(&Node{K: "opt", C: []*Node{x(false)}}, o)
	case 4:
		*p = flat(o, &Node{K: "opt", C: []*Node{x(false)}})
	case 5:
		*p = flat(&Node{K: "star", C: []*Node{x(false)}}, o)
	case 6:
		*p = flat(o, &Node{K: "star", C: []*Node{z.consLeaf(), x(false)}})
	case 7:
		*p = flat(&Node{K: "lan", C: []*Node{x(false)}}, o)
	case 8:
		*p = flat(&Node{K: "lbn", N: n, M: n + r.Intn(3), C: []*Node{x(true)}}, o)
	case 9:
		*p = Node{K: "first", C: []*Node{{K: "la", C: []*Node{x(false)}}, o}}
	case 10:
		*p = Node{K: "first", C: []*Node{{K: "flat", C: []*Node{z.node(1), x(false)}}, o}}
	case 11:
		*p = flat(&Node{K: "rep", M: 1 + n, C: []*Node{x(false)}}, o)
	case 12:
		*p = Node{K: "base", I: z.id(), F: fThereExists | r.Intn(2)*fFn, C: []*Node{x(false), o, x(false)}}
	case 13:
		*p = Node{K: "first", C: []*Node{{K: "trans", C: []*Node{x(false)}, T: z.trs(2)}, o}}
	}
}

func allNodes(g *Gram) []*Node {
	var r []*Node
	var f func(n *Node)
	f = func(n *Node) {
		r = append(r, n)
		for _, c := range n.C {
			f(c)
		}
	}
	for _, n := range g.Rules {
		f(n)
	}
	return r
}

func genUndo(r *Rand) *UndoCase {
	for try := 0; try < 40; try++ {
		o := genOpt{obj: 2, depth: 1 + r.Intn(3), cb: 10 + r.Intn(20)}
		g := genGram(r, o)
		z := &genr{r: r, g: g, o: o, next: 500, nr: len(g.Rules)}
		for i := 0; i < 1+r.Intn(3); i++ {
			ns := allNodes(g)
			n := ns[r.Intn(len(ns))]
			if n.K == "calc" && r.Intn(2) == 0 {
				n.F = 1 + r.Intn(4) + 5*pick(r, 0, 0, 1, 2, 3, 4)
				continue
			}
			doomIn(r, z, n)
		}
		if !g.valid() {
			continue
		}
		c := &UndoCase{G: g, Op: genOp(r, g, "parse")}
		return c
	}
	g := &Gram{Rules: []*Node{{K: "first", C: []*Node{{K: "doom", C: []*Node{{K: "any"}}}, {K: "any"}}}}}
	return &UndoCase{G: g, Op: Op{K: "parse", Src: "a"}}
}

func (c *UndoCase) run(cut bool, rc *RC) (*World, *Outcome) {
	vsim.Reset()
	w := newWorld(c.G)
	w.cut = cut
	var o *Outcome
	s := solo(soloFor(c.Op), func() {
		w.start()
		o = w.do(0, &c.Op)
	})
	if w.root == nil || o == nil || s.Capped || s.Deadlock != "" {
		panic(badCase("does not end"))
	}
	rc.sim(s)
	return w, o
}

func runUndo(c *UndoCase, rc *RC) *Violation {
	pc := &ParseCase{G: c.G, Ops: []Op{c.Op}}
	if !pc.ok() || c.Op.K != "parse" || len(c.Op.Faults) > 0 {
		rc.Discard = true
		return nil
	}
	_, b := c.run(true, rc)
	w, a := c.run(false, rc)
	if w.doomBroke {
		rc.Discard = true
		return nil
	}
	rc.add("doomed attempts that failed at their end", int64(w.doomed))
	for i := 0; i < w.doomed; i++ {
		fired("unm")
	}
	if w.doomed > 0 {
		rc.nontrivial()
	}
	if a.Env.Bad != "" {
		return viol("user-tag", "%s", a.Env.Bad)
	}
	if a.Kind != b.Kind || a.Err != b.Err || a.Panic != b.Panic {
		return viol("ending", "with the attempt: %s; without it: %s", clip(a.key(), 500), clip(b.key(), 500))
	}
	if d := diffLines(a.Env.Log, b.Env.Log); d != "" {
		return viol("callbacks", "callbacks outside the attempt, with it vs. without it: %s", d)
	}
	if a.Kind != "ok" {
		return nil
	}
	if a.Status != b.Status {
		return viol("status", "status with the attempt %d, without it %d", a.Status, b.Status)
	}
	if a.Status != 0 {
		return nil
	}
	if a.ctx.Tag != interface{}(a.Env) {
		return viol("user-tag", "the final context has the user tag of the failed attempt")
	}
	if a.Pos != b.Pos || a.Stack != b.Stack {
		return viol("outcome", "with the attempt: pos=%d %s; without it: pos=%d %s", a.Pos, clip(a.Stack, 500), b.Pos, clip(b.Stack, 500))
	}
	if w.doomed > 0 {
		rc.add("matched after a doomed attempt", 1)
	}
	return nil
}

func init() {
	r := reg("C06", 1000000, 12000000, genUndo, runUndo, nil,
		"A generated grammar over the whole API with 1-3 doomed attempts inserted (alternative, option, repetition round, look-ahead/behind and their negations, custom choice, transformed child, production rule), each doing generated work and then failing in one of five ways, with its context left as it was or in disorder (another token list, none, another position or source); token list of every capacity, tokens present before. Compared with the same grammar whose attempts fail at once: ending, position, tokens, every callback outside the attempts. Cases in which the attempt itself raises an error or panic are discarded. Non-trivial: at least one attempt did all its work before failing.")
	r.Real, r.Stub = realAll, stubAll
}
