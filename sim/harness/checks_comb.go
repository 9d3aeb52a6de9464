package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	tk "github.com/shellyln/takenoco/base"
	clsz "github.com/shellyln/takenoco/base/classes"
	"verif.local/vsim"
)

// ---- C05: the combinators against a reference model --------------------------------
//
// Leaves and callbacks answer what the simulator says, per invocation; the real
// combinators and a purely functional model are given the same answers, and have to
// make the same calls in the same order, at the same positions and with the same
// tokens, and have to end in the same way.

// Ans is the answer of one invocation: S 0 match, 1 no match, 2 error.
type Ans struct {
	S int `json:"s,omitempty"`
	W int `json:"w,omitempty"` // bytes consumed
	T int `json:"t,omitempty"` // tokens produced
	D int `json:"d,omitempty"` // no match: 1 leaves a changed context behind; error: status left behind
}

type CombCase struct {
	Rules []*Node `json:"rules"`
	Leaf  []Ans   `json:"leaf"`
	Fn    []Ans   `json:"fn,omitempty"`
	Pos   int     `json:"pos,omitempty"`
	Pre   int     `json:"pre,omitempty"`
	Cap   int     `json:"cap,omitempty"`
}

type combErr struct{ n int }

func (e *combErr) Error() string { return "scripted error " + strconv.Itoa(e.n) }

// comb is one execution: of the library or of the model.
type comb struct {
	c     *CombCase
	log   []string
	leafN int
	fnN   int
	fuel  int
	ind   []tk.ParserFn
	unm   int
	errs  int
	obj   *objSim // object parsers over the simulated slice
}

func (k *comb) nextLeaf() (int, Ans) {
	i := k.leafN
	k.leafN++
	if i < len(k.c.Leaf) {
		return i, k.c.Leaf[i]
	}
	return i, Ans{S: 1}
}

func (k *comb) nextFn() (int, Ans) {
	i := k.fnN
	k.fnN++
	if i < len(k.c.Fn) {
		return i, k.c.Fn[i]
	}
	return i, Ans{}
}

func leafTok(i, j int) tk.Ast {
	a := tk.Ast{OpCode: tk.AstOpCodeType(i), ClassName: "T" + strconv.Itoa(i), Type: tk.AstType_String, Value: "v" + strconv.Itoa(j)}
	switch i % 13 {
	case 1, 5:
		a.Type, a.Value = tk.AstType_Int, int64(j)
	case 2:
		a.Type, a.Value = tk.AstType_Bool, j%2 == 0
	case 4:
		a.Type, a.Value = tk.AstType_Rune, rune('a'+j)
	case 7:
		a.Type, a.Value = tk.AstType_Uint, uint64(j)
	case 8:
		a.Type, a.Value = tk.AstType_Float, float64(j)/2
	case 9:
		a.Type, a.Value = tk.AstType_Nil, nil
	case 10:
		a.Type, a.Value = tk.AstType_ListOfAny, []int{j}
	case 11:
		a.Type, a.Value = tk.AstType_ListOfAst, tk.AstSlice{{Type: tk.AstType_String, Value: "v"}}
	}
	return a
}

// noLen is a copy without the lengths, which are those of an earlier token with some parsers.
func noLen(as tk.AstSlice) tk.AstSlice {
	z := cat(as)
	for i := range z {
		z[i].Length = 0
		if v, ok := z[i].Value.(tk.AstSlice); ok {
			z[i].Value = cat(tk.AstSlice{}, noLen(v))
		}
	}
	return z
}

func cbTr(k *comb, t Tr, pos int, asts tk.AstSlice) (tk.AstSlice, error) {
	k.log = append(k.log, "tr"+t.S+" @"+strconv.Itoa(pos)+" "+fp(asts, false))
	i, a := k.nextFn()
	if a.S == 2 {
		k.errs++
		return asts, &combErr{10000 + i}
	}
	switch t.N % 6 {
	case 0:
		return asts, nil
	case 1:
		return append(append(tk.AstSlice(nil), asts...), tk.Ast{ClassName: "mark" + t.S, Type: tk.AstType_Int, Value: int64(i)}), nil
	case 2:
		var z tk.AstSlice
		for j := len(asts) - 1; j >= 0; j-- {
			z = append(z, asts[j])
		}
		return z, nil
	case 3:
		if len(asts) > 1 {
			return asts[1:], nil
		}
		return asts, nil
	case 4:
		return nil, nil
	default:
		return tk.AstSlice{{ClassName: "sum" + t.S, Type: tk.AstType_Int, Value: int64(len(asts))}, {ClassName: "x" + t.S, Type: tk.AstType_String, Value: "x"}}, nil
	}
}

func ifCb(k *comb, c CaseS, stack tk.AstSlice) bool {
	k.log = append(k.log, "if "+fp(stack, false))
	_, a := k.nextFn()
	return a.S == 0 && (len(stack)+len(c.V))%2 == 0
}

// -- the library

func (k *comb) trs(ts []Tr) []tk.TransformerFn {
	w := &World{quiet: true}
	var r []tk.TransformerFn
	for _, t := range ts {
		t := t
		if t.K == "cb" {
			r = append(r, func(ctx tk.ParserContext, asts tk.AstSlice) (tk.AstSlice, error) {
				vsim.Y(-3)
				return cbTr(k, t, ctx.Position, asts)
			})
		} else {
			r = append(r, w.tr0(t))
		}
	}
	return r
}

func (k *comb) kids(n *Node) []tk.ParserFn {
	var r []tk.ParserFn
	for _, c := range n.C {
		r = append(r, k.build(c))
	}
	return r
}

func (k *comb) leafFn(n *Node) func(ctx tk.ParserContext) (tk.ParserContext, error) {
	return func(ctx tk.ParserContext) (tk.ParserContext, error) {
		vsim.Y(-3)
		i, a := k.nextLeaf()
		k.log = append(k.log, "leaf"+strconv.Itoa(n.I)+" @"+strconv.Itoa(ctx.Position)+" "+fp(ctx.AstStack, false))
		move := func() {
			for j := 0; j < a.T; j++ {
				t := leafTok(i, j)
				t.SourcePosition = ctx.SourcePosition
				ctx.AstStack = append(ctx.AstStack, t)
			}
			ctx.Position += a.W
			ctx.Length = a.W
		}
		switch a.S {
		case 0:
			move()
			ctx.MatchStatus = tk.MatchStatus_Matched
			return ctx, nil
		case 1:
			k.unm++
			if a.D != 0 {
				move()
			}
			ctx.MatchStatus = tk.MatchStatus_Unmatched
			return ctx, nil
		}
		k.errs++
		ctx.MatchStatus = tk.MatchStatusType(a.D % 3)
		return ctx, &combErr{i}
	}
}

func (k *comb) build(n *Node) tk.ParserFn {
	if k.obj != nil {
		if p := k.buildObj(n); p != nil {
			return p
		}
	}
	switch n.K {
	case "leaf":
		f := k.leafFn(n)
		if n.F&1 != 0 {
			return tk.LightBaseParser("Leaf"+strconv.Itoa(n.I), f)
		}
		return f
	case "flat":
		return tk.FlatGroup(k.kids(n)...)
	case "group":
		return tk.Group(k.kids(n)...)
	case "first":
		return tk.First(k.kids(n)...)
	case "la":
		return tk.LookAhead(k.kids(n)...)
	case "lan":
		return tk.LookAheadN(k.kids(n)...)
	case "lb":
		return tk.LookBehind(n.N, n.M, k.kids(n)...)
	case "lbn":
		return tk.LookBehindN(n.N, n.M, k.kids(n)...)
	case "rep":
		return tk.Repeat(tk.Times{Min: n.N, Max: n.M}, k.kids(n)...)
	case "once":
		return tk.Once(k.kids(n)...)
	case "opt":
		return tk.ZeroOrOnce(k.kids(n)...)
	case "star":
		return tk.ZeroOrMoreTimes(k.kids(n)...)
	case "plus":
		return tk.OneOrMoreTimes(k.kids(n)...)
	case "trans":
		return tk.Trans(k.build(n.C[0]), k.trs(n.T)...)
	case "if":
		return tk.If(n.N == 0, k.build(n.C[0]), k.build(n.C[1]))
	case "err":
		return tk.Error("error assertion " + n.S[0])
	case "unm":
		return tk.Unmatched()
	case "start":
		return tk.Start()
	case "zero":
		var as tk.AstSlice
		for i := 0; i < n.N; i++ {
			t := leafTok(1000+n.I, i)
			if n.I%2 == 1 { // a position of its own, which does not count
				t.SourcePosition = tk.SourcePosition{Position: 1 + n.I, Length: i}
			}
			as = append(as, t)
		}
		return tk.Zero(as...)
	case "ind":
		if k.ind[n.I] == nil {
			k.ind[n.I] = tk.Indirect(func() tk.ParserFn { return k.build(k.c.Rules[n.I]) })
		}
		return k.ind[n.I]
	case "match":
		var cs []tk.Case
		for _, c := range n.Cs {
			c := c
			var f tk.MatchCaseIfFn
			switch c.If {
			case "any":
				f = tk.TopIsAny
			case "str":
				f = tk.TopIsStr(c.V...)
			case "int":
				var v []int64
				for _, x := range c.nums() {
					v = append(v, int64(x))
				}
				f = tk.TopIsInt(v...)
			case "bool":
				f = tk.TopIsBool(len(c.V) != 1)
			case "rune":
				var v []rune
				for _, x := range c.nums() {
					v = append(v, 'a'+rune(x))
				}
				f = tk.TopIsRune(v...)
			case "uint":
				var v []uint64
				for _, x := range c.nums() {
					v = append(v, uint64(x))
				}
				f = tk.TopIsUint(v...)
			case "float":
				var v []float64
				for _, x := range c.nums() {
					v = append(v, float64(x)/2)
				}
				f = tk.TopIsFloat(v...)
			case "is":
				var v []interface{}
				for i, x := range c.nums() {
					v = append(v, []interface{}{int64(x), "v" + strconv.Itoa(x), []int{x}, nil}[(i+len(c.V))%4])
				}
				f = tk.TopIs(v...)
			default:
				f = func(s tk.AstSlice) bool { vsim.Y(-3); return ifCb(k, c, s) }
			}
			cs = append(cs, tk.Case{If: f, Let: k.trs(c.Let)})
		}
		return tk.Match(n.N)(cs...)
	case "base":
		var props []interface{}
		if n.F&fThereExists != 0 {
			props = append(props, tk.ThereExists{})
		}
		if n.F&fNegative != 0 {
			props = append(props, tk.Negative{})
		}
		if n.F&fRewind != 0 {
			props = append(props, tk.Rewind{})
		}
		if n.F&fTimes != 0 {
			props = append(props, tk.Times{Min: n.N, Max: n.M})
		}
		var fn tk.ParserImplFn
		if n.F&fFn != 0 {
			fn = func(matched, bottom int, ctx tk.ParserContext) (tk.ParserContext, error) {
				vsim.Y(-3)
				k.log = append(k.log, fmt.Sprintf("fn%d(%d,%d,%d) @%d %s", n.I, matched, bottom, ctx.Quantity, ctx.Position, fp(ctx.AstStack, false)))
				i, a := k.nextFn()
				switch a.S {
				case 1:
					k.unm++
					ctx.MatchStatus = tk.MatchStatus_Unmatched
					return ctx, nil
				case 2:
					k.errs++
					ctx.MatchStatus = tk.MatchStatusType(a.D % 3)
					return ctx, &combErr{10000 + i}
				}
				for j := 0; j < a.T; j++ {
					ctx.AstStack = append(ctx.AstStack, leafTok(2000+i, j))
				}
				ctx.Position += a.W
				return ctx, nil
			}
		}
		return tk.BaseParser("Custom"+strconv.Itoa(n.I), fn, props, k.kids(n), k.trs(n.T))
	}
	panic(badCase("bad node " + n.K))
}

// -- the model

type mres struct {
	st   int
	pos  int
	toks tk.AstSlice // never written to
	qty  int
}

type outOfFuel struct{}

func cat(xs ...tk.AstSlice) tk.AstSlice {
	var r tk.AstSlice
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

func (k *comb) mtrs(ts []Tr, pos int, asts tk.AstSlice) (tk.AstSlice, error) {
	cur := cat(asts)
	for _, t := range ts {
		n := len(cur)
		switch t.K {
		case "cb":
			z, err := cbTr(k, t, pos, cur)
			if err != nil {
				return nil, err
			}
			cur = cat(z)
		case "erase":
			cur = nil
		case "group":
			cur = tk.AstSlice{{ClassName: clsz.Group, Type: tk.AstType_ListOfAst, Value: cat(tk.AstSlice{}, cur)}}
		case "setop", "setopc", "cls", "setval":
			cur = cat(cur)
			if n > 0 {
				a := &cur[0]
				if t.K == "setop" || t.K == "setopc" {
					a.OpCode = tk.AstOpCodeType(t.N)
				}
				if t.K == "setopc" || t.K == "cls" {
					a.ClassName = t.S
				}
				if t.K == "setval" {
					v := token(t.N, t.S)
					a.Type, a.Value = v.Type, v.Value
				}
			}
		case "prepend":
			a := token(t.N, t.S)
			if n > 0 {
				a.SourcePosition = cur[0].SourcePosition
			}
			cur = cat(tk.AstSlice{a}, cur)
		case "push":
			a := token(t.N, t.S)
			if n > 0 {
				a.SourcePosition = cur[n-1].SourcePosition
			}
			cur = cat(cur, tk.AstSlice{a})
		case "pop":
			if n > 0 {
				cur = cat(cur[:n-1])
			}
		case "exch":
			if n > 1 {
				cur = cat(cur[:n-2], tk.AstSlice{cur[n-1], cur[n-2]})
			}
		case "roll":
			if n > 0 && t.N != 0 {
				m := t.N
				if m >= n || m <= -n {
					m = 0 // by more than there is: nothing moves
				}
				m = (m + n) % n
				cur = cat(cur[m:], cur[:m])
			}
		case "toslice":
			if k.obj == nil {
				panic(badCase("no slice"))
			}
			z := &scSlice{}
			a := tk.Ast{Type: tk.AstType_ListOfAny}
			if n > 0 {
				a.ClassName, a.SourcePosition = cur[0].ClassName, cur[0].SourcePosition
			}
			for _, x := range cur {
				z.v = append(z.v, x.Value)
			}
			a.Value = z
			cur = tk.AstSlice{a}
		case "terr":
			return nil, errors.New("transform error " + t.S)
		default:
			panic(badCase("transformer " + t.K))
		}
	}
	return cur, nil
}

// props of a composite parser
type mprops struct {
	neg, any, rew bool
	min, max      int
}

func (k *comb) mbase(n *Node, p mprops, c mres, fn bool, ts []Tr, depth int) (mres, error) {
	failed := mres{st: 2}
	cur := mres{pos: c.pos, toks: c.toks}
	rounds := 0
	matched := true
	for p.max < 0 || rounds < p.max {
		k.burn()
		before := cur
		good := 0
		roundOK := true
		for _, ch := range n.C {
			r, err := k.model(ch, mres{pos: cur.pos, toks: cur.toks}, depth+1)
			if err != nil {
				return failed, err
			}
			if r.st == 1 {
				if p.any {
					continue
				}
				roundOK = false
				break
			}
			good++
			cur = mres{pos: r.pos, toks: r.toks}
			if p.any {
				break
			}
		}
		if p.any && good == 0 && len(n.C) > 0 {
			roundOK = false
		}
		if roundOK && fn {
			r, err := k.mfn(n, good, len(c.toks), rounds, cur)
			if err != nil {
				return failed, err
			}
			if r.st == 1 {
				roundOK = false
			} else {
				cur = r
			}
		}
		if !roundOK {
			cur = before
			break
		}
		rounds++
	}
	if p.min >= 0 && rounds < p.min {
		matched = false
	}
	if p.neg {
		matched = !matched
	}
	if !matched {
		return mres{st: 1}, nil
	}
	if fn {
		r, err := k.mfn(n, -1, len(c.toks), rounds, cur)
		if err != nil {
			return failed, err
		}
		if r.st == 1 {
			return mres{st: 1}, nil
		}
		cur = r
	}
	if p.rew {
		cur = mres{pos: c.pos, toks: c.toks}
	}
	if len(ts) > 0 {
		if len(cur.toks) < len(c.toks) {
			panic(badCase("a transformation whose child took tokens that are not its own"))
		}
		z, err := k.mtrs(ts, c.pos, cur.toks[len(c.toks):])
		if err != nil {
			return failed, err
		}
		cur.toks = cat(cur.toks[:len(c.toks)], z)
	}
	cur.qty = rounds
	return cur, nil
}

func (k *comb) mfn(n *Node, matched, bottom, qty int, c mres) (mres, error) {
	k.log = append(k.log, fmt.Sprintf("fn%d(%d,%d,%d) @%d %s", n.I, matched, bottom, qty, c.pos, fp(c.toks, false)))
	i, a := k.nextFn()
	switch a.S {
	case 1:
		return mres{st: 1}, nil
	case 2:
		return mres{st: 2}, &combErr{10000 + i}
	}
	r := mres{pos: c.pos + a.W, toks: cat(c.toks)}
	for j := 0; j < a.T; j++ {
		r.toks = append(r.toks, leafTok(2000+i, j))
	}
	return r, nil
}

func (k *comb) burn() {
	k.fuel--
	if k.fuel < 0 {
		panic(outOfFuel{})
	}
}

func (k *comb) model(n *Node, c mres, depth int) (mres, error) {
	k.burn()
	if depth > 80 {
		panic(outOfFuel{})
	}
	if k.obj != nil {
		if r, ok := k.modelObj(n, c); ok {
			return r, nil
		}
	}
	one := mprops{min: 1, max: 1}
	switch n.K {
	case "leaf":
		i, a := k.nextLeaf()
		k.log = append(k.log, "leaf"+strconv.Itoa(n.I)+" @"+strconv.Itoa(c.pos)+" "+fp(c.toks, false))
		switch a.S {
		case 1:
			return mres{st: 1}, nil
		case 2:
			return mres{st: 2}, &combErr{i}
		}
		r := mres{pos: c.pos + a.W, toks: cat(c.toks)}
		for j := 0; j < a.T; j++ {
			t := leafTok(i, j)
			t.Position = c.pos
			r.toks = append(r.toks, t)
		}
		if n.F&1 != 0 {
			r.qty = 1
		}
		return r, nil
	case "flat":
		return k.mbase(n, one, c, false, nil, depth)
	case "group":
		return k.mbase(n, one, c, false, []Tr{{K: "group"}}, depth)
	case "first":
		p := one
		p.any = true
		return k.mbase(n, p, c, false, nil, depth)
	case "la", "lan":
		p := one
		p.rew = true
		p.neg = n.K == "lan"
		return k.mbase(n, p, c, false, nil, depth)
	case "lb", "lbn":
		for i := n.N; i <= n.M; i++ {
			if c.pos-i < 0 {
				continue
			}
			r, err := k.mbase(n, one, mres{pos: c.pos - i, toks: c.toks}, false, nil, depth)
			if err != nil {
				return mres{st: 2}, err
			}
			if r.st == 0 {
				if n.K == "lbn" {
					return mres{st: 1}, nil
				}
				return mres{pos: c.pos, toks: c.toks}, nil
			}
		}
		if n.K == "lbn" {
			return mres{pos: c.pos, toks: c.toks}, nil
		}
		return mres{st: 1}, nil
	case "rep":
		return k.mbase(n, mprops{min: n.N, max: n.M}, c, false, nil, depth)
	case "once":
		return k.mbase(n, one, c, false, nil, depth)
	case "opt":
		return k.mbase(n, mprops{min: 0, max: 1}, c, false, nil, depth)
	case "star":
		return k.mbase(n, mprops{min: 0, max: -1}, c, false, nil, depth)
	case "plus":
		return k.mbase(n, mprops{min: 1, max: -1}, c, false, nil, depth)
	case "trans":
		return k.mbase(n, one, c, false, append([]Tr{}, n.T...), depth)
	case "if":
		return k.model(n.C[n.N&1], c, depth+1)
	case "err":
		return mres{st: 2}, errors.New("error assertion " + n.S[0])
	case "unm":
		return mres{st: 1}, nil
	case "start":
		if c.pos == 0 {
			return mres{pos: c.pos, toks: c.toks, qty: 1}, nil
		}
		return mres{st: 1}, nil
	case "zero":
		r := mres{pos: c.pos, toks: cat(c.toks)}
		for i := 0; i < n.N; i++ {
			t := leafTok(1000+n.I, i)
			t.Position = c.pos
			r.toks = append(r.toks, t)
		}
		r.qty = 1
		return r, nil
	case "ind":
		r, err := k.model(k.c.Rules[n.I], c, depth+1)
		r.qty = 1
		return r, err
	case "match":
		sp := len(c.toks) - n.N
		if sp < 0 {
			sp = 0
		}
		for _, cs := range n.Cs {
			if !k.mif(cs, c.toks) {
				continue
			}
			z, err := k.mtrs(cs.Let, c.pos, c.toks[sp:])
			if err != nil {
				return mres{st: 2}, err
			}
			return mres{pos: c.pos, toks: cat(c.toks[:sp], z), qty: 1}, nil
		}
		return mres{st: 1}, nil
	case "base":
		p := one
		p.any, p.neg, p.rew = n.F&fThereExists != 0, n.F&fNegative != 0, n.F&fRewind != 0
		if n.F&fTimes != 0 {
			p.min, p.max = n.N, n.M
		}
		return k.mbase(n, p, c, n.F&fFn != 0, n.T, depth)
	}
	panic(badCase("bad node " + n.K))
}

func (k *comb) mif(c CaseS, toks tk.AstSlice) bool {
	if c.If == "any" {
		return true
	}
	if c.If == "cb" {
		return ifCb(k, c, toks)
	}
	if len(toks) == 0 {
		return false
	}
	v := toks[len(toks)-1].Value
	switch c.If {
	case "str":
		for _, s := range c.V {
			if x, ok := v.(string); ok && x == s {
				return true
			}
		}
		return false
	}
	if k := reflect.ValueOf(v).Kind(); k == reflect.Slice && c.If != "is" {
		return false
	}
	switch c.If {
	case "bool":
		return v == (len(c.V) != 1)
	}
	for i, x := range c.nums() {
		var w interface{}
		switch c.If {
		case "int":
			w = int64(x)
		case "rune":
			w = 'a' + rune(x)
		case "uint":
			w = uint64(x)
		case "float":
			w = float64(x) / 2
		default:
			w = []interface{}{int64(x), "v" + strconv.Itoa(x), []int{x}, nil}[(i+len(c.V))%4]
		}
		if reflect.DeepEqual(v, w) {
			return true
		}
	}
	return false
}

// nums are the values of a condition on numbers: as many as it has strings, and one.
func (c CaseS) nums() []int {
	z := []int{len(c.V)}
	for _, s := range c.V {
		z = append(z, map[string]int{"v0": 0, "v1": 1, "x": 2, "p0": 5}[s])
	}
	return z
}

// -- the check

var combArity = map[string]int{"flat": 0, "group": 0, "first": 0, "la": 1, "lan": 1, "lb": 1, "lbn": 1, "rep": 1, "once": 1, "opt": 0, "star": 1, "plus": 1, "trans": 1, "if": 2, "base": 1, "leaf": 0, "err": 0, "unm": 0, "start": 0, "zero": 0, "ind": 0, "match": 0, "oany": 0, "oend": 0, "oseq": 0, "oclass": 0, "oclassn": 0, "oclassfn": 0}
var combTrs = map[string]bool{"cb": true, "erase": true, "group": true, "setop": true, "setopc": true, "cls": true, "setval": true, "prepend": true, "push": true, "pop": true, "exch": true, "roll": true, "terr": true, "toslice": true}
var combIfs = map[string]bool{"any": true, "str": true, "int": true, "bool": true, "is": true, "cb": true, "rune": true, "uint": true, "float": true}

func (c *CombCase) ok() bool {
	trsOK := func(ts []Tr) bool {
		for _, t := range ts {
			if !combTrs[t.K] || t.N > 20 || t.N < -20 || (t.K != "roll" && t.N < 0) {
				return false
			}
		}
		return true
	}
	var f func(n *Node) bool
	f = func(n *Node) bool {
		if n == nil {
			return false
		}
		a, ok := combArity[n.K]
		if !ok || len(n.C) < a || !trsOK(n.T) || n.N < 0 || n.N > 200 || n.M > 200 || n.I < 0 || n.F < 0 {
			return false
		}
		if n.K == "err" && len(n.S) == 0 || n.K == "ind" && n.I >= len(c.Rules) || n.K == "if" && n.N > 1 {
			return false
		}
		for _, cs := range n.Cs {
			if !combIfs[cs.If] || !trsOK(cs.Let) {
				return false
			}
		}
		for _, x := range n.C {
			if !f(x) {
				return false
			}
		}
		return true
	}
	for _, n := range c.Rules {
		if !f(n) {
			return false
		}
	}
	for _, a := range append(append([]Ans{}, c.Leaf...), c.Fn...) {
		if a.S < 0 || a.S > 2 || a.W < 0 || a.T < 0 || a.T > 8 || a.D < 0 {
			return false
		}
	}
	return len(c.Rules) > 0 && c.Pos >= 0 && c.Pre >= 0 && c.Cap >= 0 && c.Cap < 4096
}

func (c *CombCase) preToks() tk.AstSlice {
	z := make(tk.AstSlice, 0, c.Cap)
	for i := 0; i < c.Pre && i < len(preTokens); i++ {
		z = append(z, preTokens[i])
	}
	return z
}

type combGen struct {
	r    *Rand
	nr   int
	id   int
	size int
}

func (z *combGen) tr(lets bool) Tr {
	r := z.r
	z.id++
	k := pick(r, "cb", "cb", "cb", "erase", "group", "setop", "setopc", "cls", "setval", "prepend", "push", "push", "pop", "pop", "exch", "exch", "roll", "roll", "roll", "terr")
	if k == "terr" && r.Intn(4) != 0 {
		k = "cb"
	}
	t := Tr{K: k, N: r.Intn(6), S: strconv.Itoa(z.id)}
	if k == "roll" {
		t.N = r.Intn(7) - 3
		if r.Intn(4) == 0 {
			t.N = r.Intn(41) - 20
		}
	}
	return t
}

func (z *combGen) trs(max int) []Tr {
	var ts []Tr
	for i := rare(z.r, 10) + z.r.Intn(max+1); i > 0; i-- {
		ts = append(ts, z.tr(false))
	}
	return ts
}

func (z *combGen) node(d int) *Node {
	r := z.r
	z.id++
	z.size++
	id := z.id
	if d <= 0 || z.size > 25 {
		switch r.Intn(12) {
		case 0:
			return &Node{K: pick(r, "unm", "start", "zero", "zero"), N: r.Intn(3), I: id}
		case 1:
			if z.nr > 1 {
				return &Node{K: "ind", I: r.Intn(z.nr)}
			}
		case 2:
			if r.Intn(5) == 0 {
				return &Node{K: "err", S: []string{strconv.Itoa(id)}}
			}
		}
		return &Node{K: "leaf", I: id, F: r.Intn(2)}
	}
	kids := func(min, max int) []*Node {
		var c []*Node
		for i := 0; i < min+r.Intn(max-min+1); i++ {
			c = append(c, z.node(d-1))
		}
		for i := rare(r, 20); i > 0 && max > 1; i-- {
			c = append(c, z.node(0))
		}
		return c
	}
	if r.Intn(50) == 0 { // of nothing
		return &Node{K: pick(r, "flat", "group", "first", "first", "opt")}
	}
	switch r.Intn(22) {
	case 0, 1, 2:
		return &Node{K: "flat", C: kids(1, 3)}
	case 3:
		return &Node{K: "group", C: kids(1, 3)}
	case 4, 5, 6:
		return &Node{K: "first", C: kids(2, 3)}
	case 7:
		return &Node{K: pick(r, "la", "lan"), C: kids(1, 2)}
	case 8:
		n := &Node{K: pick(r, "lb", "lbn"), N: r.Intn(3) + rare(r, 10), C: kids(1, 2)}
		n.M = n.N + r.Intn(3) + rare(r, 40)
		return n
	case 9, 10:
		n := &Node{K: "rep", N: pick(r, r.Intn(4), r.Intn(4), r.Intn(4), r.Intn(4), r.Intn(1+r.Intn(1+r.Intn(60)))), C: kids(1, 2)}
		n.M = n.N + r.Intn(3)
		if r.Intn(3) == 0 {
			n.M = -1
		}
		if wide(r) {
			n.M = n.N + r.Intn(200-n.N)
		}
		if n.N > 0 && r.Intn(20) == 0 {
			n.M = r.Intn(n.N)
		}
		return n
	case 11:
		return &Node{K: "opt", C: kids(1, 2)}
	case 12:
		return &Node{K: "star", C: kids(1, 2)}
	case 13:
		return &Node{K: "plus", C: kids(1, 2)}
	case 14, 15:
		return &Node{K: "trans", C: kids(1, 1), T: append([]Tr{z.tr(false)}, z.trs(2)...)}
	case 16, 17:
		n := &Node{K: "match", N: r.Intn(5), I: id}
		for i := rare(r, 10) + 1 + r.Intn(3); i > 0; i-- {
			c := CaseS{If: pick(r, "any", "str", "str", "int", "int", "bool", "is", "is", "cb", "cb", "rune", "uint", "float"), Let: z.trs(3)}
			for j := rare(r, 10) + r.Intn(3) + r.Intn(2)*r.Intn(3); j > 0; j-- {
				c.V = append(c.V, pick(r, "v0", "v1", "x", "p0"))
			}
			n.Cs = append(n.Cs, c)
		}
		return n
	case 18, 19, 20:
		n := &Node{K: "base", I: id, F: r.Intn(32), C: kids(1, 3), T: z.trs(2)}
		if r.Intn(3) != 0 {
			n.F |= fFn
		}
		if n.F&fTimes != 0 {
			n.N = r.Intn(3)
			n.M = n.N + r.Intn(3)
			if r.Intn(3) == 0 {
				n.M = -1
			}
			if n.N > 0 && r.Intn(20) == 0 {
				n.M = r.Intn(n.N)
			}
		}
		return n
	default:
		return &Node{K: pick(r, "once", "if"), N: r.Intn(2), C: kids(2, 2)}
	}
}

func wide(r *Rand) bool { return r.Intn(25) == 0 }

func genComb(r *Rand) *CombCase {
	c := &CombCase{Pos: pick(r, 0, 0, 1, 3), Pre: r.Intn(4), Cap: pick(r, 0, 1, 2, 4, 8, 64)}
	z := &combGen{r: r, nr: 1 + r.Intn(3)}
	for i := 0; i < z.nr; i++ {
		z.size = 0
		n := z.node(1 + r.Intn(4))
		for t := 0; t < 4 && len(n.C) == 0; t++ {
			n = z.node(2)
		}
		if z.nr > 1 && i == 0 {
			n = &Node{K: "flat", C: []*Node{n, {K: "ind", I: 1}}}
		}
		c.Rules = append(c.Rules, n)
	}
	pm, pe := 45+r.Intn(50), r.Intn(4)
	ans := func(p int) Ans {
		x := r.Intn(100)
		switch {
		case x < p:
			return Ans{W: pick(r, 0, 1, 1, 2, 3), T: pick(r, 0, 1, 1, 1, 2, 3)}
		case x < 100-pe:
			return Ans{S: 1, D: r.Intn(2), W: r.Intn(3), T: r.Intn(3)}
		}
		return Ans{S: 2, D: r.Intn(3)}
	}
	nl, nf := 2+r.Intn(40), r.Intn(40)
	if r.Intn(40) == 0 {
		nl, nf = 20+r.Intn(400), r.Intn(400)
		if r.Intn(2) == 0 {
			// one long repetition
			n := &Node{K: pick(r, "rep", "rep", "rep", "star", "plus", "base"), N: pick(r, 0, 0, 1, r.Intn(40)), C: []*Node{{K: "leaf", I: 9000, F: r.Intn(2)}}}
			n.M = n.N + r.Intn(200-n.N)
			if n.K == "base" {
				n.I, n.F = 9001, fTimes|pick(r, 0, fFn, fThereExists)
				if r.Intn(2) == 0 {
					n.M = -1
				}
			}
			if r.Intn(2) == 0 {
				n.C = append(n.C, z.node(1))
			}
			c.Rules[0] = n
			if r.Intn(2) == 0 {
				c.Rules[0] = &Node{K: pick(r, "flat", "first", "opt", "group"), C: []*Node{n, z.node(1)}}
			}
		}
		pm, pe = 95+r.Intn(5), 0
	}
	for i := 0; i < nl; i++ {
		c.Leaf = append(c.Leaf, ans(pm))
	}
	for i := 0; i < nf; i++ {
		a := ans(60 + r.Intn(40))
		a.W, a.T = r.Intn(2), r.Intn(2)
		c.Fn = append(c.Fn, a)
	}
	return c
}

func runComb(c *CombCase, rc *RC) (v *Violation) {
	if !c.ok() {
		rc.Discard = true
		return nil
	}
	// model
	m := &comb{c: c, fuel: 1500}
	var mr mres
	var merr error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(outOfFuel); ok {
					panic(badCase("does not end"))
				}
				panic(r)
			}
		}()
		mr, merr = m.model(c.Rules[0], mres{pos: c.Pos, toks: c.preToks()}, 0)
	}()
	// library
	vsim.Reset()
	k := &comb{c: c, ind: make([]tk.ParserFn, len(c.Rules))}
	var out tk.ParserContext
	var err error
	var pv interface{}
	s := solo(200000, func() {
		defer func() { pv = recover() }()
		ctx := tk.ParserContext{Str: strings.Repeat("x", 64), AstStack: c.preToks()}
		ctx.Position = c.Pos
		out, err = k.build(c.Rules[0])(ctx)
	})
	rc.sim(s)
	for i := 0; i < k.unm; i++ {
		fired("unm")
	}
	for i := 0; i < k.errs; i++ {
		fired("err")
	}
	rc.note(join(k.log))
	if k.leafN+k.fnN >= 3 {
		rc.nontrivial()
	}
	if t := trouble(s); t != nil {
		return t
	}
	if d := diffLines(m.log, k.log); d != "" {
		if pv != nil {
			d += fmt.Sprintf(" (ended with panic %v)", pv)
		}
		return viol("calls", "calls of sub-parsers and callbacks differ, expected vs. got: %s", d)
	}
	if pv != nil {
		return viol("panic", "expected status %d, got panic: %v", mr.st, pv)
	}
	es := func(e error) string {
		if e == nil {
			return "none"
		}
		return e.Error()
	}
	if es(merr) != es(err) {
		return viol("error", "expected error %s, got %s", es(merr), es(err))
	}
	root := c.Rules[0]
	for hops := 0; hops < 50 && (root.K == "if" || root.K == "ind"); hops++ {
		if root.K == "if" {
			root = root.C[root.N&1]
		} else {
			root = c.Rules[root.I]
		}
	}
	// an error that comes straight from a caller's own parser has the status it set
	if int(out.MatchStatus) != mr.st && !(err != nil && root.K == "leaf") {
		return viol("status", "expected status %d, got %d", mr.st, out.MatchStatus)
	}
	if mr.st != 0 {
		return nil
	}
	if out.Position != mr.pos {
		return viol("position", "expected position %d, got %d", mr.pos, out.Position)
	}
	if a, b := fp(noLen(mr.toks), true), fp(noLen(out.AstStack), true); a != b {
		return viol("tokens", "expected %s, got %s", clip(a, 500), clip(b, 500))
	}
	switch n := c.Rules[0]; n.K {
	case "leaf":
		if n.F&1 != 0 && out.Quantity != 1 {
			return viol("quantity", "expected repetition count 1, got %d", out.Quantity)
		}
	case "rep", "opt", "star", "plus", "once", "flat", "first", "group", "trans", "base", "zero", "start", "ind", "match":
		if n.F&fRewind == 0 && out.Quantity != mr.qty {
			return viol("quantity", "expected repetition count %d, got %d", mr.qty, out.Quantity)
		}
	}
	rc.add("matched", 1)
	return nil
}

func init() {
	r := reg("C05", 700000, 7200000, genComb, runComb, nil,
		"Programs of combinators whose leaves, completion callbacks, case tests and transformers answer per invocation what the seed says: match (width 0-3, 0-3 tokens), no match (with or without a dirtied context), error. The real combinators and an independent functional reference model get the same answers; the sequence of calls with position and token list at each call, final status, error, position, tokens and repetition count are compared. Programs the model does not finish within its fuel are discarded. Non-trivial: at least three scripted calls.")
	r.Real = []string{"base: BaseParser, LightBaseParser, all combinators, Indirect, Match, transformers"}
	r.Stub = []string{"leaf parsers and callbacks: scripted by the simulator"}
}
