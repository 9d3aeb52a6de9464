package main

import (
	"fmt"
	"strconv"
	"strings"

	tk "github.com/shellyln/takenoco/base"
	"verif.local/vsim"
)

// ---- C11, C12: Traverse ------------------------------------------------------------

// TNode describes a tree.  K: s string, i int, n nil, z nothing at all, cons, list, any.
type TNode struct {
	K string   `json:"k"`
	C []*TNode `json:"c,omitempty"`
	X int      `json:"x,omitempty"` // spare capacity of a list
}

// TAct is what the simulator makes one callback invocation do.
type TAct struct {
	M int    `json:"m,omitempty"` // entry: 0 none, 1 lazy, 2 last
	R int    `json:"r,omitempty"` // 0 keep, 1 relabel, 2 replace by a leaf, 3 by a list, 4 by a cons, 5 edit the returned list in place
	U int    `json:"u,omitempty"` // exit: 1 break, 2 continue
	J int    `json:"j,omitempty"` // exit: relative jump
	F string `json:"f,omitempty"` // err panic throw both stall hang; thrown0..thrown6: a thrown value of thrownVals
	N int64  `json:"n,omitempty"`
}

type TScript struct {
	There []TAct `json:"there,omitempty"`
	Back  []TAct `json:"back,omitempty"`
	Own   bool   `json:"own,omitempty"` // the caller edits the returned tree afterwards
}

type TravCase struct {
	Tree *TNode    `json:"tree"`
	Scr  []TScript `json:"scripts"`
	S    Sched     `json:"sched"`
}

func (n *TNode) size() int {
	s := 1
	for _, c := range n.C {
		s += c.size()
	}
	return s
}

func (n *TNode) ok(d int) bool {
	if n == nil || d > 450 || n.X < 0 || n.X > 64 {
		return false
	}
	switch n.K {
	case "s", "i", "n", "z", "any", "list":
	case "cons":
		if len(n.C) < 2 {
			return false
		}
	default:
		return false
	}
	for _, c := range n.C {
		if !c.ok(d + 1) {
			return false
		}
	}
	return true
}

func (c *TravCase) ok() bool {
	if !c.Tree.ok(0) || c.Tree.size() > 3000 || len(c.Scr) == 0 || len(c.Scr) > 8 {
		return false
	}
	for _, s := range c.Scr {
		for _, a := range append(append([]TAct{}, s.There...), s.Back...) {
			if a.M < 0 || a.M > 2 || a.U < 0 || a.U > 2 || a.J < -40000 || a.J > 40000 {
				return false
			}
		}
	}
	return true
}

func (n *TNode) build(id *int) tk.Ast {
	*id++
	a := tk.Ast{OpCode: tk.AstOpCodeType(*id), ClassName: "n" + strconv.Itoa(*id)}
	a.Position, a.Length = *id*3, 2
	switch n.K {
	case "z":
		return tk.Ast{}
	case "s":
		a.Type, a.Value = tk.AstType_String, "v"+strconv.Itoa(*id)
	case "i":
		a.Type, a.Value = tk.AstType_Int, int64(*id)
	case "any":
		a.Type, a.Value = tk.AstType_ListOfAny, []interface{}{1, "x"}
	case "cons":
		car := n.C[0].build(id)
		a.Type, a.Value = tk.AstType_AstCons, tk.AstCons{Car: car, Cdr: n.C[1].build(id)}
	case "list":
		l := make(tk.AstSlice, 0, len(n.C)+n.X)
		for _, c := range n.C {
			l = append(l, c.build(id))
		}
		a.Type, a.Value = tk.AstType_ListOfAst, l
	}
	return a
}

type travErr struct{ who, n int }

func (e *travErr) Error() string { return fmt.Sprintf("trav error %d.%d", e.who, e.n) }

type travThrow struct{ who, n int }

// thrownVals: values a callback may throw that are easily taken for nothing.
var thrownVals = []interface{}{false, 0, "", (*travThrow)(nil), struct{}{}, error((*travErr)(nil)), tk.Ast{}}

type travPanic struct{ who, n int }

// trav is one traversal, of the library or of the model.
type trav struct {
	who    int
	s      TScript
	model  bool
	log    []string
	nt, nb int
	fuel   int
	faults int
	bad    string
	over   bool       // the panic, error or throw has happened
	kids   [][]string // child-failure callbacks: what the failed child may look like
}

func deepCopy(a tk.Ast) tk.Ast {
	switch v := a.Value.(type) {
	case tk.AstSlice:
		w := make(tk.AstSlice, len(v))
		for i := range v {
			w[i] = deepCopy(v[i])
		}
		a.Value = w
	case tk.AstCons:
		a.Value = tk.AstCons{Car: deepCopy(v.Car), Cdr: deepCopy(v.Cdr)}
	}
	return a
}

func (t *trav) shape(a tk.Ast, r, i int) tk.Ast {
	tag := strconv.Itoa(i)
	leaf := func(s string) tk.Ast {
		return tk.Ast{ClassName: "new" + s + tag, Type: tk.AstType_String, Value: "w" + s}
	}
	switch r {
	case 1:
		a.ClassName += "~" + tag
		a.OpCode += 1000
	case 2:
		a = leaf("l")
	case 3:
		a = tk.Ast{ClassName: "newlist" + tag, Type: tk.AstType_ListOfAst, Value: tk.AstSlice{leaf("a"), leaf("b")}}
	case 4:
		a = tk.Ast{ClassName: "newcons" + tag, Type: tk.AstType_AstCons, Value: tk.AstCons{Car: leaf("c"), Cdr: tk.Ast{Type: tk.AstType_Nil}}}
	}
	return a
}

func (t *trav) fault(a TAct, i int, back bool) (thrown interface{}, err error) {
	if t.model {
		if a.F == "stall" || a.F == "hang" {
			return nil, nil
		}
	} else {
		switch a.F {
		case "":
		case "stall":
			fired("stall")
			vsim.Stall(a.N)
		case "hang":
			fired("hang")
			vsim.Stall(-1)
		case "panic":
			fired("panic")
		default:
			fired("err")
		}
	}
	k := i
	if back {
		k = 10000 + i
	}
	switch a.F {
	case "err":
		return nil, &travErr{t.who, k}
	case "panic":
		t.over = true
		panic(&travPanic{t.who, k})
	case "throw":
		if back {
			return &travThrow{t.who, k}, nil
		}
	case "thrown0", "thrown1", "thrown2", "thrown3", "thrown4", "thrown5", "thrown6":
		if back {
			return thrownVals[a.F[6]-'0'], nil
		}
	case "both":
		if back {
			return &travThrow{t.who, k}, &travErr{t.who, k}
		}
		return nil, &travErr{t.who, k}
	}
	return nil, nil
}

func (t *trav) note(s string) {
	if t.over && t.bad == "" {
		t.bad = "callback after a panic: " + s
	}
	t.fuel--
	if t.fuel < 0 {
		if t.model {
			panic(outOfFuel{})
		}
		return
	}
	t.log = append(t.log, s)
}

func (t *trav) there(ctx interface{}, a tk.Ast) (tk.Ast, tk.WayThereMode, error) {
	if ctx != interface{}(t) && t.bad == "" {
		t.bad = "foreign context value"
	}
	i := t.nt
	t.nt++
	t.note("there " + fp(a, true))
	if !t.model {
		vsim.Y(-3)
	}
	if i >= len(t.s.There) {
		return a, tk.WayThereMode_None, nil
	}
	act := t.s.There[i]
	if _, err := t.fault(act, i, false); err != nil {
		return t.shape(a, act.R, i), tk.WayThereMode(act.M), err
	}
	return t.shape(a, act.R, i), tk.WayThereMode(act.M), nil
}

func (t *trav) back(ctx interface{}, a tk.Ast) (tk.Ast, int16, tk.TraverseOpcode, interface{}, error) {
	if ctx != interface{}(t) && t.bad == "" {
		t.bad = "foreign context value"
	}
	i := t.nb
	t.nb++
	t.note("back " + fp(a, true))
	if !t.model {
		vsim.Y(-3)
	}
	if i >= len(t.s.Back) {
		return a, 0, tk.TraverseOpcode_Nop, nil, nil
	}
	act := t.s.Back[i]
	thrown, err := t.fault(act, i, true)
	if act.R == 5 {
		if l, ok := a.Value.(tk.AstSlice); ok && a.Type == tk.AstType_ListOfAst {
			for j := range l {
				l[j].ClassName += "!"
			}
		}
	} else {
		a = t.shape(a, act.R, 5000+i)
	}
	return a, int16(act.J), tk.TraverseOpcode(act.U), thrown, err
}

func idOf(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "none"
	case *travErr:
		if x == nil {
			return "no error in an error"
		}
		return x.Error()
	case *travThrow:
		if x == nil {
			return "nil throw"
		}
		return fmt.Sprintf("throw %d.%d", x.who, x.n)
	case *travPanic:
		return fmt.Sprintf("panic %d.%d", x.who, x.n)
	case error:
		return x.Error()
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func errOf(e error) interface{} {
	if e == nil {
		return nil
	}
	return e
}

func (t *trav) childErr(ctx interface{}, a, child tk.Ast, thrown interface{}, err error) {
	if ctx != interface{}(t) && t.bad == "" {
		t.bad = "foreign context value"
	}
	t.kids = append(t.kids, []string{fp(child, true)})
	t.note("childerr " + a.ClassName + " " + idOf(thrown) + " " + idOf(errOf(err)))
	if !t.model {
		vsim.Y(-3)
	}
}

// ref is the reference traversal.
func (t *trav) ref(a tk.Ast) (tk.Ast, int16, tk.TraverseOpcode, interface{}, error) {
	s, mode, err := t.there(t, deepCopy(a))
	if err != nil {
		return s, 0, 0, nil, err
	}
	if mode != tk.WayThereMode_Lazy && s.Type == tk.AstType_AstCons {
		c := s.Value.(tk.AstCons)
		kids := []tk.Ast{c.Car, c.Cdr}
		for i, k := range kids {
			r, _, _, thrown, err := t.ref(k)
			if thrown != nil || err != nil {
				t.childErr(t, s, k, thrown, err)
				t.kids[len(t.kids)-1] = append(t.kids[len(t.kids)-1], fp(r, true))
				return s, 0, 0, thrown, err
			}
			kids[i] = r
		}
		s.Value = tk.AstCons{Car: kids[0], Cdr: kids[1]}
	}
	if mode != tk.WayThereMode_Lazy && s.Type == tk.AstType_ListOfAst {
		in := s.Value.(tk.AstSlice)
		out := tk.AstSlice{}
		last := tk.Ast{}
		for pc := 0; pc < len(in); {
			if pc < 0 {
				panic(badCase("jump before the first item"))
			}
			r, jump, op, thrown, err := t.ref(in[pc])
			if thrown != nil || err != nil {
				t.childErr(t, s, in[pc], thrown, err)
				t.kids[len(t.kids)-1] = append(t.kids[len(t.kids)-1], fp(r, true))
				return s, 0, 0, thrown, err
			}
			pc++
			out = append(out, r)
			if mode != tk.WayThereMode_Last {
				continue
			}
			switch op {
			case tk.TraverseOpcode_Nop:
				last = r
			case tk.TraverseOpcode_Break:
				pc = len(in)
			case tk.TraverseOpcode_Continue:
				pc = 0
			}
			pc += int(jump)
		}
		if mode == tk.WayThereMode_Last && len(in) > 0 {
			out = tk.AstSlice{last}
		}
		s.Value = out
	}
	return t.back(t, s)
}

type travOut struct {
	ast    tk.Ast
	fp     string
	jump   int16
	op     tk.TraverseOpcode
	thrown interface{}
	err    error
	pv     interface{}
	done   bool
}

func (o *travOut) key() string {
	if o.pv != nil {
		return "panic " + idOf(o.pv)
	}
	if o.thrown != nil || o.err != nil {
		return "thrown " + idOf(o.thrown) + " err " + idOf(errOf(o.err))
	}
	return fmt.Sprintf("jump=%d op=%d %s", o.jump, o.op, o.fp)
}

func (t *trav) runRef(a tk.Ast) *travOut {
	o := &travOut{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case outOfFuel:
					panic(badCase("does not end"))
				case badCase:
					panic(r)
				}
				o.pv = r
			}
		}()
		o.ast, o.jump, o.op, o.thrown, o.err = t.ref(a)
		o.fp = fp(o.ast, true)
	}()
	return o
}

func (t *trav) runLib(a tk.Ast) *travOut {
	o := &travOut{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.pv = r
			}
			o.done = true
		}()
		o.ast, o.jump, o.op, o.thrown, o.err = a.Traverse(t.there, t.back, t.childErr, t)
	}()
	if o.pv == nil {
		o.fp = fp(o.ast, true)
	}
	return o
}

func cmpTrav(i int, m, t *trav, a, b *travOut) *Violation {
	if t.bad != "" {
		return viol("callback", "traversal %d: %s", i, t.bad)
	}
	if d := diffLines(m.log, t.log); d != "" {
		return viol("callbacks", "traversal %d, callbacks expected vs. got: %s (ended: %s)", i, d, clip(b.key(), 200))
	}
	for j := range t.kids {
		ok := false
		for _, s := range m.kids[j] {
			ok = ok || s == t.kids[j][0]
		}
		if !ok {
			return viol("failed-child", "traversal %d: child-failure callback %d was given %s; the child was and is %s", i, j, clip(t.kids[j][0], 300), clip(strings.Join(m.kids[j], " and "), 600))
		}
	}
	if a.key() != b.key() {
		return viol("result", "traversal %d: expected %s, got %s", i, clip(a.key(), 400), clip(b.key(), 400))
	}
	return nil
}

func scribble(a *tk.Ast) {
	switch v := a.Value.(type) {
	case tk.AstSlice:
		v = v[:cap(v)]
		for i := range v {
			scribble(&v[i])
			v[i].ClassName, v[i].Value = "scribbled", i
		}
	case tk.AstCons:
		scribble(&v.Car)
		scribble(&v.Cdr)
	}
}

const travFuel = 3000

// bound is the step limit of one traversal of the case's tree.
func (c *TravCase) bound() int64 { return 400000 + 2000*int64(c.Tree.size()) }

func (c *TravCase) fuel() int { return travFuel + 4*c.Tree.size() }

// genBigTree: a long list, a deep chain, or many middling lists.
func genBigTree(r *Rand) *TNode {
	t := genTree(r, 2)
	switch r.Intn(3) {
	case 0:
		kind := r.Intn(4)
		for i := 20 + r.Intn(1+r.Intn(420)); i > 0; i-- {
			if kind == 0 { // cells all the way along one side
				t = &TNode{K: "cons", C: []*TNode{genTree(r, 0), t}}
				continue
			}
			if r.Intn(2) == 0 {
				t = &TNode{K: "list", C: []*TNode{t}}
			} else if r.Intn(2) == 0 {
				t = &TNode{K: "cons", C: []*TNode{genTree(r, 0), t}}
			} else {
				t = &TNode{K: "cons", C: []*TNode{t, genTree(r, 0)}}
			}
		}
	case 1:
		t = &TNode{K: "list", X: pick(r, 0, 1, 30)}
		for i := 0; i < 30+r.Intn(1+r.Intn(800)); i++ {
			t.C = append(t.C, genTree(r, r.Intn(2)))
		}
	default:
		t = &TNode{K: "list"}
		for i := 0; i < 5+r.Intn(20); i++ {
			u := &TNode{K: "list", X: r.Intn(2)}
			for j := 0; j < r.Intn(30); j++ {
				u.C = append(u.C, genTree(r, 0))
			}
			t.C = append(t.C, u)
		}
	}
	return t
}

func genTree(r *Rand, d int) *TNode {
	if d <= 0 || r.Intn(5) == 0 {
		return &TNode{K: pick(r, "s", "s", "i", "n", "z", "any")}
	}
	if r.Intn(4) == 0 {
		return &TNode{K: "cons", C: []*TNode{genTree(r, d-1), genTree(r, d-1)}}
	}
	n := &TNode{K: "list", X: pick(r, 0, 0, 0, 1, 3)}
	for i := 0; i < r.Intn(5); i++ {
		n.C = append(n.C, genTree(r, d-1))
	}
	return n
}

func genScript(r *Rand, n int, faults int, noLazy bool) TScript {
	var s TScript
	nf := 0
	if r.Intn(100) < faults {
		nf = 1 + r.Intn(2)
	}
	jumps := r.Intn(3) == 0
	if n > 200 && r.Intn(2) == 0 {
		n = 200
	}
	for i := 0; i < n+r.Intn(n+3); i++ {
		a := TAct{M: pick(r, 0, 0, 0, 2, 1), R: pick(r, 0, 0, 0, 1, 1, 2, 3, 4)}
		if noLazy && a.M == 1 {
			a.M = 0
		}
		s.There = append(s.There, a)
		b := TAct{R: pick(r, 0, 0, 1, 1, 2, 3, 4, 5)}
		if !noLazy && b.R == 5 {
			b.R = 1
		}
		if jumps {
			switch r.Intn(9) {
			case 8:
				b.U, b.J = 1+r.Intn(2), r.Intn(5)-2
			case 0:
				b.U = 1
			case 1:
				b.U = 2
			case 2:
				b.J = pick(r, r.Intn(5)-2, r.Intn(5)-2, r.Intn(5)-2, r.Intn(1+n), -r.Intn(1+n), 32767, -32768)
			}
		}
		s.Back = append(s.Back, b)
	}
	for i := 0; i < nf; i++ {
		k := pick(r, "err", "err", "panic", "throw", "throw", "both")
		if r.Intn(8) == 0 {
			k = "thrown" + strconv.Itoa(r.Intn(len(thrownVals)))
		}
		if r.Intn(2) == 0 {
			s.There[r.Intn(len(s.There))].F = k
		} else {
			s.Back[r.Intn(len(s.Back))].F = k
		}
	}
	s.Own = noLazy
	return s
}

func init() {
	r := reg("C11", 2400000, 36000000, func(r *Rand) *TravCase {
		c := &TravCase{Tree: genTree(r, 1+r.Intn(5))}
		if r.Intn(80) == 0 {
			c.Tree = genBigTree(r)
		}
		c.S.Kind = "seq"
		c.Scr = []TScript{genScript(r, c.Tree.size(), 60, r.Intn(2) == 0)}
		return c
	}, func(c *TravCase, rc *RC) *Violation {
		if !c.ok() || len(c.Scr) != 1 {
			rc.Discard = true
			return nil
		}
		id := 0
		tree := c.Tree.build(&id)
		m := &trav{s: c.Scr[0], model: true, fuel: c.fuel()}
		a := m.runRef(tree)
		vsim.Reset()
		t := &trav{s: c.Scr[0], fuel: c.fuel()}
		var b *travOut
		s := solo(c.bound(), func() { b = t.runLib(tree) })
		rc.sim(s)
		rc.note(join(m.log))
		if v := trouble(s); v != nil {
			return v
		}
		if len(m.log) > 2 {
			rc.nontrivial()
		}
		switch {
		case a.pv != nil:
			rc.add("ended by panic", 1)
		case a.thrown != nil || a.err != nil:
			rc.add("ended by error or throw", 1)
		default:
			rc.add("ended normally", 1)
		}
		return cmpTrav(0, m, t, a, b)
	}, nil, "A generated tree of lists and cons cells (up to five levels, now and then hundreds) traversed with callbacks whose every invocation does what the seed says: keep, relabel or replace the node, lazy or last-value mode, break, continue, relative jump, error, throw (of values easily taken for nothing, too), both, panic. The order and arguments of all callbacks, the child-failure notifications, the returned error, thrown value or panic and the returned tree are compared with an independent reference traversal. Non-trivial: more than one node visited.")
	r.Real, r.Stub = []string{"base: Ast.Traverse"}, []string{"the three traversal callbacks: scripted by the simulator"}

	r = reg("C12", 1300000, 15000000, func(r *Rand) *TravCase {
		c := &TravCase{Tree: genTree(r, 1+r.Intn(5)), S: genSched(r)}
		if r.Intn(80) == 0 {
			c.Tree = genBigTree(r)
		}
		for i := 0; i < 2+r.Intn(3); i++ {
			s := genScript(r, c.Tree.size(), 40, r.Intn(3) > 0)
			if r.Intn(3) == 0 {
				s.There[r.Intn(len(s.There))].F = pick(r, "stall", "hang")
				s.There[0].N = int64(r.Intn(5000))
			}
			c.Scr = append(c.Scr, s)
		}
		return c
	}, func(c *TravCase, rc *RC) *Violation {
		if !c.ok() {
			rc.Discard = true
			return nil
		}
		id := 0
		tree := c.Tree.build(&id)
		before := fp(tree, true)
		spare := fpSpare(tree)
		var ms, ts []*trav
		var as []*travOut
		for i, s := range c.Scr {
			m := &trav{who: i, s: s, model: true, fuel: c.fuel()}
			as = append(as, m.runRef(deepCopy(tree)))
			ms = append(ms, m)
			ts = append(ts, &trav{who: i, s: s, fuel: c.fuel()})
		}
		vsim.Reset()
		bs := make([]*travOut, len(c.Scr))
		var fns []func()
		var data []interface{}
		for i := range c.Scr {
			i := i
			data = append(data, &TaskData{})
			fns = append(fns, func() {
				bs[i] = ts[i].runLib(tree)
				if c.Scr[i].Own && bs[i].pv == nil && bs[i].err == nil && bs[i].thrown == nil {
					scribble(&bs[i].ast)
				}
			})
		}
		s := vsim.Run(c.S.config(c.bound()*int64(len(c.Scr))), data, fns)
		rc.sim(s)
		rc.Trace = s.Trace
		if v := trouble(s); v != nil {
			return v
		}
		if s.Switches >= 2 {
			rc.nontrivial()
		}
		for i := range bs {
			if v := cmpTrav(i, ms[i], ts[i], as[i], bs[i]); v != nil {
				return v
			}
		}
		if f := fp(tree, true); f != before {
			return viol("source-changed", "source tree was %s and is now %s", clip(before, 500), clip(f, 500))
		}
		if f := fpSpare(tree); f != spare {
			return viol("source-changed", "memory behind the source's lists was %s and is now %s", clip(spare, 400), clip(f, 400))
		}
		// once more, whatever happened before
		t := &trav{who: 0, s: c.Scr[0], fuel: c.fuel()}
		var b *travOut
		s = solo(c.bound(), func() { b = t.runLib(tree) })
		if v := trouble(s); v != nil {
			return v
		}
		if v := cmpTrav(0, ms[0], t, as[0], b); v != nil {
			v.Msg = "repeated: " + v.Msg
			return v
		}
		return nil
	}, func(c *TravCase) *Sched { return &c.S }, "As C11, with 2-4 goroutines traversing the same tree at once under simulated schedules, callbacks that stall, callbacks that edit the lists they are handed on the way back, and callers that overwrite the whole returned tree (spare capacity included) while the others are still traversing. Each traversal must equal the reference; the source (spare capacity included) must be unchanged afterwards; the first traversal is then repeated. Non-trivial: at least two context switches.")
	r.Real, r.Stub = []string{"base: Ast.Traverse"}, []string{"the three traversal callbacks: scripted by the simulator", "goroutine scheduler: simulated"}
}

// fpSpare prints what lies between length and capacity of the lists of a tree.
func fpSpare(a tk.Ast) string {
	s := ""
	switch v := a.Value.(type) {
	case tk.AstSlice:
		s += fp(v[len(v):cap(v)], true)
		for _, x := range v {
			s += fpSpare(x)
		}
	case tk.AstCons:
		s += fpSpare(v.Car) + fpSpare(v.Cdr)
	}
	return s
}
