package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	tk "github.com/shellyln/takenoco/base"
	objparser "github.com/shellyln/takenoco/object"
	oclz "github.com/shellyln/takenoco/object/classes"
	"verif.local/vsim"
)

// ---- C13: object parsers and the caller's slice -------------------------------------

// ObjCase: the slice, its items, its comparison and its failures are the simulator's.
type ObjCase struct {
	Rules []*Node `json:"rules"`
	Items []int   `json:"items"`
	Eq    uint64  `json:"eq"`              // seed of the comparison
	Den   int     `json:"den"`             // how many of 8 pairs are equal; 9: the same numbers
	Panic int     `json:"panic,omitempty"` // access that panics, from 1; 0: none
	Pos   int     `json:"pos,omitempty"`
	Pre   int     `json:"pre,omitempty"`
	Cap   int     `json:"cap,omitempty"`
	// Kind of the items and of the wanted values; 0: two types, 1: plain integers,
	// 2: values without an own equality, 3: the very same pointers, 4: floats, one of
	// them not a number, 5: integers, one of them nil, 6: tokens of the library, compared
	// by its own token list.
	Kind int `json:"kind,omitempty"`
	// The comparison depends on which value comes first.
	Asym bool `json:"asym,omitempty"`

	toks map[int]tk.Ast
}

type oUnc struct {
	ID int
	X  []int
}

var oPtrs = func() (r [64]*oItem) {
	for i := range r {
		r[i] = &oItem{i}
	}
	return
}()

func (c *ObjCase) item(i int, pat bool) interface{} {
	switch c.Kind {
	case 1:
		return i
	case 2:
		return oUnc{ID: i, X: []int{i}}
	case 3:
		return oPtrs[i&63]
	case 4:
		if i == 1 {
			return math.NaN()
		}
		return float64(i)
	case 5:
		if i == 0 {
			return nil
		}
		return i
	case 6:
		k := i * 2
		if pat {
			k++
		}
		a, ok := c.toks[k]
		if !ok {
			if c.toks == nil {
				c.toks = map[int]tk.Ast{}
			}
			a = c.token(i, pat)
			c.toks[k] = a
		}
		return a
	}
	if pat {
		return &oPat{i}
	}
	return &oItem{i}
}

func (c *ObjCase) id(v interface{}, pat bool) (int, bool) {
	switch x := v.(type) {
	case nil:
		return 0, c.Kind == 5
	case int:
		return x, c.Kind == 1 || c.Kind == 5 && x != 0
	case oUnc:
		return x.ID, c.Kind == 2 && len(x.X) == 1
	case *oItem:
		return x.ID, c.Kind == 3 || c.Kind == 0 && !pat
	case *oPat:
		return x.ID, c.Kind == 0 && pat
	case tk.Ast:
		return int(x.OpCode), c.Kind == 6
	case float64:
		if x != x {
			return 1, c.Kind == 4
		}
		return int(x), c.Kind == 4
	}
	return 0, false
}

type oItem struct{ ID int }
type oPat struct{ ID int }
type accPanic struct{ n int }

// objSim is the caller's side of one parse.
type objSim struct {
	c     *ObjCase
	live  bool // count accesses
	n     int
	died  bool
	bad   string
	items []interface{}
	swap  bool // model: the wanted value comes first
}

func newObjSim(c *ObjCase) *objSim {
	s := &objSim{c: c}
	for _, i := range c.Items {
		s.items = append(s.items, c.item(i, false))
	}
	return s
}

func (s *objSim) complain(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

func (s *objSim) access(what string) {
	if !s.live {
		return
	}
	if s.died {
		s.complain("%s after an earlier access had panicked", what)
		return
	}
	vsim.Y(-3)
	s.n++
	if s.n == s.c.Panic {
		s.died = true
		fired("panic")
		panic(&accPanic{s.n})
	}
}

// equal is symmetric unless the case says otherwise; nothing else about it can be relied on.
func (s *objSim) equal(a, b interface{}) bool {
	x, ok1 := s.c.id(a, false)
	p, ok2 := s.c.id(b, true)
	swapped := false
	if !ok1 || !ok2 {
		swapped = true
		x, ok1 = s.c.id(b, false)
		p, ok2 = s.c.id(a, true)
	}
	if !ok1 || !ok2 {
		s.complain("comparison of %s with %s, which are not an item and a wanted value", fp(a, false), fp(b, false))
		return false
	}
	if s.c.Kind == 6 {
		return sameTok(a.(tk.Ast), b.(tk.Ast))
	}
	if s.c.Asym {
		if swapped {
			x, p = p, x
		}
		if s.c.Den == 9 {
			return x <= p
		}
		return int(vsim.Mix(s.c.Eq, 5, uint64(x), uint64(p))%8) < s.c.Den
	}
	if s.c.Kind != 0 && x > p {
		x, p = p, x
	}
	if s.c.Den == 9 {
		return x == p
	}
	return int(vsim.Mix(s.c.Eq, uint64(x), uint64(p))%8) < s.c.Den
}

func (s *objSim) truth(fn int, x interface{}) bool {
	it, ok := s.c.id(x, false)
	if !ok {
		s.complain("class function called with %s", fp(x, false))
		return false
	}
	return vsim.Mix(s.c.Eq, 99, uint64(fn), uint64(it))%2 == 0
}

// scSlice is a SliceLike of the caller.  Only copies and made slices may be written.
type scSlice struct {
	s   *objSim
	own bool
	v   []interface{}
}

func (z *scSlice) at(i int, what string) bool {
	if i < 0 || i >= len(z.v) {
		z.s.complain("%s(%d) on a slice of length %d", what, i, len(z.v))
		return false
	}
	return true
}
func (z *scSlice) Len() int { z.s.access("Len"); return len(z.v) }
func (z *scSlice) Get(i int) interface{} {
	z.s.access("Get")
	if !z.at(i, "Get") {
		return nil
	}
	return z.v[i]
}
func (z *scSlice) Set(i int, v interface{}) {
	z.s.access("Set")
	if !z.own {
		z.s.complain("Set(%d) on the caller's slice", i)
	}
	if z.at(i, "Set") {
		z.v[i] = v
	}
}
func (z *scSlice) span(a, b int, what string) bool {
	if a < 0 || b < a || b > len(z.v) {
		z.s.complain("%s(%d,%d) on a slice of length %d", what, a, b, len(z.v))
		return false
	}
	return true
}
func (z *scSlice) Reslice(a, b int) tk.SliceLike {
	z.s.access("Reslice")
	if !z.span(a, b, "Reslice") {
		return &scSlice{s: z.s}
	}
	return &scSlice{z.s, z.own, z.v[a:b]}
}
func (z *scSlice) Copy(a, b int) tk.SliceLike {
	z.s.access("Copy")
	if !z.span(a, b, "Copy") {
		return &scSlice{s: z.s}
	}
	return &scSlice{z.s, true, append([]interface{}(nil), z.v[a:b]...)}
}
func (z *scSlice) Make(l, c int) tk.SliceLike {
	z.s.access("Make")
	return &scSlice{z.s, true, make([]interface{}, l, c)}
}
func (z *scSlice) ItemEquals(a, b interface{}) bool {
	z.s.access("ItemEquals")
	if z.s.c.Kind == 6 {
		if z.s.equal(a, b); z.s.bad != "" {
			return false
		}
		return tk.AstSlice(nil).ItemEquals(a, b)
	}
	return z.s.equal(a, b)
}

// token makes the i-th of a family of trees that differ in one place or not at all.
func (c *ObjCase) token(i int, pat bool) tk.Ast {
	seed := vsim.NewRand(c.Eq)
	var all []*tk.Ast
	var node func(d int) tk.Ast
	var fix []func()
	node = func(d int) tk.Ast {
		p := &tk.Ast{ClassName: pick(seed, "", "x", "y")}
		all = append(all, p)
		k := seed.Intn(11)
		if d <= 0 && k > 4 && k < 9 {
			k -= 5
		}
		switch k {
		case 9: // nothing
		case 10:
			switch seed.Intn(6) {
			case 0:
				p.Type, p.Value = tk.AstType_Float, float64(seed.Intn(3))
			case 1:
				p.Type, p.Value = tk.AstType_Uint, uint64(seed.Intn(3))
			case 2:
				p.Type, p.Value = tk.AstType_Int, seed.Intn(3)
			case 3:
				p.Type, p.Value = tk.AstType_Rune, rune('a'+seed.Intn(3))
			case 4:
				p.Type, p.Value = tk.AstType_String, []string{"a"}
			case 5:
				p.Type, p.Value = tk.AstType_Any, map[string]interface{}{"k": seed.Intn(2)}
			}
		case 0:
			p.Type = tk.AstType_Any
		case 1:
			p.Type, p.Value = tk.AstType_String, pick(seed, "", "s")
		case 2:
			p.Type, p.Value = tk.AstType_Int, int64(seed.Intn(3))
		case 3:
			p.Type, p.Value = tk.AstType_Any, []int{seed.Intn(2), 1}
		case 4:
			p.Type, p.Value = tk.AstType_Bool, seed.Intn(2) == 0
		case 5, 6:
			n := len(all)
			node(d - 1)
			m := len(all)
			node(d - 1)
			fix = append(fix, func() { p.Type, p.Value = tk.AstType_AstCons, tk.AstCons{Car: *all[n], Cdr: *all[m]} })
		default:
			var ks []int
			for j := seed.Intn(4); j > 0; j-- {
				ks = append(ks, len(all))
				node(d - 1)
			}
			fix = append(fix, func() {
				l := make(tk.AstSlice, 0, 4)
				for _, j := range ks {
					l = append(l, *all[j])
				}
				if p.Value != nil {
					l = append(l, tk.Ast{})
				}
				p.Type, p.Value = tk.AstType_ListOfAst, l
			})
		}
		return *p
	}
	node(1 + seed.Intn(3))
	r := vsim.NewRand(vsim.Mix(c.Eq, uint64(i)))
	for j, p := range all { // these do not count
		p.OpCode, p.Position = tk.AstOpCodeType(r.Intn(5)), i*100+j
		if pat {
			p.Length = 3
		}
	}
	if p := all[r.Intn(len(all))]; i%2 == 1 {
		switch r.Intn(4) {
		case 3: // the same number, of another type
			switch x := p.Value.(type) {
			case int64:
				p.Value = pick[interface{}](r, int(x), uint64(x), float64(x), int32(x), strconv.Itoa(int(x)))
			case int:
				p.Value = pick[interface{}](r, int64(x), uint(x), float64(x), strconv.Itoa(x))
			case uint64:
				p.Value = pick[interface{}](r, int64(x), uint(x), float64(x), uint8(x))
			case float64:
				p.Value = pick[interface{}](r, float32(x), int64(x))
			case rune:
				p.Value = pick[interface{}](r, int(x), string(x), uint32(x))
			case string:
				p.Value = []byte(x)
			case bool:
				p.Value = fmt.Sprint(x)
			case []int:
				p.Value = [2]int{x[0], x[1]}
			case map[string]interface{}:
				p.Value = map[string]interface{}{"k": fmt.Sprint(x["k"])}
			default:
				p.ClassName += "+"
			}
		case 0:
			switch r.Intn(3) {
			case 0:
				p.ClassName += "'"
			case 1:
				if p.ClassName == "" {
					p.ClassName = " "
				} else {
					p.ClassName = strings.ToUpper(p.ClassName)
				}
			case 2:
				p.ClassName = pick(r, " ", "0", "X") + p.ClassName
			}
		case 1:
			switch x := p.Value.(type) {
			case string:
				p.Value = x + "t"
			case int64:
				p.Value = x + 5
			case bool:
				p.Value = !x
			case []int:
				p.Value = []int{x[0], 2}
			default:
				p.Value = 1 // one more in a list
			}
		case 2:
			if p.Value != nil {
				// another type, perhaps of the caller's; lists and cells keep theirs
				t := p.Type
				for p.Type == t {
					p.Type = pick(r, tk.AstType_Any+50, tk.AstType_Any, tk.AstType_Nil, tk.AstType_Rune, tk.AstType_Int, tk.AstType_Uint, tk.AstType_Float, tk.AstType_Bool, tk.AstType_String, tk.AstType_ListOfAny, tk.AstType_Function)
				}
			}
		}
	}
	for _, f := range fix { // children first
		f()
	}
	all[0].OpCode = tk.AstOpCodeType(i)
	return *all[0]
}

// sameTok: class name, type and value are the same, to any depth.
func sameTok(a, b tk.Ast) bool {
	if a.ClassName != b.ClassName || a.Type != b.Type {
		return false
	}
	switch x := a.Value.(type) {
	case tk.AstCons:
		y := b.Value.(tk.AstCons)
		return sameTok(x.Car, y.Car) && sameTok(x.Cdr, y.Cdr)
	case tk.AstSlice:
		y := b.Value.(tk.AstSlice)
		for i := range x {
			if i >= len(y) || !sameTok(x[i], y[i]) {
				return false
			}
		}
		return len(x) == len(y)
	}
	return reflect.DeepEqual(a.Value, b.Value)
}

func (k *comb) buildObj(n *Node) tk.ParserFn {
	pats := func() []interface{} {
		var r []interface{}
		for _, o := range n.O {
			r = append(r, k.obj.c.item(o, true))
		}
		return r
	}
	switch n.K {
	case "oany":
		return objparser.Any()
	case "oend":
		return objparser.End()
	case "oseq":
		return objparser.Seq(pats()...)
	case "oclass":
		return objparser.ObjClass(pats()...)
	case "oclassn":
		return objparser.ObjClassN(pats()...)
	case "oclassfn":
		return objparser.ObjClassFn(func(c interface{}) bool {
			k.obj.access("class function")
			return k.obj.truth(n.N, c)
		})
	}
	return nil
}

func (k *comb) modelObj(n *Node, c mres) (mres, bool) {
	s := k.obj
	no := mres{st: 1}
	one := func(cls string, v interface{}) (mres, bool) {
		return mres{pos: c.pos + 1, toks: cat(c.toks, tk.AstSlice{{ClassName: cls, Value: v, SourcePosition: tk.SourcePosition{Position: c.pos}}})}, true
	}
	have := c.pos < len(s.items)
	equal := func(a, b interface{}) bool {
		if s.swap {
			return s.equal(b, a)
		}
		return s.equal(a, b)
	}
	any := func() bool {
		for _, o := range n.O {
			if equal(s.items[c.pos], s.c.item(o, true)) {
				return true
			}
		}
		return false
	}
	switch n.K {
	case "oany":
		if have {
			return one(oclz.Any, s.items[c.pos])
		}
		return no, true
	case "oend":
		if c.pos == len(s.items) {
			return mres{pos: c.pos, toks: c.toks}, true
		}
		return no, true
	case "oseq":
		if c.pos+len(n.O) > len(s.items) {
			return no, true
		}
		for i, o := range n.O {
			if !equal(s.items[c.pos+i], s.c.item(o, true)) {
				return no, true
			}
		}
		r, _ := one(oclz.Seq, &scSlice{v: s.items[c.pos : c.pos+len(n.O)]})
		r.pos = c.pos + len(n.O)
		return r, true
	case "oclass":
		if have && any() {
			return one(oclz.ObjClass, s.items[c.pos])
		}
		return no, true
	case "oclassn":
		if have && !any() {
			return one(oclz.ObjClassN, s.items[c.pos])
		}
		return no, true
	case "oclassfn":
		if have && s.truth(n.N, s.items[c.pos]) {
			return one(oclz.ObjClassFn, s.items[c.pos])
		}
		return no, true
	}
	return no, false
}

// objToks prints tokens without their types (a result tagged as string or as any is
// the same value).
func objToks(as tk.AstSlice) string {
	s := ""
	for _, a := range as {
		s += a.ClassName + ":" + objVal(a.Value) + "@" + strconv.Itoa(a.Position) + " "
	}
	return s
}

func objVal(v interface{}) string {
	switch x := v.(type) {
	case tk.AstSlice:
		return "{" + objToks(x) + "}"
	case *scSlice:
		s := "S["
		for _, y := range x.v {
			s += objVal(y) + " "
		}
		return s + "]"
	}
	return fp(v, false)
}

func (c *ObjCase) comb() *CombCase {
	return &CombCase{Rules: c.Rules, Pos: c.Pos, Pre: c.Pre, Cap: c.Cap}
}

func (c *ObjCase) ok() bool {
	if len(c.Items) > 100 || c.Pos > len(c.Items) || c.Panic < 0 {
		return false
	}
	for _, n := range allNodes(&Gram{Rules: c.Rules}) {
		if n == nil || n.K == "leaf" || n.K == "base" || n.K == "match" || len(n.O) > 50 {
			return false
		}
		for _, t := range n.T {
			if t.K == "cb" || t.K == "terr" {
				return false
			}
		}
	}
	return c.comb().ok()
}

type objGen struct {
	r     *Rand
	nr    int
	size  int
	items []int
}

func (z *objGen) node(d int) *Node {
	r := z.r
	z.size++
	kids := func(min, max int) []*Node {
		var c []*Node
		for i := 0; i < min+r.Intn(max-min+1); i++ {
			c = append(c, z.node(d-1))
		}
		for i := rare(r, 15); i > 0 && max > 1; i-- {
			c = append(c, z.node(0))
		}
		return c
	}
	if d <= 0 || z.size > 25 {
		var o []int
		for i := r.Intn(4) + rare(r, 20); i > 0; i-- {
			o = append(o, r.Intn(5))
		}
		switch r.Intn(12) {
		case 0, 1:
			return &Node{K: "oany"}
		case 2, 3, 4, 5:
			if n := len(z.items); n > 0 && r.Intn(4) == 0 { // a part of the items, or nearly
				a := r.Intn(n)
				o = append([]int(nil), z.items[a:a+1+r.Intn(n-a)]...)
				if r.Intn(2) == 0 {
					o[len(o)-1-r.Intn(len(o))/2] = r.Intn(5)
				}
				if len(o) > 40 {
					o = o[:40]
				}
			}
			return &Node{K: "oseq", O: o}
		case 6, 7:
			return &Node{K: "oclass", O: o}
		case 8:
			return &Node{K: "oclassn", O: o}
		case 9:
			return &Node{K: "oclassfn", N: r.Intn(4)}
		case 10:
			if z.nr > 1 {
				return &Node{K: "ind", I: r.Intn(z.nr)}
			}
			fallthrough
		default:
			return &Node{K: pick(r, "oend", "start", "zero"), N: 1, I: 1}
		}
	}
	switch r.Intn(14) {
	case 0, 1, 2:
		return &Node{K: "flat", C: kids(1, 3)}
	case 3, 4:
		return &Node{K: "first", C: kids(2, 3)}
	case 5:
		return &Node{K: pick(r, "la", "lan"), C: kids(1, 2)}
	case 6:
		n := &Node{K: pick(r, "lb", "lbn"), N: r.Intn(3), C: kids(1, 2)}
		n.M = n.N + r.Intn(3)
		return n
	case 7:
		n := &Node{K: "rep", N: r.Intn(3), C: kids(1, 2)}
		n.M = n.N + r.Intn(3)
		return n
	case 8:
		return &Node{K: "opt", C: kids(1, 2)}
	case 9, 10:
		return &Node{K: pick(r, "star", "plus"), C: kids(1, 2)}
	case 11:
		return &Node{K: "group", C: kids(1, 2)}
	default:
		return &Node{K: "trans", C: kids(1, 1), T: []Tr{{K: pick(r, "toslice", "toslice", "erase", "group", "pop", "exch")}}}
	}
}

func genObj(r *Rand) *ObjCase {
	c := &ObjCase{Eq: r.U64() >> 12, Den: pick(r, 1+r.Intn(7), 1+r.Intn(7), 1+r.Intn(7), 8, 9), Pre: r.Intn(3), Cap: pick(r, 0, 1, 4, 64)}
	n := r.Intn(12)
	if r.Intn(60) == 0 {
		n = r.Intn(1 + r.Intn(100))
	}
	for i := 0; i < n; i++ {
		c.Items = append(c.Items, r.Intn(5))
	}
	z := &objGen{r: r, nr: 1 + r.Intn(2), items: c.Items}
	for i := 0; i < z.nr; i++ {
		z.size = 0
		c.Rules = append(c.Rules, z.node(1+r.Intn(4)))
	}
	if r.Intn(4) == 0 && len(c.Items) > 0 {
		c.Pos = r.Intn(len(c.Items) + 1)
	}
	c.Kind = pick(r, 0, 0, 0, 1, 2, 3, 4, 5, 6)
	c.Asym = r.Intn(6) == 0 && c.Kind != 6
	if r.Intn(3) == 0 {
		c.Panic = 1 + r.Intn(1+r.Intn(40))
	}
	return c
}

func init() {
	r := reg("C13", 1100000, 7500000, genObj, func(c *ObjCase, rc *RC) *Violation {
		if !c.ok() {
			rc.Discard = true
			return nil
		}
		type result struct {
			mres
			err error
		}
		eval := func(swap bool) (z result) {
			m := &comb{c: c.comb(), fuel: 1500, obj: newObjSim(c)}
			m.obj.swap = swap
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(outOfFuel); ok {
						panic(badCase("does not end"))
					}
					panic(r)
				}
			}()
			z.mres, z.err = m.model(c.Rules[0], mres{pos: c.Pos, toks: m.c.preToks()}, 0)
			return
		}
		mr := eval(false)
		var mr2 result
		if c.Asym {
			mr2 = eval(true)
		}
		vsim.Reset()
		k := &comb{c: c.comb(), ind: make([]tk.ParserFn, len(c.Rules)), obj: newObjSim(c)}
		src := &scSlice{s: k.obj, v: k.obj.items}
		before := fp(src, false)
		var out tk.ParserContext
		var err error
		var pv interface{}
		s := solo(200000, func() {
			defer func() { pv = recover() }()
			p := k.build(c.Rules[0])
			ctx := tk.ParserContext{Slice: src, AstStack: k.c.preToks()}
			ctx.Position = c.Pos
			k.obj.live = true
			out, err = p(ctx)
		})
		k.obj.live = false
		rc.sim(s)
		rc.note(mr.st, mr.pos, k.obj.n, objToks(mr.toks))
		rc.add("accesses to the caller's slice", int64(k.obj.n))
		if k.obj.n >= 3 {
			rc.nontrivial()
		}
		if t := trouble(s); t != nil {
			return t
		}
		if k.obj.bad != "" {
			return viol("access", "%s", k.obj.bad)
		}
		if f := fp(src, false); f != before {
			return viol("written", "the caller's slice was %s and is now %s", before, f)
		}
		if k.obj.died {
			if p, ok := pv.(*accPanic); !ok || p.n != c.Panic {
				return viol("panic-lost", "access %d panicked; the caller got panic %v, error %v, status %d", c.Panic, pv, err, out.MatchStatus)
			}
			rc.add("panics of the slice that reached the caller", 1)
			return nil
		}
		if pv != nil {
			return viol("panic", "unexpected panic %v", pv)
		}
		verdict := func(mr result) *Violation {
			if (err == nil) != (mr.err == nil) {
				return viol("error", "expected error %v, got %v", mr.err, err)
			}
			if int(out.MatchStatus) != mr.st {
				return viol("status", "expected status %d, got %d", mr.st, out.MatchStatus)
			}
			if mr.st != 0 {
				if (c.Rules[0].K == "oseq" || c.Rules[0].K[0] == 'o') && c.Rules[0].K != "once" && c.Rules[0].K != "opt" && (out.Position != c.Pos || len(out.AstStack) != len(k.c.preToks())) {
					return viol("mismatch-consumes", "a mismatch moved the position from %d to %d or changed the tokens", c.Pos, out.Position)
				}
				return nil
			}
			if out.Position != mr.pos {
				return viol("position", "expected position %d, got %d", mr.pos, out.Position)
			}
			if a, b := objToks(mr.toks), objToks(out.AstStack); a != b {
				return viol("tokens", "expected %s, got %s", clip(a, 500), clip(b, 500))
			}
			return nil
		}
		v := verdict(mr)
		if v != nil && c.Asym && verdict(mr2) == nil {
			return nil // the parsers may pass the wanted value first, if they always do
		}
		return v
	}, nil, "Grammars of object parsers and combinators over a slice whose length, items (of a type of their own, plain integers, values without an own equality, the wanted values themselves, floats with a not-a-number, nil, tokens compared by the library's own token list), comparison (arbitrary, mostly symmetric) and class functions are drawn from the seed, and whose k-th access panics. Every access is checked (index inside the length, nothing written, only items compared with wanted values, nothing after a panic); the result is compared with a reference evaluation that uses the comparison alone. Non-trivial: at least three accesses.")
	r.Real, r.Stub = []string{"object: all parsers", "base: combinators, ToSlice"}, []string{"the caller's slice (SliceLike), its comparison and class functions: simulated"}
}
