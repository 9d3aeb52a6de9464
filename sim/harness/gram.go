package main

import (
	"errors"
	"fmt"
	"runtime"
	"strconv"
	"unsafe"

	tk "github.com/shellyln/takenoco/base"
	"github.com/shellyln/takenoco/extra"
	objparser "github.com/shellyln/takenoco/object"
	sp "github.com/shellyln/takenoco/string"
	"verif.local/vsim"
)

// Gram is a generated grammar over the whole public API; rule 0 is the root.
type Gram struct {
	Obj     bool     `json:"objmode,omitempty"`
	Both    bool     `json:"both,omitempty"` // for texts and slices: nothing in it looks at the source itself
	Mod     int      `json:"mod,omitempty"`  // object mode: values are equal modulo Mod
	Item    int      `json:"item,omitempty"` // object mode: the type of the items
	Rules   []*Node  `json:"rules"`
	BFaults []BFault `json:"bfaults,omitempty"`

	big  bool // make long sources
	long bool // one long list: make fairly long sources
}

// BFault: the At'th construction of shared rule Rule fails.
type BFault struct {
	Rule int    `json:"rule"`
	At   int    `json:"at"`
	K    string `json:"f"` // panic exit stall hang
	N    int64  `json:"n,omitempty"`
}

type BuildPanic struct{ Rule, At int }

type Node struct {
	K  string   `json:"k"`
	C  []*Node  `json:"c,omitempty"`
	S  []string `json:"s,omitempty"`
	O  []int    `json:"o,omitempty"`
	N  int      `json:"n,omitempty"`
	M  int      `json:"m,omitempty"`
	I  int      `json:"i,omitempty"`
	F  int      `json:"f,omitempty"` // flags
	T  []Tr     `json:"tr,omitempty"`
	Cs []CaseS  `json:"cs,omitempty"`
}

type CaseS struct {
	If  string   `json:"if"`
	V   []string `json:"v,omitempty"`
	Let []Tr     `json:"let,omitempty"`
}

type Tr struct {
	K string `json:"t"`
	N int    `json:"n,omitempty"`
	S string `json:"s,omitempty"`
}

const (
	fThereExists = 1 << iota
	fNegative
	fRewind
	fTimes
	fFn
)

// simSlice is the caller's slice in object mode.
type simSlice struct {
	data []int
	mod  int
	made bool
	vals []interface{}
	kind int // of slice; the slices made from it are of the same
	item int
}

// item is x as an item of a slice of type t.
func item(t, x int) interface{} {
	if t == 4 {
		t = x & 3
	}
	switch t {
	case 1:
		return int64(x)
	case 2:
		return strconv.Itoa(x)
	case 3:
		return float64(x)
	}
	return x
}

// itemInt is the number that v stands for.
func itemInt(v interface{}) (int, bool) {
	switch x := v.(type) {
	case int:
		return x, true
	case int64:
		return int(x), true
	case float64:
		return int(x), true
	case string:
		i, err := strconv.Atoi(x)
		return i, err == nil
	}
	return 0, false
}

func (s *simSlice) Len() int {
	if s.made {
		return len(s.vals)
	}
	return len(s.data)
}
func (s *simSlice) Get(i int) interface{} {
	if s.made {
		return s.vals[i]
	}
	return item(s.item, s.data[i])
}
func (s *simSlice) Set(i int, v interface{}) {
	if s.made {
		s.vals[i] = v
		return
	}
	x, ok := itemInt(v)
	if !ok {
		x = 987654
	}
	s.data[i] = x
}
func (s *simSlice) Reslice(a, b int) tk.SliceLike {
	return &simSlice{data: s.data[a:b], mod: s.mod, kind: s.kind, item: s.item}
}
func (s *simSlice) Copy(a, b int) tk.SliceLike {
	return &simSlice{data: append([]int(nil), s.data[a:b]...), mod: s.mod, kind: s.kind, item: s.item}
}
func (s *simSlice) Make(l, c int) tk.SliceLike {
	return &simSlice{made: true, vals: make([]interface{}, l, c), kind: s.kind, item: s.item}
}
func (s *simSlice) ItemEquals(a, b interface{}) bool {
	hit(nil, false, 0, "eq", func() string { return fmt.Sprint(a, b) })
	x, ok1 := itemInt(a)
	y, ok2 := itemInt(b)
	if !ok1 || !ok2 {
		return false
	}
	if s.mod < 1 {
		return x == y
	}
	return x%s.mod == y%s.mod
}

// ---- world: one construction of a grammar -------------------------------------------

type indInst struct {
	rule, attempts, ok, active int
	shared                     bool
}

type supplied struct {
	name string
	v    interface{}
	fp   string
	fns  []uintptr
}

type World struct {
	G        *Gram
	root     tk.ParserFn
	ind      []tk.ParserFn // by rule
	insts    []*indInst
	bad      string // misuse of a builder
	sup      []supplied
	reent    func(e *Env, n int64) string
	childOps bool
	leaf     func(n *Node) tk.ParserFn // scripted leaves
	quiet    bool
	held     []*Held
	folds    [4]tk.TransformerFn
	aux      tk.ParserFn // deferred, for constructors that parse
	holding  bool
	watch    bool // note failures of library transformers and error assertions
	trace    *traceScopes

	cut       bool // doomed attempts fail at once
	doomed    int
	doomBroke bool
}

func newWorld(g *Gram) *World { return &World{G: g, ind: make([]tk.ParserFn, len(g.Rules))} }

// start makes the parser of rule 0.
func (w *World) start() *World {
	for i := range w.G.Rules { // shared by goroutines, so made before any of them starts
		w.indirect(i, true)
	}
	for i := range w.folds {
		w.folds[i] = foldRule(i)
	}
	w.aux = tk.Indirect(func() tk.ParserFn {
		vsim.Y(-4)
		return tk.Zero(tk.Ast{ClassName: "aux"})
	})
	w.root = w.build(w.G.Rules[0])
	return w
}

func (w *World) supply(name string, v interface{}) {
	if w.quiet {
		return
	}
	s := supplied{name: name, v: v}
	if s.fns = fnIDs(v, nil); s.fns == nil {
		s.fp = fp(v, true)
	}
	w.sup = append(w.sup, s)
}

// fnIDs identifies the functions in a list that the caller supplied.
func fnIDs(v interface{}, r []uintptr) []uintptr {
	switch x := v.(type) {
	case []tk.ParserFn:
		for i := range x {
			r = append(r, uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&x[i]))))
		}
	case []tk.TransformerFn:
		for i := range x {
			r = append(r, uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&x[i]))))
		}
	case []tk.Case:
		for i := range x {
			r = append(r, uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&x[i].If))))
			r = fnIDs(x[i].Let, r)
		}
	case []tk.Precedence:
		for i := range x {
			k := uintptr(len(x[i].Rules)) << 1
			if x[i].Rtol {
				k++
			}
			r = fnIDs(x[i].Rules, append(r, k))
		}
	}
	return r
}

func (w *World) supplyCheck() string {
	for _, s := range w.sup {
		if s.fns != nil {
			for i, x := range fnIDs(s.v, nil) {
				if i >= len(s.fns) || x != s.fns[i] {
					return fmt.Sprintf("entry %d of the %s is no longer the function that was given", i, s.name)
				}
			}
			continue
		}
		if f := fp(s.v, true); f != s.fp {
			return fmt.Sprintf("%s was %s and is now %s", s.name, clip(s.fp, 300), clip(f, 300))
		}
	}
	return ""
}

func (w *World) indirect(rule int, shared bool) tk.ParserFn {
	if shared {
		if p := w.ind[rule]; p != nil {
			return p
		}
	}
	in := &indInst{rule: rule, shared: shared}
	w.insts = append(w.insts, in)
	p := tk.Indirect(func() tk.ParserFn {
		in.active++
		if in.active > 1 && w.bad == "" {
			w.bad = fmt.Sprintf("constructor of rule %d runs in two goroutines at the same time", rule)
		}
		if in.ok > 0 && w.bad == "" {
			w.bad = fmt.Sprintf("constructor of rule %d runs again after it has succeeded", rule)
		}
		defer func() { in.active-- }()
		k := in.attempts
		in.attempts++
		vsim.Y(-4)
		if shared {
			for _, f := range w.G.BFaults {
				if f.Rule == rule && f.At == k {
					e := curEnv()
					switch f.K {
					case "panic":
						fired("builder-panic")
						v := &BuildPanic{rule, k}
						if e != nil {
							e.Build, e.BuildPanic = "panic", v
						}
						panic(v)
					case "exit":
						fired("builder-exit")
						if e != nil {
							e.Build = "exit"
						}
						runtime.Goexit()
					case "stall":
						fired("builder-stall")
						vsim.Stall(f.N)
					case "hang":
						fired("builder-hang")
						vsim.Stall(-1)
					case "parse":
						fired("builder-parse")
						if out, err := w.aux(tk.ParserContext{}); w.bad == "" && (err != nil || out.MatchStatus != tk.MatchStatus_Matched || len(out.AstStack) != 1) {
							w.bad = fmt.Sprintf("a parse within the constructor of rule %d: %v %v, %d tokens", rule, out.MatchStatus, err, len(out.AstStack))
						}
					}
				}
			}
		}
		q := w.build(w.G.Rules[rule])
		in.ok++
		return q
	})
	if shared {
		w.ind[rule] = p
	}
	return p
}

func token(n int, s string) tk.Ast {
	a := tk.Ast{OpCode: tk.AstOpCodeType(100 + n), ClassName: "K" + s}
	switch n % 5 {
	case 0:
		a.Type, a.Value = tk.AstType_Int, int64(n)
	case 1:
		a.Type, a.Value = tk.AstType_ListOfAst, tk.AstSlice{{ClassName: "in", Type: tk.AstType_String, Value: s}, {Type: tk.AstType_Int, Value: int64(n)}}
	case 2:
		a.Type, a.Value = tk.AstType_AstCons, tk.AstCons{Car: tk.Ast{Type: tk.AstType_String, Value: s}, Cdr: tk.Ast{Type: tk.AstType_Nil}}
	default:
		a.Type, a.Value = tk.AstType_String, s
	}
	return a
}

func (w *World) trs(ts []Tr) []tk.TransformerFn {
	var r []tk.TransformerFn
	for _, t := range ts {
		r = append(r, w.tr(t))
	}
	w.supply("list of transformers", r)
	return r
}

func (w *World) tr(t Tr) tk.TransformerFn {
	f := w.tr0(t)
	if !w.watch || t.K == "cb" {
		return f
	}
	return func(ctx tk.ParserContext, asts tk.AstSlice) (tk.AstSlice, error) {
		out, err := f(ctx, asts)
		if e := curEnv(); err != nil && e != nil {
			if e.Ended && len(e.Late) < 4 {
				e.Late = append(e.Late, "transformer "+t.K)
			}
			e.Ended, e.libErr = true, err
		}
		return out, err
	}
}

func (w *World) tr0(t Tr) tk.TransformerFn {
	switch t.K {
	case "erase":
		return tk.Erase
	case "group":
		return tk.GroupingTransform
	case "toslice":
		return tk.ToSlice
	case "setop":
		return tk.SetOpCode(tk.AstOpCodeType(t.N))
	case "setopc":
		return tk.SetOpCodeAndClassName(tk.AstOpCodeType(t.N), t.S)
	case "cls":
		return tk.ChangeClassName(t.S)
	case "setval":
		v := token(t.N, t.S)
		w.supply("SetValue value", v.Value)
		return tk.SetValue(v.Type, v.Value)
	case "prepend":
		v := token(t.N, t.S)
		w.supply("Prepend token", v.Value)
		return tk.Prepend(v)
	case "push":
		v := token(t.N, t.S)
		w.supply("Push token", v.Value)
		return tk.Push(v)
	case "pop":
		return tk.Pop
	case "exch":
		return tk.Exchange
	case "roll":
		return tk.Roll(t.N)
	case "terr":
		return tk.TransformError("transform error " + t.S)
	case "concat":
		return sp.Concat
	case "trim":
		return sp.Trim
	case "trims":
		return sp.TrimStart
	case "trime":
		return sp.TrimEnd
	case "int":
		return sp.ParseInt
	case "uint":
		return sp.ParseUint
	case "intr":
		return sp.ParseIntRadix(t.N)
	case "uintr":
		return sp.ParseUintRadix(t.N)
	case "float":
		return sp.ParseFloat
	case "cb":
		var preset tk.AstSlice
		if t.N%7 > 4 {
			// a list of the caller's, of which the transformer hands out the beginning
			for i := 0; i < 5+t.N/7; i++ {
				preset = append(preset, token(t.N+i, "p"))
				if i == t.N/7%3 {
					preset[i].OpCode, preset[i].ClassName = 0, ""
				}
			}
			w.supply("list of a transformer", preset)
		}
		return func(ctx tk.ParserContext, asts tk.AstSlice) (tk.AstSlice, error) {
			err, flip, _ := hit(ctx.Tag, true, capErr, "tr"+t.S, func() string { return fmt.Sprintf("%s <- %s", fpCtx(ctx)(), fp(asts, true)) })
			if err != nil {
				return asts, err
			}
			_ = flip
			switch t.N % 7 {
			case 0:
				return asts, nil
			case 1:
				z := append(tk.AstSlice(nil), asts...)
				e, _ := ctx.Tag.(*Env)
				if e == nil {
					e = &Env{Op: -1}
				}
				return append(z, tk.Ast{ClassName: "mark" + t.S, Type: tk.AstType_Int, Value: int64(e.Op)}), nil
			case 2:
				z := make(tk.AstSlice, 0, len(asts))
				for i := len(asts) - 1; i >= 0; i-- {
					z = append(z, asts[i])
				}
				return z, nil
			case 3:
				if len(asts) > 1 {
					return asts[1:], nil
				}
				return asts, nil
			case 5:
				return preset[:1+len(asts)%4+t.N/7], nil
			case 6:
				return preset[:0], nil
			default:
				return tk.AstSlice{{ClassName: "sum" + t.S, Type: tk.AstType_Int, Value: int64(len(asts))}}, nil
			}
		}
	}
	panic(badCase("bad transformer " + t.K))
}

func (w *World) kids(n *Node) []tk.ParserFn {
	var r []tk.ParserFn
	for _, c := range n.C {
		r = append(r, w.build(c))
	}
	w.supply("list of parsers", r)
	return r
}

func runeRanges(ss []string) []tk.RuneRange {
	var r []tk.RuneRange
	for _, s := range ss {
		rs := []rune(s)
		if len(rs) >= 2 {
			r = append(r, tk.RuneRange{Start: rs[0], End: rs[1]})
		}
	}
	return r
}

func anys(o []int) []interface{} {
	var r []interface{}
	for _, x := range o {
		r = append(r, x)
	}
	return r
}

func (w *World) build(n *Node) tk.ParserFn {
	if w.leaf != nil {
		if p := w.leaf(n); p != nil {
			return p
		}
	}
	switch n.K {
	// base
	case "flat":
		return tk.FlatGroup(w.kids(n)...)
	case "group":
		return tk.Group(w.kids(n)...)
	case "first":
		return tk.First(w.kids(n)...)
	case "la":
		return tk.LookAhead(w.kids(n)...)
	case "lan":
		return tk.LookAheadN(w.kids(n)...)
	case "lb":
		return tk.LookBehind(n.N, n.M, w.kids(n)...)
	case "lbn":
		return tk.LookBehindN(n.N, n.M, w.kids(n)...)
	case "rep":
		return tk.Repeat(tk.Times{Min: n.N, Max: n.M}, w.kids(n)...)
	case "once":
		return tk.Once(w.kids(n)...)
	case "opt":
		return tk.ZeroOrOnce(w.kids(n)...)
	case "star":
		return tk.ZeroOrMoreTimes(w.kids(n)...)
	case "plus":
		return tk.OneOrMoreTimes(w.kids(n)...)
	case "trans":
		return tk.Trans(w.build(n.C[0]), w.trs(n.T)...)
	case "if":
		return tk.If(n.N == 0, w.build(n.C[0]), w.build(n.C[1]))
	case "err":
		p := tk.Error("error assertion " + n.S[0])
		if !w.watch {
			return p
		}
		return func(ctx tk.ParserContext) (tk.ParserContext, error) {
			out, err := p(ctx)
			if e := curEnv(); e != nil {
				e.Ended, e.libErr = true, err
			}
			return out, err
		}
	case "unm":
		return tk.Unmatched()
	case "start":
		return tk.Start()
	case "zero":
		var as tk.AstSlice
		for i, s := range n.S {
			t := token(n.N+i, s)
			if n.N%2 == 1 { // a position of its own, which does not count
				t.SourcePosition = tk.SourcePosition{Position: 1 + n.N, Length: i}
			}
			as = append(as, t)
		}
		w.supply("Zero tokens", as)
		return tk.Zero(as...)
	case "ind":
		return w.indirect(n.I, n.F == 0)
	case "trace":
		if w.trace == nil {
			return tk.BaseParser(":Base:DebugTrace", nil, nil, w.kids(n), nil)
		}
		return w.trace.scope(n.S[0], func() []tk.ParserFn { return w.kids(n) })
	case "dtrace":
		mk := tk.DebugTrace(n.S[0], simTracer{})
		return mk(w.kids(n)...)
	case "doom":
		return w.doom(n)
	case "match":
		var cs []tk.Case
		for _, c := range n.Cs {
			cs = append(cs, tk.Case{If: w.matchIf(c), Let: w.trs(c.Let)})
		}
		w.supply("cases", cs)
		return tk.Match(n.N)(cs...)
	case "base":
		return w.baseNode(n)
	case "light", "raw":
		return w.lightNode(n)
	// string
	case "any":
		return sp.Any()
	case "end":
		return sp.End()
	case "seq":
		return sp.Seq(n.S[0])
	case "seqi":
		return sp.SeqI(n.S[0])
	case "range":
		rr := runeRanges(n.S)
		w.supply("CharRange ranges", rr)
		return sp.CharRange(rr...)
	case "rangen":
		rr := runeRanges(n.S)
		w.supply("CharRangeN ranges", rr)
		return sp.CharRangeN(rr...)
	case "class":
		ss := append([]string(nil), n.S...)
		w.supply("CharClass strings", ss)
		return sp.CharClass(ss...)
	case "classn":
		ss := append([]string(nil), n.S...)
		w.supply("CharClassN strings", ss)
		return sp.CharClassN(ss...)
	case "classfn":
		m := rune(n.N)
		if m < 1 {
			m = 1
		}
		return sp.CharClassFn(func(c rune) bool {
			_, flip, _ := hit(nil, false, capUnm, "fn"+strconv.Itoa(n.I), func() string { return fmt.Sprint(c) })
			return !flip && (c%m == 0 || m == 1)
		})
	case "ws":
		return sp.Whitespace()
	case "wsn":
		return sp.WhitespaceNoLineBreak()
	case "lbr":
		return sp.LineBreak()
	case "alpha":
		return sp.Alpha()
	case "num":
		return sp.Number()
	case "alnum":
		return sp.Alnum()
	case "bin":
		return sp.BinNumber()
	case "oct":
		return sp.OctNumber()
	case "hex":
		return sp.HexNumber()
	case "wb":
		return sp.WordBoundary()
	case "uwb":
		return extra.UnicodeWordBoundary()
	case "binstr":
		return extra.BinaryNumberStr()
	case "octstr":
		return extra.OctalNumberStr()
	case "hexstr":
		return extra.HexNumberStr()
	case "intstr":
		return extra.IntegerNumberStr()
	case "floatstr":
		return extra.FloatNumberStr()
	case "numstr":
		return extra.NumericStr()
	case "ident":
		return extra.AsciiIdentifierStr()
	case "uident":
		return extra.UnicodeIdentifierStr()
	case "date":
		return tk.Trans(extra.DateStr(), extra.ParseDate)
	case "datetime":
		return tk.Trans(extra.DateTimeStr(), extra.ParseDateTime)
	case "time":
		return tk.Trans(extra.TimeStr(), extra.ParseTime)
	case "calc":
		return w.calc(n)
	// object
	case "oany":
		return objparser.Any()
	case "oend":
		return objparser.End()
	case "oseq":
		xs := anys(n.O)
		w.supply("object Seq values", xs)
		return objparser.Seq(xs...)
	case "oclass":
		xs := anys(n.O)
		w.supply("ObjClass values", xs)
		return objparser.ObjClass(xs...)
	case "oclassn":
		xs := anys(n.O)
		w.supply("ObjClassN values", xs)
		return objparser.ObjClassN(xs...)
	case "oclassfn":
		m := n.N
		return objparser.ObjClassFn(func(c interface{}) bool {
			_, flip, _ := hit(nil, false, capUnm, "ofn"+strconv.Itoa(n.I), func() string { return fmt.Sprint(c) })
			x, ok := itemInt(c)
			return !flip && ok && (m < 2 || x%m == 0)
		})
	}
	panic(badCase("bad node " + n.K))
}

func (w *World) matchIf(c CaseS) tk.MatchCaseIfFn {
	switch c.If {
	case "any":
		return tk.TopIsAny
	case "str":
		v := append([]string(nil), c.V...)
		w.supply("TopIsStr values", v)
		return tk.TopIsStr(v...)
	case "int":
		var v []int64
		for _, s := range c.V {
			v = append(v, int64(len(s)))
		}
		w.supply("TopIsInt values", v)
		return tk.TopIsInt(v...)
	case "is":
		var v []interface{}
		for _, s := range c.V {
			v = append(v, s)
		}
		w.supply("TopIs values", v)
		return tk.TopIs(v...)
	case "rune":
		v := []rune(join(c.V))
		w.supply("TopIsRune values", v)
		return tk.TopIsRune(v...)
	case "bool":
		v := []bool{true, len(c.V) == 0}[:1+len(c.V)%2]
		w.supply("TopIsBool values", v)
		return tk.TopIsBool(v...)
	case "uint":
		v := []uint64{3, 1, 2}
		for i := range c.V {
			v = append(v, uint64(4+i))
		}
		w.supply("TopIsUint values", v)
		return tk.TopIsUint(v...)
	case "float":
		v := []float64{2, 1, 1.5}
		for i := range c.V {
			v = append(v, float64(i)*2.5)
		}
		w.supply("TopIsFloat values", v)
		return tk.TopIsFloat(v...)
	case "cb":
		return func(asts tk.AstSlice) bool {
			_, flip, _ := hit(nil, false, capUnm, "if", func() string { return fpStack(asts) })
			return !flip && len(asts)%2 == len(c.V)%2
		}
	}
	panic(badCase("bad case " + c.If))
}

func (w *World) baseNode(n *Node) tk.ParserFn {
	var props []interface{}
	if n.F&fThereExists != 0 {
		props = append(props, tk.ThereExists{})
	}
	if n.F&fNegative != 0 {
		props = append(props, tk.Negative{})
	}
	if n.F&fRewind != 0 {
		props = append(props, tk.Rewind{})
	}
	if n.F&fTimes != 0 {
		props = append(props, tk.Times{Min: n.N, Max: n.M})
	}
	var fn tk.ParserImplFn
	if n.F&fFn != 0 {
		fn = func(matched, bottom int, ctx tk.ParserContext) (tk.ParserContext, error) {
			err, flip, st := hit(ctx.Tag, true, capErr|capUnm|capNil, "base"+strconv.Itoa(n.I), func() string { return fmt.Sprintf("(%d,%d,q%d) %s", matched, bottom, ctx.Quantity, fpCtx(ctx)()) })
			if err != nil {
				ctx.MatchStatus = tk.MatchStatusType(st % 3)
				return ctx, err
			}
			if flip {
				ctx.MatchStatus = tk.MatchStatus_Unmatched
			}
			if st == errNil {
				ctx.MatchStatus = tk.MatchStatus_Error
			}
			return ctx, nil
		}
	}
	w.supply("properties", props)
	return tk.BaseParser("Custom"+strconv.Itoa(n.I), fn, props, w.kids(n), w.trs(n.T))
}

// lightNode is a user-written parser that takes N bytes (or items).
func (w *World) lightNode(n *Node) tk.ParserFn {
	impl := func(ctx tk.ParserContext) (tk.ParserContext, error) {
		err, flip, st := hit(ctx.Tag, true, capErr|capUnm|capFar|capNil, n.K+strconv.Itoa(n.I), fpCtx(ctx))
		if err != nil {
			ctx.MatchStatus = tk.MatchStatusType(st % 3)
			return ctx, err
		}
		ctx.MatchStatus = tk.MatchStatus_Unmatched
		if flip {
			return ctx, nil
		}
		if st == errNil {
			ctx.MatchStatus = tk.MatchStatus_Error
			return ctx, nil
		}
		e, _ := ctx.Tag.(*Env)
		op := -1
		if e != nil {
			op = e.Op
		}
		text := ""
		if ctx.Slice != nil {
			if ctx.Position+n.N > ctx.Slice.Len() {
				return ctx, nil
			}
		} else {
			if ctx.Position+n.N > len(ctx.Str) {
				return ctx, nil
			}
			text = ctx.Str[ctx.Position : ctx.Position+n.N]
		}
		ctx.AstStack = append(ctx.AstStack, tk.Ast{ClassName: "L" + strconv.Itoa(n.I) + "/op" + strconv.Itoa(op), Type: tk.AstType_String, Value: text, SourcePosition: ctx.SourcePosition})
		ctx.Position += n.N + far(ctx, st)
		ctx.Length = n.N
		ctx.MatchStatus = tk.MatchStatus_Matched
		return ctx, nil
	}
	if n.K == "raw" {
		return impl
	}
	if w.trace != nil {
		impl = w.trace.watch("Light"+strconv.Itoa(n.I), impl)
	}
	return tk.LightBaseParser("Light"+strconv.Itoa(n.I), impl)
}

// far is what to add to the position to get n behind the end.
func far(ctx tk.ParserContext, n int) int {
	if n == 0 {
		return 0
	}
	end := len(ctx.Str)
	if ctx.Slice != nil {
		end = ctx.Slice.Len()
	}
	if ctx.Position < end {
		n += end - ctx.Position
	}
	return n
}

// calc: tokens, then production rules over them.  Node.S lists the operators of each
// precedence level, a leading "<" marks a right-to-left level, a leading "u" a unary
// prefix operator level.
func (w *World) calc(n *Node) tk.ParserFn {
	ops := map[string]bool{}
	for _, lv := range n.S {
		for _, c := range lv {
			if c != '<' && c != 'u' {
				ops[string(c)] = true
			}
		}
	}
	var cls []string
	for _, c := range "+-*/^" {
		if ops[string(c)] {
			cls = append(cls, string(c))
		}
	}
	num := func(a tk.Ast) bool { return a.ClassName == "N" }
	isTok := func(name string, f func(a tk.Ast) bool) tk.ParserFn {
		return tk.Trans(objparser.ObjClassFn(func(c interface{}) bool {
			a, ok := c.(tk.Ast)
			_, flip, _ := hit(nil, false, capUnm, name, func() string { return fp(c, true) })
			return ok && !flip && f(a)
		}), func(ctx tk.ParserContext, asts tk.AstSlice) (tk.AstSlice, error) {
			return tk.AstSlice{asts[0].Value.(tk.Ast)}, nil
		})
	}
	var precs []tk.Precedence
	for li, lv := range n.S {
		rtol, unary := false, false
		set := ""
		for _, c := range lv {
			switch c {
			case '<':
				rtol = true
			case 'u':
				unary = true
			default:
				set += string(c)
			}
		}
		isOp := func(a tk.Ast) bool {
			s, ok := a.Value.(string)
			if !ok || a.ClassName != "O" {
				return false
			}
			for _, c := range set {
				if s == string(c) {
					return true
				}
			}
			return false
		}
		red := func(ctx tk.ParserContext, asts tk.AstSlice) (tk.AstSlice, error) {
			err, _, _ := hit(ctx.Tag, true, capErr, "reduce"+strconv.Itoa(li), func() string { return fmt.Sprintf("pos=%d %s", ctx.Position, fp(asts, true)) })
			if err != nil {
				return nil, err
			}
			s := "("
			for _, a := range asts {
				t, _ := a.Value.(string)
				s += t
			}
			return tk.AstSlice{{ClassName: "N", Type: tk.AstType_String, Value: s + ")"}}, nil
		}
		last := func(ctx tk.ParserContext) (tk.ParserContext, error) {
			err, flip, st := hit(ctx.Tag, true, capErr|capUnm|capFar, "last"+strconv.Itoa(li), fpCtx(ctx))
			ctx.MatchStatus = tk.MatchStatus_Matched
			if flip {
				ctx.MatchStatus = tk.MatchStatus_Unmatched
			}
			if err != nil {
				ctx.MatchStatus = tk.MatchStatusType(st % 3)
				return ctx, err
			}
			ctx.Position += far(ctx, st)
			return ctx, nil
		}
		var rule tk.ParserFn
		if unary {
			rule = tk.Trans(tk.FlatGroup(isTok("op", isOp), isTok("num", num), last), red)
		} else {
			rule = tk.Trans(tk.FlatGroup(isTok("num", num), isTok("op", isOp), isTok("num", num), last), red)
		}
		rules := []tk.ParserFn{rule}
		if n.F > 0 {
			a := func() tk.ParserFn { return objparser.Any() }
			d := w.doomOf(n.F-1, []tk.ParserFn{tk.Trans(tk.FlatGroup(a(), a()), tk.Erase), tk.ZeroOrOnce(a()), tk.Zero(token(3, "d"))})
			rules = []tk.ParserFn{d, rule, d}
		}
		if n.M > 0 {
			// a bare function of the caller as the first or the last rule
			own := func(ctx tk.ParserContext) (tk.ParserContext, error) {
				err, _, st := hit(ctx.Tag, true, capErr, "own"+strconv.Itoa(li), fpCtx(ctx))
				ctx.MatchStatus = tk.MatchStatus_Unmatched
				if err != nil {
					ctx.MatchStatus = tk.MatchStatusType(st % 3)
				}
				return ctx, err
			}
			if n.M%2 == 1 {
				rules = append([]tk.ParserFn{own}, rules...)
			} else {
				rules = append(rules, own)
			}
		}
		precs = append(precs, tk.Precedence{Rules: rules, Rtol: rtol})
	}
	w.supply("precedences", precs)
	return tk.Trans(
		tk.OneOrMoreTimes(tk.First(
			tk.Trans(sp.Number(), tk.ChangeClassName("N")),
			tk.Trans(sp.CharClass(cls...), tk.ChangeClassName("O")),
		)),
		tk.ProductionRule(precs, tk.FlatGroup(tk.Start(), objparser.Any(), objparser.End())),
	)
}

// ---- validity ---------------------------------------------------------------------

var consuming = map[string]bool{"doom": true, "any": true, "range": true, "rangen": true, "classfn": true, "ws": true, "wsn": true, "lbr": true,
	"alpha": true, "num": true, "alnum": true, "bin": true, "oct": true, "hex": true, "binstr": true, "octstr": true, "hexstr": true, "intstr": true,
	"floatstr": true, "numstr": true, "ident": true, "uident": true, "date": true, "datetime": true, "time": true, "calc": true,
	"oany": true, "oclass": true, "oclassn": true, "oclassfn": true, "classn": true}

// consumes: whenever n matches it has consumed something.
func consumes(n *Node) bool {
	if consuming[n.K] && !(n.K == "doom" && n.F%5 == 4) {
		return true
	}
	anyc := false
	for _, c := range n.C {
		anyc = anyc || consumes(c)
	}
	switch n.K {
	case "seq", "seqi":
		return len(n.S[0]) > 0
	case "class":
		for _, s := range n.S {
			if s == "" {
				return false
			}
		}
		return true
	case "oseq":
		return len(n.O) > 0
	case "light", "raw":
		return n.N > 0
	case "flat", "group", "plus", "once", "trace", "dtrace":
		return anyc
	case "trans":
		return anyc
	case "first":
		for _, c := range n.C {
			if !consumes(c) {
				return false
			}
		}
		return len(n.C) > 0
	case "rep":
		return n.N >= 1 && anyc
	case "if":
		return consumes(n.C[n.N&1])
	case "base":
		if n.F&(fNegative|fRewind) != 0 {
			return false
		}
		if n.F&fTimes != 0 && n.N < 1 {
			return false
		}
		if n.F&fThereExists != 0 {
			for _, c := range n.C {
				if !consumes(c) {
					return false
				}
			}
			return len(n.C) > 0
		}
		return anyc
	}
	return false
}

var errInvalid = errors.New("invalid grammar")

// left collects the rules that n can reach without consuming anything.
func left(n *Node, out map[int]bool) {
	switch n.K {
	case "ind":
		out[n.I] = true
	case "first":
		for _, c := range n.C {
			left(c, out)
		}
	case "if":
		left(n.C[0], out)
		left(n.C[1], out)
	case "base":
		if n.F&fThereExists != 0 {
			for _, c := range n.C {
				left(c, out)
			}
			return
		}
		fallthrough
	default:
		for _, c := range n.C {
			left(c, out)
			if consumes(c) {
				break
			}
		}
	}
}

func hasKind(n *Node, k string) bool {
	if n.K == k {
		return true
	}
	for _, c := range n.C {
		if hasKind(c, k) {
			return true
		}
	}
	return false
}

var leafArgs = map[string]int{"seq": 1, "seqi": 1, "err": 1, "trace": 1, "dtrace": 1}
var arity = map[string]int{"flat": 1, "group": 1, "first": 1, "la": 1, "lan": 1, "lb": 1, "lbn": 1, "rep": 1, "once": 1, "opt": 1, "star": 1, "plus": 1, "trans": 1, "if": 2, "base": 1, "trace": 1, "dtrace": 1, "doom": 1}
var objKinds = map[string]bool{"oany": true, "oend": true, "oseq": true, "oclass": true, "oclassn": true, "oclassfn": true}
var neutral = map[string]bool{"flat": true, "group": true, "first": true, "la": true, "lan": true, "lb": true, "lbn": true, "rep": true, "once": true, "opt": true, "star": true, "plus": true, "trans": true, "if": true, "base": true, "err": true, "unm": true, "start": true, "zero": true, "ind": true, "match": true, "light": true, "raw": true, "leaf": true, "trace": true, "dtrace": true, "doom": true}

func (g *Gram) checkNode(n *Node, inLB bool) bool {
	if n == nil {
		return false
	}
	if leafArgs[n.K] > len(n.S) || arity[n.K] > len(n.C) {
		return false
	}
	if g.Both && !neutral[n.K] || g.Obj && !neutral[n.K] && !objKinds[n.K] {
		return false
	}
	if !g.Obj && !g.Both && objKinds[n.K] {
		return false
	}
	switch n.K {
	case "star", "plus":
		c := false
		for _, x := range n.C {
			c = c || consumes(x)
		}
		if !c {
			return false
		}
	case "rep", "base":
		if n.K == "base" && n.F&fTimes == 0 {
			break
		}
		if n.M < 0 {
			c := false
			for _, x := range n.C {
				c = c || consumes(x)
			}
			if n.K == "base" && n.F&fThereExists != 0 {
				c = true
				for _, x := range n.C {
					c = c && consumes(x)
				}
			}
			if !c {
				return false
			}
		}
		if n.M > 100 || n.N < 0 || n.N > 100 {
			return false
		}
	case "lb", "lbn":
		if n.N < 0 || n.M > 100 {
			return false
		}
		inLB = true
	case "ind":
		if inLB || n.I < 0 || n.I >= len(g.Rules) {
			return false
		}
	case "classfn", "oclassfn":
		if n.N < 0 {
			return false
		}
	case "light", "raw":
		if n.N < 0 || n.N > 8 {
			return false
		}
	case "match":
		if n.N < 0 || n.N > 10 {
			return false
		}
	case "calc":
		if len(n.S) == 0 {
			return false
		}
		seen := false
		for _, lv := range n.S {
			for _, c := range lv {
				if c != '<' && c != 'u' {
					seen = true
				}
			}
		}
		if !seen {
			return false
		}
	}
	for _, c := range n.C {
		if !g.checkNode(c, inLB) {
			return false
		}
	}
	return true
}

func (g *Gram) valid() bool {
	if len(g.Rules) == 0 {
		return false
	}
	for _, n := range g.Rules {
		if !g.checkNode(n, false) {
			return false
		}
	}
	// left recursion
	l := make([]map[int]bool, len(g.Rules))
	for i, n := range g.Rules {
		l[i] = map[int]bool{}
		left(n, l[i])
	}
	state := make([]int, len(g.Rules))
	var cyc func(i int) bool
	cyc = func(i int) bool {
		if state[i] == 1 {
			return true
		}
		if state[i] == 2 {
			return false
		}
		state[i] = 1
		for j := range l[i] {
			if cyc(j) {
				return true
			}
		}
		state[i] = 2
		return false
	}
	for i := range g.Rules {
		if cyc(i) {
			return false
		}
	}
	return true
}
