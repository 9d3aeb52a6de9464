package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	tk "github.com/shellyln/takenoco/base"
	clsz "github.com/shellyln/takenoco/base/classes"
	objparser "github.com/shellyln/takenoco/object"
	strparser "github.com/shellyln/takenoco/string"
	"verif.local/vsim"
)

// Fault: at the At'th callback of an operation something goes wrong.
//
//	err    the callback returns an error      (arg N: status it leaves in the context)
//	panic  the callback panics
//	unm    the callback answers "no match"
//	exit   the goroutine exits (runtime.Goexit)
//	stall  the goroutine is suspended for N simulated ns
//	hang   the goroutine is suspended until nothing else can run
//	far    the callback (a parser) matches and leaves its position behind the end
//	reent  the callback parses another text with the same parser
//	errnil the callback (a parser) reports the error status without an error
type Fault struct {
	At int    `json:"at"`
	K  string `json:"f"`
	N  int64  `json:"n,omitempty"`
	V  int    `json:"v,omitempty"` // which error or panic value
}

type InjErr struct{ Op, At int }

func (e *InjErr) Error() string {
	if e == nil {
		return "injected error without a value"
	}
	return fmt.Sprintf("injected error op%d@%d", e.Op, e.At)
}

// InjErrs cannot be compared.
type InjErrs []string

func (e InjErrs) Error() string { return "injected errors " + strings.Join(e, ",") }

// InjErrV is equal to others of the same place.
type InjErrV struct{ Op, At int }

func (e InjErrV) Error() string { return fmt.Sprintf("injected error value op%d@%d", e.Op, e.At) }

var runtimeErr = func() (err error) {
	defer func() { err = recover().(error) }()
	var m map[string]int
	m["x"] = 1
	return nil
}()

const errKinds = 10

// injErr makes the v'th kind of error.
func injErr(v, op, at int) error {
	switch v {
	case 1:
		return io.EOF
	case 2:
		return fmt.Errorf("injected op%d@%d: %w", op, at, io.EOF)
	case 3:
		return errors.New("")
	case 4:
		return InjErrs{fmt.Sprintf("op%d@%d", op, at)}
	case 5:
		return (*InjErr)(nil)
	case 6:
		return InjErrV{op, at}
	case 7:
		return runtimeErr
	case 8:
		return pickErr[at%len(pickErr)]
	case 9:
		return errors.New("Production rules are not matched.")
	}
	return &InjErr{op, at}
}

var pickErr = []error{context.Canceled, context.DeadlineExceeded, io.ErrUnexpectedEOF, strconv.ErrSyntax, strconv.ErrRange, os.ErrNotExist}

const panKinds = 10

// injPanic makes the v'th kind of panic value.
func injPanic(v, op, at int) interface{} {
	switch v {
	case 1:
		return fmt.Sprintf("panic op%d@%d", op, at)
	case 2:
		return at
	case 3:
		return injErr(at%errKinds, op, at)
	case 4:
		return false
	case 5:
		return ""
	case 6:
		return struct{}{}
	case 7:
		return map[string]int{"op": op, "at": at}
	case 8:
		return runtimeErr
	case 9:
		return tk.MatchStatus_Unmatched
	}
	return &InjPanic{op, at}
}

// same: the very same value.
func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

type InjPanic struct{ Op, At int }

// Env is the environment of one operation; it is also the user tag of its contexts.
type Env struct {
	Op         int
	W          *World
	Log        []string
	N          int
	Faults     []Fault
	Fired      []Fault
	Err        error
	Pan        interface{}
	PanAt      int
	Ended      bool
	Late       []string
	Bad        string
	Build      string // builder fault that hit this operation
	BuildPanic interface{}
	nest       int
	mute       int // >0: callbacks are not logged
	libErr     error
	ev         []traceEvent // open trace events
	evN        int
	evBad      string
	evDone     bool
	lastCtx    tk.ParserContext
	lastErr    error
	wantExit   *wantExit
}

type TaskData struct{ envs []*Env }

func curEnv() *Env {
	t := vsim.Cur()
	if t == nil {
		return nil
	}
	td, _ := t.Data.(*TaskData)
	if td == nil || len(td.envs) == 0 {
		return nil
	}
	return td.envs[len(td.envs)-1]
}

const (
	capErr = 1 << iota
	capUnm
	capFar
	capNil
)

var faultKinds = []string{"err", "panic", "unm", "exit", "stall", "hang", "reent", "builder-panic", "builder-exit", "builder-stall", "builder-hang", "builder-parse", "throw", "both",
	"cut", "over", "lose", "rep", "ins", "swap", "zero", "torn", "flip",
	"wrong-type", "nil-map", "unsettable", "far", "errnil"}

var faultN [32]int64

// fired counts a fault; no map, so that the race detector stays out of it.
func fired(k string) {
	for i, f := range faultKinds {
		if f == k {
			faultN[i]++
			return
		}
	}
	panic("fault kind " + k)
}

func faultFired() map[string]int64 {
	m := map[string]int64{}
	for i, f := range faultKinds {
		if faultN[i] > 0 {
			m[f] = faultN[i]
		}
	}
	return m
}

// errNil as the third result of hit: error status, no error.
const errNil = 1 << 20

// hit is called at the start of every user callback.  It returns an error or
// flip=true if the callback is to fail in that way; without an error, st is how far a
// parser is to leave its position behind the end.
func hit(tag interface{}, hasTag bool, caps int, what string, args func() string) (err error, flip bool, st int) {
	e := curEnv()
	if e == nil {
		return nil, false, 0
	}
	if hasTag {
		if te, ok := tag.(*Env); !ok || te != e {
			if e.Bad == "" {
				if ok {
					e.Bad = fmt.Sprintf("%s of op%d received the user tag of op%d", what, e.Op, te.Op)
				} else {
					e.Bad = fmt.Sprintf("%s of op%d received a foreign user tag %T", what, e.Op, tag)
				}
			}
		}
	}
	if e.Ended && len(e.Late) < 4 {
		e.Late = append(e.Late, what)
	}
	i := e.N
	e.N++
	if e.mute == 0 {
		a := ""
		if args != nil {
			a = args()
		}
		e.Log = append(e.Log, what+" "+a)
	}
	vsim.Y(-3)
	for _, f := range e.Faults {
		if f.At != i {
			continue
		}
		switch f.K {
		case "err":
			if caps&capErr == 0 {
				continue
			}
			e.fire(f)
			e.Ended = true
			e.Err = injErr(f.V, e.Op, i)
			return e.Err, false, int(f.N)
		case "panic":
			e.fire(f)
			e.Ended = true
			e.Pan, e.PanAt = injPanic(f.V, e.Op, i), i
			panic(e.Pan)
		case "unm":
			if caps&capUnm == 0 {
				continue
			}
			e.fire(f)
			return nil, true, 0
		case "far":
			if caps&capFar == 0 {
				continue
			}
			e.fire(f)
			st = 1 + int(f.N)
		case "errnil":
			if caps&capNil == 0 {
				continue
			}
			e.fire(f)
			st = errNil
		case "exit":
			e.fire(f)
			e.Ended = true
			runtime.Goexit()
		case "stall":
			e.fire(f)
			vsim.Stall(f.N)
		case "hang":
			e.fire(f)
			vsim.Stall(-1)
		case "reent":
			if e.nest > 0 || e.W == nil || e.W.reent == nil {
				continue
			}
			e.fire(f)
			e.Log = append(e.Log, "reent "+e.W.reent(e, f.N))
		}
	}
	return nil, false, st
}

func (e *Env) fire(f Fault) {
	e.Fired = append(e.Fired, f)
	fired(f.K)
}

// ---- fingerprints ----------------------------------------------------------------

func fpAst(sb *strings.Builder, a tk.Ast, pos bool, depth int) {
	fmt.Fprintf(sb, "{%d %s %d ", a.OpCode, a.ClassName, a.Type)
	fpVal(sb, a.Value, pos, depth+1)
	if a.Address != nil {
		sb.WriteString(" addr")
	}
	if pos {
		fmt.Fprintf(sb, " @%d+%d", a.Position, a.Length)
	}
	sb.WriteString("}")
}

func fpVal(sb *strings.Builder, v interface{}, pos bool, depth int) {
	if depth > 1500 || sb.Len() > 16<<20 { // (a list that contains itself has no end)
		sb.WriteString("<deep>")
		return
	}
	switch x := v.(type) {
	case nil:
		sb.WriteString("nil")
	case string:
		fmt.Fprintf(sb, "%q", x)
	case tk.AstSlice:
		sb.WriteString("[")
		for _, a := range x {
			fpAst(sb, a, pos, depth)
		}
		sb.WriteString("]")
	case tk.Ast:
		fpAst(sb, x, pos, depth)
	case tk.AstCons:
		sb.WriteString("(")
		fpAst(sb, x.Car, pos, depth)
		sb.WriteString(".")
		fpAst(sb, x.Cdr, pos, depth)
		sb.WriteString(")")
	case *simSlice:
		fmt.Fprintf(sb, "S%d,%d%v", x.kind, x.item, x.data)
	case *scSlice:
		sb.WriteString("S[")
		for _, y := range x.v {
			fpVal(sb, y, pos, depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case *Env:
		fmt.Fprintf(sb, "env%d", x.Op)
	case error:
		sb.WriteString("err:" + x.Error())
	default:
		rv := reflect.ValueOf(v)
		switch rv.Kind() {
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(sb, "%T[", v)
			for i := 0; i < rv.Len(); i++ {
				fpVal(sb, rv.Index(i).Interface(), pos, depth+1)
				sb.WriteString(",")
			}
			sb.WriteString("]")
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			fmt.Fprintf(sb, "%T", v)
		case reflect.Ptr:
			if rv.IsNil() {
				fmt.Fprintf(sb, "%T(nil)", v)
			} else if rv.Elem().CanInterface() {
				sb.WriteString("&")
				fpVal(sb, rv.Elem().Interface(), pos, depth+1)
			}
		default:
			fmt.Fprintf(sb, "%T(%v)", v, v)
		}
	}
}

func fp(v interface{}, pos bool) string {
	var sb strings.Builder
	fpVal(&sb, v, pos, 0)
	return sb.String()
}

func fpStack(s tk.AstSlice) string {
	if len(s) > 60 {
		return fmt.Sprintf("%d tokens ...%s", len(s), fp(s[len(s)-3:], true))
	}
	return fp(s, true)
}

func fpCtx(ctx tk.ParserContext) func() string {
	return func() string { return fmt.Sprintf("pos=%d %s", ctx.Position, fpStack(ctx.AstStack)) }
}

// ---- operations ------------------------------------------------------------------

type Op struct {
	Task   int      `json:"t,omitempty"`
	K      string   `json:"op"`
	Src    string   `json:"src,omitempty"`
	Obj    []int    `json:"obj,omitempty"`
	Sl     bool     `json:"sl,omitempty"`  // a grammar for both kinds: over Obj, not Src
	Cap    int      `json:"cap,omitempty"` // capacity of the token list; -1: library constructor
	Pre    int      `json:"pre,omitempty"` // tokens already on the list
	Faults []Fault  `json:"faults,omitempty"`
	Recs   []csvRec `json:"recs,omitempty"`
	Cols   []string `json:"cols,omitempty"`
	Ref    int      `json:"ref,omitempty"` // which held result
	N      int      `json:"n,omitempty"`
	T      []Tr     `json:"tr,omitempty"`
	Own    bool     `json:"own,omitempty"` // the caller overwrites the result at once
}

// overwrite is what a caller may do with a result that is his.
func overwrite(v interface{}) {
	switch x := v.(type) {
	case tk.AstSlice:
		if len(x) > 0 && x[0].ClassName == "in" {
			return // a list the grammar was given (SetValue)
		}
		x = x[:cap(x)]
		for i := range x {
			if x[i].ClassName == clsz.Group && x[i].Type == tk.AstType_ListOfAst {
				overwrite(x[i].Value)
			}
			x[i] = tk.Ast{OpCode: 6666, ClassName: "overwritten", Type: tk.AstType_Int, Value: int64(i)}
			x[i].Position = -5
		}
	case [][]string:
		x = x[:cap(x)]
		for i := range x {
			overwrite(x[i])
			x[i] = []string{"overwritten"}
		}
	case []string:
		x = x[:cap(x)]
		for i := range x {
			x[i] = "overwritten"
		}
	case []interface{}:
		x = x[:cap(x)]
		for i := range x {
			x[i] = "overwritten"
		}
	}
}

// Held is a result the caller keeps.
type Held struct {
	by   string
	asts tk.AstSlice
	v    interface{}
	fp   string
}

func (w *World) hold(by string, asts tk.AstSlice, v interface{}) {
	h := &Held{by: by, asts: asts, v: v}
	h.fp = h.print()
	w.held = append(w.held, h)
}

func (h *Held) print() string { return fp(h.asts, true) + " " + fp(h.v, true) }

func (w *World) heldCheck() string {
	for i, h := range w.held {
		if f := h.print(); f != h.fp {
			return fmt.Sprintf("result %d (%s) was %s and is now %s", i, h.by, clip(h.fp, 400), clip(f, 400))
		}
	}
	return ""
}

func (w *World) heldAsts(i int) tk.AstSlice {
	if len(w.held) == 0 {
		return nil
	}
	if i < 0 {
		i = -i
	}
	return w.held[i%len(w.held)].asts
}

// keep records the result of an operation.
func (w *World) keep(by string, o *Outcome, asts tk.AstSlice, v interface{}) {
	if w.holding {
		w.hold(by, asts, v)
	}
}

type csvRec struct {
	Foo string `csv:"Foo"`
	Bar string
	Baz int `csv:"Baz"`
	U   uint16
	F   float64 `csv:"F"`
}

type Outcome struct {
	Kind   string // ok, err, panic, exit
	Status int
	Pos    int
	Len    int
	Qty    int
	Class  string
	Stack  string
	Err    string
	Panic  string
	Val    string

	ctx   tk.ParserContext
	err   error
	pv    interface{}
	val   interface{}
	Env   *Env
	Steps int64
	quiet bool
}

func (o *Outcome) key() string {
	return fmt.Sprintf("%s status=%d pos=%d len=%d qty=%d class=%s err=%q panic=%q val=%s stack=%s", o.Kind, o.Status, o.Pos, o.Len, o.Qty, o.Class, o.Err, o.Panic, o.Val, o.Stack)
}

func hasExit(fs []Fault) bool {
	for _, f := range fs {
		if f.K == "exit" {
			return true
		}
	}
	return false
}

func panicText(r interface{}) string {
	switch x := r.(type) {
	case *InjPanic:
		return fmt.Sprintf("injected panic op%d@%d", x.Op, x.At)
	case *BuildPanic:
		return fmt.Sprintf("injected panic in builder of rule %d attempt %d", x.Rule, x.At)
	case error:
		return "error:" + x.Error()
	}
	return fmt.Sprintf("%T:%v", r, r)
}

// inEnv runs body as an operation of the current task and records how it ended.
func inEnv(e *Env, child bool, body func(o *Outcome)) *Outcome {
	o := &Outcome{Kind: "exit", Env: e}
	if e.W != nil && e.W.quiet {
		o.quiet = true
		e.mute = 1
	}
	t := vsim.Cur()
	td := t.Data.(*TaskData)
	td.envs = append(td.envs, e)
	s0 := t.Steps
	run := func() {
		t1 := vsim.Cur()
		b := int64(0)
		if t1 == t {
			b = s0
		}
		defer func() {
			o.Steps = t1.Steps - b
			if r := recover(); r != nil {
				o.Kind, o.pv = "panic", r
				if !o.quiet {
					o.Panic = panicText(r)
				}
			}
		}()
		body(o)
	}
	if child {
		vsim.Child(run)
	} else {
		run()
	}
	td.envs = td.envs[:len(td.envs)-1]
	return o
}

func (o *Outcome) setCtx(ctx tk.ParserContext, err error) {
	o.ctx, o.err = ctx, err
	o.Kind = "ok"
	if err != nil {
		o.Kind = "err"
		if o.quiet {
			return
		}
		o.Err = err.Error()
	}
	o.Status, o.Pos, o.Len, o.Qty, o.Class = int(ctx.MatchStatus), ctx.Position, ctx.Length, ctx.Quantity, ctx.ClassName
	if !o.quiet {
		o.Stack = fp(ctx.AstStack, true)
	}
}

func (o *Outcome) setVal(v interface{}, err error) {
	o.val, o.err = v, err
	o.Kind = "ok"
	if err != nil {
		o.Kind = "err"
		if !o.quiet {
			o.Err = err.Error()
		}
	}
	if !o.quiet {
		o.Val = fp(v, true)
	}
}

var preTokens = tk.AstSlice{
	{OpCode: 9001, ClassName: "pre", Type: tk.AstType_String, Value: "p0"},
	{OpCode: 9002, ClassName: "pre", Type: tk.AstType_Int, Value: int64(7)},
	{OpCode: 9003, ClassName: "pre", Type: tk.AstType_String, Value: "p2"},
}

func (w *World) newCtx(op *Op, tag interface{}) tk.ParserContext {
	var ctx tk.ParserContext
	if w.G.Obj || w.G.Both && op.Sl {
		sl := &simSlice{data: append([]int(nil), op.Obj...), mod: w.G.Mod, kind: len(op.Obj) % 2, item: w.G.Item}
		if op.Cap < 0 {
			ctx = *objparser.NewObjectParserContextWithTag(sl, tag)
		} else {
			ctx = tk.ParserContext{Slice: sl, AstStack: make(tk.AstSlice, 0, op.Cap), Tag: tag}
		}
		w.supply("source slice", sl)
	} else if op.Cap < 0 {
		ctx = *strparser.NewStringParserContextWithTag(op.Src, tag)
	} else {
		ctx = tk.ParserContext{Str: op.Src, AstStack: make(tk.AstSlice, 0, op.Cap), Tag: tag}
	}
	for i := 0; i < op.Pre && i < len(preTokens); i++ {
		ctx.AstStack = append(ctx.AstStack, preTokens[i])
	}
	return ctx
}

// do runs one operation in the current task.
func (w *World) do(i int, op *Op) *Outcome {
	e := &Env{Op: i, W: w, Faults: op.Faults}
	child := hasExit(op.Faults) || w.childOps
	switch op.K {
	case "parse":
		return inEnv(e, child, func(o *Outcome) {
			ctx := w.newCtx(op, e)
			out, err := w.root(ctx)
			o.setCtx(out, err)
			w.keep("parse", o, out.AstStack, nil)
			if op.Own {
				overwrite(out.AstStack)
			}
		})
	case "build":
		return inEnv(e, child, func(o *Outcome) {
			w2 := newWorld(w.G)
			w2.quiet = w.quiet
			p := w2.build(w.G.Rules[0])
			out, err := p(w2.newCtx(op, e))
			o.setCtx(out, err)
		})
	case "csv":
		return inEnv(e, child, func(o *Outcome) {
			v, err := csv.Parse(op.Src)
			o.setVal(v, err)
			w.keep("csv.Parse", o, nil, v)
			if op.Own {
				overwrite(v)
			}
		})
	case "formula":
		return inEnv(e, child, func(o *Outcome) {
			v, err := formula.Parse(op.Src)
			o.setVal(v, err)
			w.keep("formula.Parse", o, nil, v)
		})
	case "torpn":
		return inEnv(e, child, func(o *Outcome) {
			v, err := torpn.Parse(op.Src)
			o.setVal(v, err)
			w.keep("torpn.Parse", o, nil, v)
			if op.Own {
				overwrite(v)
			}
		})
	case "tocsv":
		return inEnv(e, child, func(o *Outcome) {
			var rows [][]string
			for _, r := range op.Recs {
				rows = append(rows, []string{r.Foo, r.Bar})
			}
			if !w.quiet {
				w.supply("ToCsv records", rows)
			}
			o.setVal(csv.ToCsv(rows), nil)
		})
	case "marshal":
		return inEnv(e, child, func(o *Outcome) {
			recs := append([]csvRec(nil), op.Recs...)
			cols := append([]string(nil), op.Cols...)
			if !w.quiet {
				w.supply("Marshal records", recs)
				w.supply("Marshal columns", cols)
			}
			v, err := csv.Marshal(cols, recs)
			o.setVal(v, err)
		})
	case "unmarshal":
		return inEnv(e, child, func(o *Outcome) {
			var dst []csvRec
			err := csv.Unmarshal(&dst, op.Src)
			o.setVal(dst, err)
			w.keep("csv.Unmarshal", o, nil, dst)
		})
	case "trav":
		tree := tk.Ast{ClassName: "root", Type: tk.AstType_ListOfAst, Value: w.heldAsts(op.Ref)}
		return inEnv(e, child, func(o *Outcome) {
			out, thrown, err := w.traverse(e, tree, op.N)
			o.setVal([]interface{}{out, thrown}, err)
			w.keep("Traverse", o, tk.AstSlice{out}, nil)
		})
	case "tree":
		return inEnv(e, child, func(o *Outcome) {
			asts := richTree(op.N)
			o.setVal(asts, nil)
			w.keep("caller's tree", o, asts, nil)
		})
	case "prod":
		asts := w.heldAsts(op.Ref)
		return inEnv(e, child, func(o *Outcome) {
			ctx := tk.ParserContext{Tag: e}
			out, err := w.folds[op.N%len(w.folds)](ctx, asts)
			o.setVal(out, err)
			w.keep("ProductionRule", o, out, nil)
		})
	case "oparse":
		asts := w.heldAsts(op.Ref)
		return inEnv(e, child, func(o *Outcome) {
			p := tk.ZeroOrMoreTimes(tk.FlatGroup(objparser.Any()))
			if len(asts) > 0 {
				p = tk.ZeroOrMoreTimes(tk.First(tk.Trans(objparser.Seq(asts[op.N%len(asts)]), tk.ChangeClassName("same")), tk.Trans(objparser.Any(), tk.ToSlice)))
			}
			ctx := tk.ParserContext{Slice: asts, Tag: e}
			out, err := p(ctx)
			o.setCtx(out, err)
			w.keep("object parse", o, out.AstStack, nil)
		})
	case "zero":
		asts := w.heldAsts(op.Ref)
		return inEnv(e, child, func(o *Outcome) {
			tr := w.trs(op.T)
			p := tk.FlatGroup(tk.Zero(asts...), tk.Trans(tk.Zero(asts...), tr...), tk.ZeroOrOnce(tk.Zero(asts...), tk.Unmatched()))
			ctx := tk.ParserContext{Str: "", Tag: e}
			out, err := p(ctx)
			o.setCtx(out, err)
			w.keep("parse with Zero", o, out.AstStack, nil)
		})
	}
	panic("bad op " + op.K)
}

// traverse walks a tree with callbacks that relabel, skip, replace and fail.
func (w *World) traverse(e *Env, tree tk.Ast, n int) (tk.Ast, interface{}, error) {
	out, _, _, thrown, err := tree.Traverse(
		func(ctx interface{}, a tk.Ast) (tk.Ast, tk.WayThereMode, error) {
			err, flip, _ := hit(ctx, true, capErr|capUnm, "there", func() string { return fp(a, true) })
			mode := tk.WayThereMode_None
			if flip {
				mode = tk.WayThereMode_Lazy
			} else if a.Position%5 == n%5 && n%3 == 0 {
				mode = tk.WayThereMode_Last
			}
			a.OpCode++
			if mode == tk.WayThereMode_Lazy {
				a.OpCode = 987654 // its list is still the source's
			}
			return a, mode, err
		},
		func(ctx interface{}, a tk.Ast) (tk.Ast, int16, tk.TraverseOpcode, interface{}, error) {
			err, flip, _ := hit(ctx, true, capErr|capUnm, "back", func() string { return fp(a, true) })
			a.ClassName += "*"
			if s, ok := a.Value.(string); ok {
				a.Value = s + "'"
			}
			if l, ok := a.Value.(tk.AstSlice); ok && n%2 == 0 && a.OpCode != 987654 && a.Type == tk.AstType_ListOfAst {
				for i := range l {
					l[i].ClassName += "+" // the list of the returned tree belongs to the caller
				}
			}
			if flip {
				return a, 0, 0, "thrown", nil
			}
			return a, 0, tk.TraverseOpcode_Nop, nil, err
		},
		func(ctx interface{}, a, c tk.Ast, thrown interface{}, err error) {
			hit(ctx, true, 0, "childerr", func() string { return fp(a, true) })
		}, e)
	return out, thrown, err
}

// foldRule reduces neighbouring tokens, two at a time, until one is left; n>=2: after some
// of them have been replaced by up to five others.
func foldRule(n int) tk.TransformerFn {
	two := tk.Trans(tk.FlatGroup(objparser.Any(), objparser.Any()), func(ctx tk.ParserContext, asts tk.AstSlice) (tk.AstSlice, error) {
		err, _, _ := hit(ctx.Tag, true, capErr, "fold", func() string { return fp(asts, true) })
		if err != nil {
			return nil, err
		}
		return tk.AstSlice{{ClassName: "pair", Type: tk.AstType_ListOfAst, Value: tk.AstSlice{asts[0].Value.(tk.Ast), asts[1].Value.(tk.Ast)}}}, nil
	})
	grow := tk.Trans(objparser.ObjClassFn(func(c interface{}) bool {
		a, ok := c.(tk.Ast)
		return ok && a.ClassName != "grown" && a.ClassName != "pair"
	}), func(ctx tk.ParserContext, asts tk.AstSlice) (tk.AstSlice, error) {
		err, _, _ := hit(ctx.Tag, true, capErr, "grow", func() string { return fp(asts, true) })
		if err != nil {
			return nil, err
		}
		a := asts[0].Value.(tk.Ast)
		a.ClassName = "grown"
		var z tk.AstSlice
		for i := (ctx.Position + len(asts)) % 5; i >= 0; i-- {
			z = append(z, a)
		}
		return z, nil
	})
	precs := []tk.Precedence{{Rules: []tk.ParserFn{two}, Rtol: n%2 == 1}}
	if n >= 2 {
		precs = append([]tk.Precedence{{Rules: []tk.ParserFn{grow}, Rtol: n%4 == 2}}, precs...)
	}
	return tk.ProductionRule(precs, tk.FlatGroup(tk.Start(), tk.ZeroOrOnce(objparser.Any()), objparser.End()))
}

// richTree is a token list of the caller's with all sorts of values.
func richTree(n int) tk.AstSlice {
	x := uint32(n)*2654435761 + 12345
	rnd := func(k int) int {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		return int(x>>8) % k
	}
	pos := 0
	var node func(d int) tk.Ast
	list := func(d int) tk.AstSlice {
		z := make(tk.AstSlice, 0, 4)
		for i := rnd(4); i > 0; i-- {
			z = append(z, node(d-1))
		}
		return z
	}
	node = func(d int) tk.Ast {
		pos++
		a := tk.Ast{OpCode: tk.AstOpCodeType(rnd(9)), ClassName: []string{"", "x", "y", "z"}[rnd(4)], SourcePosition: tk.SourcePosition{Position: pos, Length: 1}}
		k := rnd(9)
		if d <= 0 && k > 5 {
			k = 0
		}
		if k == 0 && rnd(3) == 0 {
			return tk.Ast{}
		}
		switch k {
		case 0, 1:
			a.Type = []tk.AstType{tk.AstType_Any, tk.AstType_Nil, tk.AstType_String}[rnd(3)]
		case 2:
			a.Type, a.Value = tk.AstType_String, []string{"", "s", "t"}[rnd(3)]
		case 3:
			a.Type, a.Value = tk.AstType_Int, int64(rnd(5))
		case 4:
			a.Type, a.Value = tk.AstType_Any, []int{1, rnd(3)}
		case 5:
			a.Type, a.Value = tk.AstType_Bool, rnd(2) == 0
		case 6:
			a.Type, a.Value = tk.AstType_AstCons, tk.AstCons{Car: node(d - 1), Cdr: node(d - 1)}
		default:
			a.Type, a.Value = tk.AstType_ListOfAst, list(d)
		}
		return a
	}
	z := list(4)
	return append(z, node(3), node(2))
}

func tasksOf(ops []Op) int {
	n := 0
	for _, o := range ops {
		if o.Task+1 > n {
			n = o.Task + 1
		}
	}
	return n
}

// runAll executes the operations, each task its own in order, in one simulated run.
func (w *World) runAll(ops []Op, cfg vsim.Config) ([]*Outcome, *vsim.Sim) {
	outs := make([]*Outcome, len(ops))
	n := tasksOf(ops)
	var fns []func()
	var data []interface{}
	for t := 0; t < n; t++ {
		t := t
		data = append(data, &TaskData{})
		fns = append(fns, func() {
			for i := range ops {
				if ops[i].Task == t {
					outs[i] = w.do(i, &ops[i])
				}
			}
		})
	}
	s := vsim.Run(cfg, data, fns)
	return outs, s
}

// solo runs f as the only task of a simulated run.
func solo(max int64, f func()) *vsim.Sim {
	return vsim.Run(vsim.Config{Seed: 1, Policy: vsim.Policy{Kind: "seq"}, MaxSteps: max}, []interface{}{&TaskData{}}, []func(){f})
}

// trouble reports ends of a run that no property allows.
func trouble(s *vsim.Sim) *Violation {
	if s.Deadlock != "" {
		return viol("deadlock", "no goroutine can make progress: %s", s.Deadlock)
	}
	if s.Capped {
		return viol("no-progress", "the run did not end within %d steps", s.Steps)
	}
	for _, t := range s.Tasks() {
		if t.Panicked {
			return viol("uncaught-panic", "goroutine %d (started by the library: %v) died: %s", t.ID, t.Spawned, panicText(t.Panic))
		}
	}
	return nil
}

func sortedCopy(xs []string) []string {
	ys := append([]string(nil), xs...)
	sort.Strings(ys)
	return ys
}
