package main

import (
	"fmt"

	tk "github.com/shellyln/takenoco/base"
)

// traceScopes builds traced parsers and checks the events of every parse.
type traceScopes struct {
	cur    string // scope under construction, "" if none
	who    int    // tracer in force
	n      int    // tracers made
	total  int    // events seen
	on     bool
	strays string
}

type traceEvent struct {
	who   int
	scope string
	no    int
	class string
}

func (e traceEvent) String() string { return fmt.Sprintf("%s#%d %s", e.scope, e.no, e.class) }

type tracerObj struct {
	t     *traceScopes
	who   int
	scope string // the scope all its events must have
}

func (o *tracerObj) env(ctx *tk.ParserContext) *Env {
	o.t.total++
	te, _ := ctx.Tag.(*Env)
	e := curEnv()
	if te == nil || te != e {
		if o.t.strays == "" {
			o.t.strays = fmt.Sprintf("event with the user tag %v inside op %v", ctx.Tag, e)
		}
	}
	return e
}

func (e *Env) evFail(f string, a ...interface{}) {
	if e.evBad == "" {
		e.evBad = fmt.Sprintf(f, a...)
	}
}

func (o *tracerObj) Before(scope string, no int, class string, ctx *tk.ParserContext) {
	e := o.env(ctx)
	if e == nil {
		return
	}
	if scope != o.scope {
		e.evFail("entry event of %s has scope %q, built under %q", class, scope, o.scope)
	}
	e.evN++
	e.ev = append(e.ev, traceEvent{o.who, scope, no, class})
	e.evDone = false
}

func (o *tracerObj) pop(e *Env, what, scope string, no int, class string) {
	x := traceEvent{o.who, scope, no, class}
	if len(e.ev) == 0 {
		e.evFail("%s event %v without an entry", what, x)
		return
	}
	top := e.ev[len(e.ev)-1]
	if top != x {
		e.evFail("%s event %v while %v is open", what, x, top)
	}
	e.ev = e.ev[:len(e.ev)-1]
}

func (o *tracerObj) After(scope string, no int, class string, ctx *tk.ParserContext, err error) {
	e := o.env(ctx)
	if e == nil {
		return
	}
	o.pop(e, "exit", scope, no, class)
	e.lastCtx, e.lastErr = *ctx, err
	if e.wantExit != nil && e.wantExit.depth == len(e.ev) {
		x := e.wantExit
		e.wantExit = nil
		st := x.ctx.MatchStatus
		if x.err != nil && st < tk.MatchStatus_Error {
			st = tk.MatchStatus_Error
		}
		if ctx.Position != x.ctx.Position || ctx.MatchStatus != st || !same(err, x.err) || len(ctx.AstStack) != len(x.ctx.AstStack) {
			e.evFail("exit event of %s reports pos=%d %v %d tokens err=%v; the parser returned pos=%d %v %d tokens err=%v", class, ctx.Position, ctx.MatchStatus, len(ctx.AstStack), err, x.ctx.Position, st, len(x.ctx.AstStack), x.err)
		}
	}
}

func (o *tracerObj) Panic(scope string, no int, class string, ctx *tk.ParserContext, r interface{}) {
	e := o.env(ctx)
	if e == nil {
		return
	}
	o.pop(e, "panic", scope, no, class)
	if e.Pan != nil && !same(r, e.Pan) {
		e.evFail("panic event of %s carries %v, not the value of the panic", class, r)
	}
}

type wantExit struct {
	depth int
	ctx   tk.ParserContext
	err   error
}

// watch makes a user-written parser check that it runs inside its own event.
func (t *traceScopes) watch(class string, impl tk.LightParserImplFn) tk.LightParserImplFn {
	if !t.on {
		return impl
	}
	scope, who := t.cur, t.who
	return func(ctx tk.ParserContext) (tk.ParserContext, error) {
		e := curEnv()
		depth := 0
		if e != nil && e.nest == 0 {
			var top traceEvent
			if len(e.ev) > 0 {
				top = e.ev[len(e.ev)-1]
			}
			if scope != "" && (top.class != class || top.scope != scope || top.who != who) {
				e.evFail("%s, built under %q, runs inside event %v", class, scope, top)
			}
			if scope == "" && top.class == class {
				e.evFail("%s, built outside every scope, is traced as %v", class, top)
			}
			depth = len(e.ev) - 1
		}
		out, err := impl(ctx)
		if e != nil && e.nest == 0 && scope != "" {
			e.wantExit = &wantExit{depth, out, err}
		}
		return out, err
	}
}

// scope builds f's parsers under a new trace scope.
func (t *traceScopes) scope(name string, f func() []tk.ParserFn) tk.ParserFn {
	if !t.on {
		return tk.BaseParser(":Base:DebugTrace", nil, nil, f(), nil)
	}
	saved, savedWho := t.cur, t.who
	t.n++
	full := saved + "/" + name
	mk := tk.DebugTrace(name, &tracerObj{t: t, who: t.n, scope: full})
	t.cur, t.who = full, t.n
	kids := f()
	p := mk(kids...)
	t.cur, t.who = saved, savedWho
	return p
}

// simTracer: trace callbacks that are struck like any other callback.
type simTracer struct{}

func (simTracer) ev(what, scope, class string, ctx *tk.ParserContext) {
	hit(ctx.Tag, true, 0, "trace "+what, func() string { return fmt.Sprintf("%s %s @%d", scope, class, ctx.Position) })
}

func (t simTracer) Before(scope string, no int, class string, ctx *tk.ParserContext) {
	t.ev("enter", scope, class, ctx)
}

func (t simTracer) After(scope string, no int, class string, ctx *tk.ParserContext, err error) {
	t.ev("exit", scope, class, ctx)
}

func (t simTracer) Panic(scope string, no int, class string, ctx *tk.ParserContext, r interface{}) {
	t.ev("panic", scope, class, ctx)
}
