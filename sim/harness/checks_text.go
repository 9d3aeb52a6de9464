package main

import (
	"encoding/hex"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/shellyln/takenoco/_examples/csv"
	"github.com/shellyln/takenoco/_examples/formula"
	"github.com/shellyln/takenoco/_examples/torpn"
	tk "github.com/shellyln/takenoco/base"
	sp "github.com/shellyln/takenoco/string"
	"verif.local/vsim"
)

// ---- C18: damaged text ---------------------------------------------------------------

// TextCase.  Mode tile: single-character parsers over the whole document; term: parsers
// tried at every byte of it; gram: a grammar; front: the bundled front ends.
type TextCase struct {
	Mode  string  `json:"mode"`
	Doc   string  `json:"doc"`
	Dmg   []*Dmg  `json:"dmg,omitempty"`
	P     []*Node `json:"p,omitempty"`
	G     *Gram   `json:"g,omitempty"`
	Pos   int     `json:"pos,omitempty"`
	Pre   int     `json:"pre,omitempty"`
	Cap   int     `json:"cap,omitempty"`
	Front string  `json:"front,omitempty"`
}

func damageText(doc string, ds []*Dmg) string {
	z := doc
	for _, d := range ds {
		e := *d
		if len(z) > 0 && e.At > len(z) {
			e.At %= len(z) + 1
		}
		t := e.apply(z)
		if t != z {
			fired(e.K)
		}
		z = t
	}
	if len(z) > 4000 {
		z = z[:4000]
	}
	return z
}

var singles = []string{"any", "range", "rangen", "class", "classn", "classfn", "ws", "wsn", "lbr", "alpha", "num", "alnum", "bin", "oct", "hex"}
var widthless = []string{"start", "end", "wb", "uwb"}
var builtins = []string{"binstr", "octstr", "hexstr", "intstr", "floatstr", "numstr", "ident", "uident", "date", "datetime", "time"}

// what may be made of the text of a number
var pipelines = map[string][][]string{
	"binstr": {{"intr2"}, {"uintr2"}, {"int", "fromint"}}, "octstr": {{"intr8"}, {"uintr8"}}, "hexstr": {{"intr16"}, {"uintr16"}, {"float"}},
	"intstr": {{"int"}, {"uint"}, {"float"}, {"int", "rune", "unrune"}, {"int", "rune", "strune"}, {"int", "fromint"}}, "floatstr": {{"float"}, {"int"}},
	"numstr": {{"float"}, {"int"}, {"uint"}}, "ident": {{"trim"}, {"uint"}}, "uident": {{"trim"}, {"float"}},
	"star": {{"uint"}, {"int"}, {"float"}, {"concat"}, {"trim"}, {"trims"}, {"trime"}, {"intr16"}, {"uintr16"}},
}

func textTr(k string) tk.TransformerFn {
	switch k {
	case "intr2":
		return sp.ParseIntRadix(2)
	case "intr8":
		return sp.ParseIntRadix(8)
	case "intr16":
		return sp.ParseIntRadix(16)
	case "uintr2":
		return sp.ParseUintRadix(2)
	case "uintr8":
		return sp.ParseUintRadix(8)
	case "uintr16":
		return sp.ParseUintRadix(16)
	case "int":
		return sp.ParseInt
	case "uint":
		return sp.ParseUint
	case "float":
		return sp.ParseFloat
	case "rune":
		return sp.RuneFromInt
	case "unrune":
		return sp.IntFromRune
	case "strune":
		return sp.StringFromRune
	case "fromint":
		return sp.StringFromInt
	case "concat":
		return sp.Concat
	case "trim":
		return sp.Trim
	case "trims":
		return sp.TrimStart
	case "trime":
		return sp.TrimEnd
	}
	panic(badCase("transformer " + k))
}

func in(k string, xs []string) bool {
	for _, x := range xs {
		if x == k {
			return true
		}
	}
	return false
}

func oneChar(s string) bool { return utf8.RuneCountInString(s) == 1 && utf8.ValidString(s) }

// termOK: a parser that can be tried on its own.
func termOK(n *Node, single bool) bool {
	if n == nil || len(n.S) > 20 {
		return false
	}
	switch n.K {
	case "class", "classn":
		for _, s := range n.S {
			if !utf8.ValidString(s) || single && !oneChar(s) {
				return false
			}
		}
		return true
	case "range", "rangen":
		return true
	case "classfn":
		return n.N >= 0 && n.N < 100
	case "seq", "seqi":
		return !single && len(n.S) == 1
	case "star":
		return !single && len(n.C) == 1 && termOK(n.C[0], true) && (len(n.T) == 0 || in(n.T[0].K, flatten(pipelines["star"])))
	case "la", "lan":
		return len(n.C) == 1 && termOK(n.C[0], false)
	case "lb", "lbn":
		return len(n.C) == 1 && termOK(n.C[0], false) && n.N >= 0 && n.M < 20
	case "trans":
		if single || len(n.C) != 1 || !in(n.C[0].K, builtins) || len(n.T) == 0 {
			return false
		}
		for _, p := range pipelines[n.C[0].K] {
			if len(p) == len(n.T) {
				same := true
				for i := range p {
					same = same && p[i] == n.T[i].K
				}
				if same {
					return true
				}
			}
		}
		return false
	}
	return in(n.K, singles) || in(n.K, widthless) || !single && in(n.K, builtins)
}

func flatten(xs [][]string) []string {
	var z []string
	for _, x := range xs {
		z = append(z, x...)
	}
	return z
}

func (c *TextCase) ok() bool {
	if len(c.Doc) > 6000 || c.Pos < 0 || c.Pre < 0 || c.Cap < 0 || c.Cap > 4096 || !utf8.ValidString(c.Doc) {
		return false
	}
	for _, d := range c.Dmg {
		if d == nil || d.N < 0 || d.N > 5000 {
			return false
		}
		if _, err := hex.DecodeString(d.B); err != nil {
			return false
		}
	}
	switch c.Mode {
	case "tile", "term":
		for _, n := range c.P {
			if !termOK(n, c.Mode == "tile") {
				return false
			}
		}
		return len(c.P) > 0
	case "gram":
		return c.G != nil && c.G.valid() && !c.G.Obj && !c.G.Both
	case "front":
		return c.Front == "csv" || c.Front == "formula" || c.Front == "torpn"
	}
	return false
}

// -- generation

var textPieces = []string{"a", "b", "Z", "_", "0", "1", "7", "9", "12", "0x1F", "0b101", "0o17", "1_000", "3.14", "-2", "+5", "1e10", "1E-3", ".5", "Infinity", "NaN", "99999999999999999999", "9223372036854775807", "-9223372036854775808",
	" ", "  ", "\t", "\n", "\r\n", "\r", "\v", "\f", "\u0085", "\u00a0", "\u3000", "\u2028", "é", "ß", "日", "本語", "あ", "Ω", "😀", "\U0010ffff", "\ufffd", "\ufeff", "e\u0301", "\u212a", "ſ", "ǅ", "٣", "x1", "$v", "id_9", "変数", "ñandu",
	"2024-02-29", "2024-13-01", "12:34:56", "12:34:56.789", "2021-01-02T03:04:05Z", "2021-01-02T03:04:05.6+09:00", "-0044-03-15", "24:00", "\"", ",", "(", ")", "+", "-", "*", "/", "\x00", "\x7f"}

func genText(r *Rand, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += textPieces[r.Intn(len(textPieces))]
	}
	return s
}

func genSingle(r *Rand) *Node {
	n := &Node{K: singles[r.Intn(len(singles))]}
	some := func() []string {
		var z []string
		for i := 0; i < 1+r.Intn(3); i++ {
			z = append(z, pick(r, "a", "1", " ", "\n", "é", "日", "あ", "😀", "\ufffd", "_", ",", "\u0085"))
		}
		return z
	}
	switch n.K {
	case "range", "rangen":
		n.S = []string{pick(r, "az", "09", "あん", "\u0080\U0010ffff", "\x00\x7f", "\ufffd\ufffd", "\u0080ÿ", "日日")}
	case "class", "classn":
		n.S = some()
	case "classfn":
		n.N = 1 + r.Intn(3)
	}
	return n
}

func genTerm(r *Rand) *Node {
	switch r.Intn(12) {
	case 0:
		if r.Intn(2) == 0 {
			s := ""
			for i := 1 + r.Intn(5); i > 0; i-- {
				s += pick(r, "a", "k", "S", "日", "あ", "é", "É", "ß", "ſ", "\u212a", "À", "Ω", "ω", "1", "\ufffd", "😀", "Ⱥ", "ⱥ", "İ")
			}
			return &Node{K: pick(r, "seq", "seqi", "seqi"), S: []string{s}}
		}
		return &Node{K: pick(r, "seq", "seqi"), S: []string{pick(r, "a", "日", "日本", "é", "12", "", "\r\n", "id_9", "😀", "\ufffd", "NaN", "infinity", "ß", "k")}}
	case 1:
		n := &Node{K: pick(r, "class", "classn")}
		for i := 0; i < 1+r.Intn(3); i++ {
			n.S = append(n.S, pick(r, "ab", "日本", "", "é", "\r\n", "1", "😀", "\ufffd"))
		}
		return n
	case 2, 3:
		n := &Node{K: "star", C: []*Node{genSingle(r)}}
		n.T = []Tr{{K: pick(r, flatten(pipelines["star"])...)}}
		return n
	case 4, 5:
		return &Node{K: widthless[r.Intn(len(widthless))]}
	case 6, 7, 8:
		b := builtins[r.Intn(len(builtins))]
		n := &Node{K: b}
		if ps := pipelines[b]; len(ps) > 0 && r.Intn(3) != 0 {
			n = &Node{K: "trans", C: []*Node{n}}
			for _, t := range ps[r.Intn(len(ps))] {
				n.T = append(n.T, Tr{K: t})
			}
		}
		return n
	case 9:
		n := &Node{K: pick(r, "lb", "lbn"), N: r.Intn(3), C: []*Node{genSingle(r)}}
		n.M = n.N + r.Intn(5)
		return n
	case 10:
		return &Node{K: pick(r, "la", "lan"), C: []*Node{genSingle(r)}}
	}
	return genSingle(r)
}

func genExpr(r *Rand, d int) string {
	if d <= 0 || r.Intn(3) == 0 {
		return pick(r, "1", "0", "42", "7", "9223372036854775807", "1_0", "-3", "00")
	}
	s := genExpr(r, d-1) + pick(r, "", " ") + pick(r, "+", "-", "*", "/") + pick(r, "", " ", "\n") + genExpr(r, d-1)
	if r.Intn(2) == 0 {
		s = "(" + s + ")"
	}
	if r.Intn(5) == 0 {
		s = "-" + s
	}
	return s
}

func genTextCase(r *Rand) *TextCase {
	c := &TextCase{Mode: pick(r, "tile", "tile", "term", "term", "term", "gram", "gram", "front", "front"), Pre: r.Intn(3), Cap: pick(r, 0, 1, 8)}
	big := 0
	if r.Intn(80) == 0 {
		big = 1
	}
	switch c.Mode {
	case "tile":
		c.Doc = genText(r, 1+r.Intn(16)+big*r.Intn(200))
		for i := 0; i < 1+r.Intn(5); i++ {
			n := genSingle(r)
			switch r.Intn(6) {
			case 0:
				n = &Node{K: pick(r, "la", "lan"), C: []*Node{n}}
			case 1:
				n = &Node{K: pick(r, "lb", "lbn"), N: r.Intn(3), C: []*Node{n}}
				n.M = n.N + r.Intn(4)
			case 2:
				n = &Node{K: widthless[r.Intn(len(widthless))]}
			}
			c.P = append(c.P, n)
		}
	case "term":
		c.Doc = genText(r, 1+r.Intn(8)+big*r.Intn(20))
		for i := 0; i < 1+r.Intn(6); i++ {
			n := genTerm(r)
			c.P = append(c.P, n)
			if (n.K == "seq" || n.K == "seqi") && r.Intn(2) == 0 {
				c.Doc += pick(r, n.S[0], strings.ToUpper(n.S[0]), strings.ToLower(n.S[0]), strings.ToTitle(n.S[0]))
			}
		}
	case "gram":
		c.G = genGram(r, genOpt{obj: 0, depth: 2 + r.Intn(3), cb: 10, noExotic: true})
		c.Doc, _ = c.G.source(r)
		c.Pos = r.Intn(1 + r.Intn(len(c.Doc)+1))
	case "front":
		c.Front = pick(r, "csv", "formula", "torpn")
		if c.Front == "csv" {
			var recs [][]string
			for i := 0; i < r.Intn(5+big*50); i++ {
				var rec []string
				for j := 0; j < 1+r.Intn(3); j++ {
					rec = append(rec, genCell(r))
				}
				recs = append(recs, rec)
			}
			c.Doc = csv.ToCsv(recs)
		} else {
			c.Doc = genExpr(r, 1+r.Intn(4)+big*r.Intn(4))
		}
		if r.Intn(8) == 0 {
			c.Doc = genText(r, 1+r.Intn(6)+big*r.Intn(100))
		}
		if n := 400 + big*1000; len(c.Doc) > n {
			c.Doc = strings.ToValidUTF8(c.Doc[:n], "")
		}
	}
	c.Doc = strings.ToValidUTF8(c.Doc, "")
	for i := 0; i < pick(r, 0, 1, 1, 1, 2, 2, 3); i++ {
		c.Dmg = append(c.Dmg, genDmg(r, len(c.Doc)))
	}
	return c
}

// -- running

func runText(c *TextCase, rc *RC) *Violation {
	if !c.ok() {
		rc.Discard = true
		return nil
	}
	vsim.Reset()
	doc := damageText(c.Doc, c.Dmg)
	rc.note(c.Mode, doc)
	if !utf8.ValidString(doc) {
		rc.add("documents with damaged characters", 1)
	}
	rc.add("mode "+c.Mode, 1)
	if len(doc) > 1 && doc != c.Doc {
		rc.nontrivial()
	}
	switch c.Mode {
	case "tile":
		return c.tile(doc, rc)
	case "term":
		return c.term(doc, rc)
	case "gram":
		return c.gram(doc, rc)
	}
	return c.front(doc, rc)
}

func (c *TextCase) ctx(doc string, pos int) tk.ParserContext {
	ctx := tk.ParserContext{Str: doc, AstStack: make(tk.AstSlice, 0, c.Cap)}
	for i := 0; i < c.Pre && i < len(preTokens); i++ {
		ctx.AstStack = append(ctx.AstStack, preTokens[i])
	}
	ctx.Position = pos
	return ctx
}

// termParser builds a parser of the term and tile modes.
func (w *World) termParser(n *Node) tk.ParserFn {
	if len(n.T) == 0 {
		return w.build(n)
	}
	var ts []tk.TransformerFn
	for _, t := range n.T {
		ts = append(ts, textTr(t.K))
	}
	if n.K == "star" {
		return tk.Trans(tk.ZeroOrMoreTimes(w.build(n.C[0])), ts...)
	}
	return tk.Trans(w.build(n.C[0]), ts...)
}

func (c *TextCase) tile(doc string, rc *RC) *Violation {
	w := newWorld(&Gram{})
	var out tk.ParserContext
	var err error
	if v := guardCall(rc, fmt.Sprintf("tiling %q", doc), func() {
		var alts []tk.ParserFn
		for _, n := range c.P {
			p := w.termParser(n)
			if in(n.K, singles) {
				alts = append(alts, p)
			} else {
				// an assertion before one character
				alts = append(alts, tk.FlatGroup(p, sp.Any()))
			}
		}
		out, err = tk.ZeroOrMoreTimes(tk.First(append(alts, sp.Any())...))(c.ctx(doc, 0))
	}); v != nil {
		return v
	}
	if err != nil || out.MatchStatus != tk.MatchStatus_Matched {
		return viol("tile", "%q: error %v, status %d", doc, err, out.MatchStatus)
	}
	if out.Position != len(doc) {
		return viol("tile", "%q: stopped at %d of %d", doc, out.Position, len(doc))
	}
	toks := out.AstStack
	n := min(c.Pre, len(preTokens))
	if len(toks) < n || fp(toks[:n], true) != fp(preTokens[:n], true) {
		return viol("tile", "earlier tokens changed to %s", clip(fp(toks, false), 300))
	}
	toks = toks[n:]
	pos, i := 0, 0
	for pos < len(doc) {
		r, size := utf8.DecodeRuneInString(doc[pos:])
		if i >= len(toks) {
			return viol("tile", "%q: no token for byte %d", doc, pos)
		}
		t := toks[i]
		if t.Position != pos {
			return viol("tile", "%q: token %d is at %d, expected %d", doc, i, t.Position, pos)
		}
		if (r != utf8.RuneError || size > 1) && t.Value != doc[pos:pos+size] {
			return viol("tile", "%q: the intact character %q at %d was delivered as %s", doc, doc[pos:pos+size], pos, fp(t.Value, false))
		}
		if _, ok := t.Value.(string); !ok {
			return viol("tile", "%q: character at %d delivered as %s", doc, pos, fp(t.Value, false))
		}
		pos += size
		i++
	}
	if i != len(toks) {
		return viol("tile", "%q: %d characters, %d tokens", doc, i, len(toks))
	}
	rc.add("characters tiled", int64(i))
	return nil
}

func (c *TextCase) term(doc string, rc *RC) *Violation {
	w := newWorld(&Gram{})
	for _, n := range c.P {
		n := n
		var bad *Violation
		if v := guardCall(rc, fmt.Sprintf("%s over %q", describe(n), doc), func() {
			p := w.termParser(n)
			for pos := 0; pos <= len(doc) && bad == nil; pos++ {
				in0 := c.ctx(doc, pos)
				before := fp(in0.AstStack, true)
				out, err := p(in0)
				bad = c.judge(n, doc, pos, in0, out, err, before, rc)
			}
		}); v != nil {
			return v
		}
		if bad != nil {
			return bad
		}
	}
	if len(c.P) > 0 && len(doc) > 0 {
		for pos := 0; pos <= len(doc); pos++ {
			pos := pos
			if v := guardCall(rc, fmt.Sprintf("line and column of byte %d of %q", pos, doc), func() {
				l := tk.GetLineAndColPosition(doc, tk.SourcePosition{Position: pos}, pick(vsim.NewRand(uint64(pos)), 1, 4, 8))
				_ = l
			}); v != nil {
				return v
			}
		}
	}
	return nil
}

func describe(n *Node) string {
	s := n.K
	for _, x := range n.S {
		s += fmt.Sprintf(" %q", x)
	}
	for _, x := range n.C {
		s += "(" + describe(x) + ")"
	}
	for _, t := range n.T {
		s += "." + t.K
	}
	return s
}

func (c *TextCase) judge(n *Node, doc string, pos int, in0, out tk.ParserContext, err error, before string, rc *RC) *Violation {
	where := fmt.Sprintf("%s at byte %d of %q", describe(n), pos, doc)
	rc.add("terminal attempts", 1)
	if err != nil {
		if len(n.T) == 0 && !in(n.K, []string{"date", "datetime", "time"}) {
			return viol("error", "%s failed with %v", where, err)
		}
		rc.add("conversions refused", 1)
		return nil
	}
	switch out.MatchStatus {
	case tk.MatchStatus_Unmatched:
		return nil
	case tk.MatchStatus_Matched:
	default:
		return viol("status", "%s ended with status %d and no error", where, out.MatchStatus)
	}
	if out.Position < pos || out.Position > len(doc) {
		return viol("position", "%s moved to %d", where, out.Position)
	}
	k := len(in0.AstStack)
	if len(out.AstStack) < k || fp(out.AstStack[:k], true) != before {
		return viol("tokens", "%s changed earlier tokens", where)
	}
	toks := out.AstStack[k:]
	switch {
	case in(n.K, widthless) || in(n.K, []string{"la", "lan", "lb", "lbn"}):
		if out.Position != pos || len(toks) != 0 {
			return viol("width", "%s moved to %d with %d tokens", where, out.Position, len(toks))
		}
	case in(n.K, singles) && n.K != "class":
		r, size := utf8.DecodeRuneInString(doc[pos:])
		if out.Position != pos+size {
			return viol("width", "%s moved to %d, the character has %d bytes", where, out.Position, size)
		}
		if len(toks) != 1 || (r != utf8.RuneError || size > 1) && toks[0].Value != doc[pos:pos+size] {
			return viol("tokens", "%s gave %s", where, fp(toks, false))
		}
	case n.K == "class" || n.K == "seq":
		if len(toks) != 1 || toks[0].Value != doc[pos:out.Position] {
			return viol("tokens", "%s moved to %d and gave %s", where, out.Position, fp(toks, false))
		}
	}
	return nil
}

func (c *TextCase) gram(doc string, rc *RC) *Violation {
	w := newWorld(c.G)
	w.quiet = true
	var bad *Violation
	var skip *Node
	below := false
	w.leaf = func(n *Node) tk.ParserFn {
		if skip == n {
			skip = nil
			return nil
		}
		skip = n
		p := w.build(n)
		skip = nil
		return func(ctx tk.ParserContext) (tk.ParserContext, error) {
			if bad == nil && (ctx.Position < 0 || ctx.Position > len(doc)) {
				bad = viol("position", "%s is tried at byte %d of %d", n.K, ctx.Position, len(doc))
			}
			out, err := p(ctx)
			// a Match that takes tokens which are not its own is misuse in a transformation
			below = below || err == nil && out.MatchStatus == tk.MatchStatus_Matched && len(out.AstStack) < len(ctx.AstStack)
			if bad == nil && err == nil && out.MatchStatus == tk.MatchStatus_Matched && (out.Position < ctx.Position || out.Position > len(doc)) {
				bad = viol("position", "%s at byte %d of %d matched and moved to %d", n.K, ctx.Position, len(doc), out.Position)
			}
			return out, err
		}
	}
	var out tk.ParserContext
	var err error
	var pv interface{}
	pos := c.Pos
	if pos > len(doc) {
		pos = len(doc)
	}
	s := solo(400000, func() {
		defer func() { pv = recover() }()
		w.start()
		out, err = w.root(c.ctx(doc, pos))
	})
	if s.Capped || below {
		rc.Discard = true
		return nil
	}
	rc.sim(s)
	if t := trouble(s); t != nil {
		return t
	}
	if b, ok := pv.(badCase); ok {
		panic(b)
	}
	if pv != nil {
		return viol("panic", "parsing %q from byte %d panicked: %v", doc, pos, pv)
	}
	if bad != nil {
		bad.Msg = fmt.Sprintf("%q: %s", doc, bad.Msg)
		return bad
	}
	if err == nil && out.MatchStatus != tk.MatchStatus_Matched && out.MatchStatus != tk.MatchStatus_Unmatched {
		return viol("status", "parsing %q ended with status %d and no error", doc, out.MatchStatus)
	}
	if err == nil && out.MatchStatus == tk.MatchStatus_Matched {
		rc.add("damaged texts parsed by grammars", 1)
	}
	return nil
}

func (c *TextCase) front(doc string, rc *RC) *Violation {
	var err error
	if v := guardCall(rc, fmt.Sprintf("%s on %q", c.Front, clip(doc, 300)), func() {
		switch c.Front {
		case "csv":
			_, err = csv.Parse(doc)
		case "formula":
			_, err = formula.Parse(doc)
		default:
			_, err = torpn.Parse(doc)
		}
	}); v != nil {
		return v
	}
	if err != nil {
		rc.add("documents refused by front ends", 1)
	} else {
		rc.add("documents accepted by front ends", 1)
	}
	return nil
}

func init() {
	r := reg("C18", 2000000, 18000000, genTextCase, runText, nil,
		"Documents of words, numbers, dates, identifiers, blanks, all line breaks and multi-byte characters, damaged up to three times (cut off, overwritten, zeroed, chunk lost, repeated or exchanged, blocks lost, bytes inserted, bit flipped; inside multi-byte characters as well). tile: single-character parsers and assertions run over the document must cut it into exactly its characters, one byte where it is damaged, intact characters unchanged. term: every terminal, number, identifier, date and word-boundary parser, with its conversions, is tried at every byte offset. gram: random grammars, every sub-parser's position watched. front: the CSV, formula and RPN front ends. No panic, no hang (step bound), position monotone and inside the source. Non-trivial: the text was really damaged.")
	r.Real = []string{"string, extra, base: parsers and transformers", "base: GetLineAndColPosition", "_examples/csv, formula, torpn: Parse"}
	r.Stub = []string{"storage or network that damages the text: simulated"}
}
