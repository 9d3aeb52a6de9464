package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// genOpt steers the generated grammars.
type genOpt struct {
	obj      int  // 0: string, 1: object, 2: either
	noBuilt  bool // no calc/extra parsers
	depth    int
	shared   bool // many shared deferred parsers
	cb       int  // percentage of user callbacks
	noExotic bool // no raw/base nodes that move backwards
}

var sseq = []string{"a", "b", "ab", "aB", "A", "0", "1", "10", "+", " ", "\n", "é", "日本", "x", "", "aa", "_"}
var chars = []string{"a", "b", "A", "B", "0", "1", "9", "+", "-", "*", " ", "\n", "_", "é", "日", "x", ".", "\"", ",", "\t"}

type genr struct {
	r    *Rand
	g    *Gram
	o    genOpt
	next int
	nr   int // number of rules
	cur  int
	size int
	lb   bool
}

// rare returns 0, and up to n once in a while.
func rare(r *Rand, n int) int {
	if r.Intn(50) == 0 {
		return r.Intn(n + 1)
	}
	return 0
}

func (z *genr) id() int { z.next++; return z.next }

func (z *genr) strLeaf() *Node {
	for {
		n := z.strLeaf1()
		if !z.g.Both || neutral[n.K] {
			return n
		}
		if z.r.Intn(3) == 0 {
			return &Node{K: pick(z.r, "light", "raw"), N: 1 + z.r.Intn(2), I: z.id()}
		}
	}
}

func (z *genr) strLeaf1() *Node {
	r := z.r
	if r.Intn(100) < z.o.cb {
		switch r.Intn(4) {
		case 0:
			return &Node{K: "classfn", N: 1 + r.Intn(3), I: z.id()}
		case 1:
			return &Node{K: "raw", N: 1 + r.Intn(2), I: z.id()}
		default:
			return &Node{K: "light", N: 1 + r.Intn(2), I: z.id()}
		}
	}
	switch r.Intn(18) {
	case 0:
		return &Node{K: "any"}
	case 1, 2, 3, 4:
		s := pick(r, sseq...)
		for i := rare(r, 20); i > 0; i-- {
			s += pick(r, sseq...)
		}
		return &Node{K: "seq", S: []string{s}}
	case 5:
		return &Node{K: "seqi", S: []string{pick(r, sseq...)}}
	case 6, 7:
		n := &Node{K: pick(r, "range", "range", "rangen"), S: []string{pick(r, "ab", "az", "09", "AZ", "é日", "ax")}}
		if r.Intn(3) == 0 {
			n.S = append(n.S, pick(r, "09", "++", "  "))
		}
		for i := rare(r, 12); i > 0; i-- {
			n.S = append(n.S, pick(r, "09", "++", "  ", "ab", "é日", "xx", "..", "AZ"))
		}
		return n
	case 8, 9:
		n := &Node{K: pick(r, "class", "class", "classn")}
		for i := 1 + r.Intn(3) + rare(r, 20); i > 0; i-- {
			n.S = append(n.S, pick(r, chars...))
			if r.Intn(4) == 0 { // of two characters, and perhaps its beginning behind it
				n.S[len(n.S)-1] += pick(r, chars...)
				if r.Intn(2) == 0 {
					_, w := utf8.DecodeRuneInString(n.S[len(n.S)-1])
					n.S = append(n.S, n.S[len(n.S)-1][:w])
				}
			}
		}
		return n
	case 10, 11:
		return &Node{K: pick(r, "alpha", "num", "alnum", "ws", "wsn", "lbr", "bin", "oct", "hex")}
	case 12:
		return &Node{K: pick(r, "wb", "uwb", "start", "end")}
	case 13:
		if z.o.noBuilt {
			return &Node{K: "num"}
		}
		return &Node{K: pick(r, "binstr", "octstr", "hexstr", "intstr", "floatstr", "numstr", "ident", "uident", "date", "datetime", "time")}
	case 14:
		return &Node{K: "zero", N: r.Intn(5), S: []string{pick(r, "z", "y")}}
	case 15:
		if r.Intn(4) == 0 {
			return &Node{K: "err", S: []string{fmt.Sprint(r.Intn(3))}}
		}
		return &Node{K: "unm"}
	default:
		return &Node{K: "seq", S: []string{pick(r, "a", "b", "0", "1")}}
	}
}

func (z *genr) objLeaf() *Node {
	r := z.r
	if r.Intn(100) < z.o.cb {
		switch r.Intn(3) {
		case 0:
			return &Node{K: "oclassfn", N: r.Intn(4), I: z.id()}
		default:
			return &Node{K: "light", N: 1 + r.Intn(2), I: z.id()}
		}
	}
	some := func(n int) []int {
		var x []int
		for i := 0; i < n; i++ {
			x = append(x, r.Intn(4))
		}
		return x
	}
	switch r.Intn(10) {
	case 0:
		return &Node{K: "oany"}
	case 1, 2, 3:
		return &Node{K: "oseq", O: some(1 + r.Intn(3) + rare(r, 12))}
	case 4, 5:
		return &Node{K: "oclass", O: some(1 + r.Intn(2) + rare(r, 12))}
	case 6:
		return &Node{K: "oclassn", O: some(1 + r.Intn(2) + rare(r, 12))}
	case 7:
		return &Node{K: pick(r, "oend", "start")}
	case 8:
		return &Node{K: "zero", N: r.Intn(5), S: []string{"z"}}
	default:
		return &Node{K: "unm"}
	}
}

func (z *genr) leaf() *Node {
	if z.nr > 1 && !z.lb && z.r.Intn(100) < z.indPct() {
		n := &Node{K: "ind", I: z.r.Intn(z.nr)}
		if z.r.Intn(5) == 0 && !z.o.shared {
			n.F = 1
		}
		return n
	}
	if z.g.Obj {
		return z.objLeaf()
	}
	return z.strLeaf()
}

func (z *genr) indPct() int {
	if z.o.shared {
		return 45
	}
	return 20
}

func (z *genr) consLeaf() *Node {
	for i := 0; i < 20; i++ {
		var n *Node
		if z.g.Obj {
			n = z.objLeaf()
		} else {
			n = z.strLeaf()
		}
		if consumes(n) {
			return n
		}
	}
	if z.g.Obj {
		return &Node{K: "oany"}
	}
	if z.g.Both {
		return &Node{K: "light", N: 1, I: z.id()}
	}
	return &Node{K: "any"}
}

func (z *genr) kids(d, min, max int) []*Node {
	var c []*Node
	for i := 0; i < min+z.r.Intn(max-min+1); i++ {
		c = append(c, z.node(d-1))
	}
	for i := rare(z.r, 15); i > 0 && max > 1; i-- {
		c = append(c, z.leaf())
	}
	return c
}

// consKids: children of which at least one consumes, the first unless luck says otherwise.
func (z *genr) consKids(d int) []*Node {
	c := z.kids(d, 1, 2)
	for _, n := range c {
		if consumes(n) {
			return c
		}
	}
	if z.r.Intn(2) == 0 {
		return append([]*Node{z.consLeaf()}, c...)
	}
	return append(c, z.consLeaf())
}

func (z *genr) trs(max int) []Tr {
	var ts []Tr
	n := 1 + z.r.Intn(max) + rare(z.r, 10)
	for i := 0; i < n; i++ {
		ts = append(ts, z.tr())
	}
	return ts
}

// cbN is the kind of a transformer callback; the last two hand out more or less of a list.
func (z *genr) cbN() int {
	n := z.r.Intn(7)
	if n > 4 {
		n += 7 * rare(z.r, 12)
		if z.r.Intn(3) == 0 {
			n += 7 * z.r.Intn(5)
		}
	}
	return n
}

func (z *genr) tr() Tr {
	r := z.r
	if r.Intn(100) < z.o.cb {
		return Tr{K: "cb", S: fmt.Sprint(z.id()), N: z.cbN()}
	}
	s := pick(r, "p", "q", "r")
	switch k := pick(r, "erase", "group", "group", "setop", "setopc", "cls", "cls", "setval", "prepend", "push", "push", "pop", "exch", "roll", "concat", "concat", "trim", "int", "cb", "cb", "toslice", "terr", "float", "uint", "intr", "uintr", "trims", "trime"); k {
	case "cb":
		return Tr{K: k, S: fmt.Sprint(z.id()), N: z.cbN()}
	case "roll":
		return Tr{K: k, N: r.Intn(7) - 3 + rare(r, 20) - rare(r, 20)}
	case "toslice":
		if !z.g.Obj {
			return Tr{K: "group"}
		}
		return Tr{K: k}
	case "terr":
		if r.Intn(4) != 0 {
			return Tr{K: "pop"}
		}
		return Tr{K: k, S: s}
	case "intr", "uintr":
		return Tr{K: k, N: pick(r, 2, 8, 10, 16)}
	default:
		return Tr{K: k, N: r.Intn(5), S: s}
	}
}

func (z *genr) caseS() CaseS {
	r := z.r
	c := CaseS{If: pick(r, "any", "str", "str", "int", "is", "cb", "cb", "rune", "uint", "float", "bool")}
	for i := 0; i < r.Intn(3); i++ {
		c.V = append(c.V, pick(r, "a", "b", "0", "p", "z", "ab"))
	}
	for i := rare(r, 8) + r.Intn(3); i > 0; i-- {
		c.Let = append(c.Let, z.tr())
	}
	return c
}

func (z *genr) node(d int) *Node {
	r := z.r
	z.size++
	if d <= 0 || z.size > 40 {
		return z.leaf()
	}
	switch r.Intn(24) {
	case 0, 1, 2:
		return &Node{K: "flat", C: z.kids(d, 1, 3)}
	case 3:
		return &Node{K: "group", C: z.kids(d, 1, 3)}
	case 4, 5, 6:
		return &Node{K: "first", C: z.kids(d, 2, 3)}
	case 7:
		return &Node{K: pick(r, "la", "lan"), C: z.kids(d, 1, 2)}
	case 8:
		if z.lb {
			return z.leaf()
		}
		z.lb = true
		n := &Node{K: pick(r, "lb", "lbn"), N: r.Intn(3) + rare(r, 10), C: z.kids(d, 1, 2)}
		n.M = n.N + r.Intn(3) + rare(r, 20)
		z.lb = false
		return n
	case 9:
		n := &Node{K: "rep", N: r.Intn(3) + rare(r, 10), C: z.kids(d, 1, 2)}
		n.M = n.N + r.Intn(3) + rare(r, 20)
		if r.Intn(3) == 0 {
			n.M = -1
			n.C = z.consKids(d)
		}
		return n
	case 10, 11:
		return &Node{K: "opt", C: z.kids(d, 1, 2)}
	case 12, 13, 14:
		return &Node{K: pick(r, "star", "plus"), C: z.consKids(d)}
	case 15, 16, 17:
		if z.g.Obj && r.Intn(4) == 0 {
			return &Node{K: "trans", C: []*Node{z.objLeaf()}, T: []Tr{{K: "toslice"}}}
		}
		return &Node{K: "trans", C: z.kids(d, 1, 1), T: z.trs(3)}
	case 18:
		n := &Node{K: "match", N: r.Intn(4)}
		for i := rare(r, 10) + 1 + r.Intn(2); i > 0; i-- {
			n.Cs = append(n.Cs, z.caseS())
		}
		return n
	case 19:
		n := &Node{K: "base", I: z.id(), F: r.Intn(32), C: z.kids(d, 1, 3)}
		if n.F&fTimes != 0 {
			n.N = r.Intn(3)
			n.M = n.N + r.Intn(3)
			if r.Intn(3) == 0 {
				n.M = -1
				for i := range n.C {
					if !consumes(n.C[i]) {
						n.C[i] = z.consLeaf()
					}
				}
			}
		}
		if r.Intn(2) == 0 {
			n.T = z.trs(2)
		}
		return n
	case 20:
		if !z.g.Obj && !z.g.Both && !z.o.noBuilt {
			return z.calc()
		}
		return z.leaf()
	case 21:
		return &Node{K: "if", N: r.Intn(2), C: z.kids(d, 2, 2)}
	case 22:
		return &Node{K: "once", C: z.kids(d, 1, 2)}
	default:
		return z.leaf()
	}
}

func (z *genr) calc() *Node {
	r := z.r
	n := &Node{K: "calc", M: pick(r, 0, 0, 0, 1, 2)}
	ops := []string{"+", "-", "*", "/", "^"}
	for i := range ops {
		j := r.Intn(i + 1)
		ops[i], ops[j] = ops[j], ops[i]
	}
	k := 0
	for l := 0; l < 1+r.Intn(3) && k < len(ops); l++ {
		s := pick(r, "", "", "<", "<", "u", "<u")
		for j := 0; j < 1+r.Intn(2) && k < len(ops); j++ {
			s += ops[k]
			k++
		}
		n.S = append(n.S, s)
	}
	return n
}

// genGram returns a valid grammar.
func genGram(r *Rand, o genOpt) *Gram {
	if o.depth == 0 {
		o.depth = 2 + r.Intn(3)
	}
	if o.cb == 0 {
		o.cb = 15 + r.Intn(30)
	}
	for try := 0; try < 60; try++ {
		g := &Gram{}
		switch o.obj {
		case 1:
			g.Obj = true
		case 2:
			g.Obj = r.Intn(5) == 0
			g.Both = !g.Obj && r.Intn(8) == 0
		}
		if g.Obj {
			g.Mod = pick(r, 0, 0, 2, 3)
			g.Item = pick(r, 0, 0, 1, 2, 3, 4)
		}
		z := &genr{r: r, g: g, o: o}
		if !g.Both && r.Intn(10) == 0 {
			// one long list, and a library transformer for it
			z.nr = 1
			if z.o.obj != 1 && !g.Obj && !z.o.noBuilt && r.Intn(4) == 0 {
				// of dates and times
				n := &Node{K: "first", C: []*Node{{K: "datetime"}, {K: "date"}, {K: "time"}}}
				n.C = n.C[:1+r.Intn(3)]
				g.Rules = append(g.Rules, &Node{K: pick(r, "star", "plus"), C: []*Node{n}})
				if r.Intn(2) == 0 {
					g.Rules[0].C = append(g.Rules[0].C, &Node{K: "opt", C: []*Node{z.strLeaf()}})
				}
				if g.valid() {
					return g
				}
				g.Rules = nil
			}
			n := &Node{K: pick(r, "star", "plus"), C: []*Node{z.consLeaf()}}
			for i := r.Intn(6) - 3; i > 0; i-- {
				n.C = append(n.C, z.leaf())
			}
			if len(n.C) > 1 && r.Intn(2) == 0 {
				n.C = []*Node{{K: "first", C: n.C}}
			}
			n = &Node{K: "trans", C: []*Node{n}}
			for i := 1 + r.Intn(3)/2; i > 0; i-- {
				k := pick(r, "concat", "concat", "trim", "trims", "trime", "int", "uint", "float", "group", "toslice", "setop", "cls", "push", "prepend", "exch", "roll", "pop")
				if k == "toslice" && !g.Obj {
					k = "concat"
				}
				n.T = append(n.T, Tr{K: k, N: r.Intn(5), S: "w"})
			}
			if r.Intn(3) == 0 {
				n = &Node{K: "flat", C: []*Node{n, z.leaf()}}
			}
			g.Rules = append(g.Rules, n)
			if g.long = true; g.valid() {
				return g
			}
			continue
		}
		z.nr = 1 + r.Intn(3)
		if o.shared {
			z.nr = 2 + r.Intn(3)
		}
		for i := 0; i < z.nr; i++ {
			z.size = 0
			z.cur = i
			d := o.depth
			if i > 0 && d > 2 {
				d--
			}
			n := z.node(d)
			if i == 0 {
				// the root is never a mere leaf
				for t := 0; t < 4 && len(n.C) == 0 && n.K != "calc"; t++ {
					n = z.node(d)
				}
				if z.nr > 1 && (o.shared || r.Intn(2) == 0) {
					c := &Node{K: "ind", I: 1 + r.Intn(z.nr-1)}
					if r.Intn(2) == 0 {
						n = &Node{K: "flat", C: []*Node{n, c}}
					} else {
						n = &Node{K: "first", C: []*Node{c, n}}
					}
				}
			} else if r.Intn(3) == 0 {
				// typical recursive shape
				n = &Node{K: "flat", C: []*Node{z.consLeaf(), n, {K: "opt", C: []*Node{{K: "ind", I: r.Intn(z.nr)}}}}}
			}
			g.Rules = append(g.Rules, n)
		}
		if g.valid() {
			return g
		}
	}
	if o.obj == 1 {
		return &Gram{Obj: true, Rules: []*Node{{K: "star", C: []*Node{{K: "oany"}}}}}
	}
	return &Gram{Rules: []*Node{{K: "star", C: []*Node{{K: "any"}}}}}
}

// ---- sources -------------------------------------------------------------------------

// sample returns a text that n is likely to match.
func (g *Gram) sample(r *Rand, n *Node, depth int) string {
	if depth > 12 {
		return ""
	}
	all := func(c []*Node) string {
		s := ""
		for _, x := range c {
			s += g.sample(r, x, depth+1)
		}
		return s
	}
	first := func(xs []string, def string) string {
		if len(xs) == 0 {
			return def
		}
		return xs[r.Intn(len(xs))]
	}
	switch n.K {
	case "seq":
		return n.S[0]
	case "seqi":
		if r.Intn(2) == 0 {
			return strings.ToUpper(n.S[0])
		}
		return n.S[0]
	case "range":
		rs := []rune(first(n.S, "a"))
		return string(rs[0])
	case "class":
		return first(n.S, "")
	case "any", "rangen", "classn", "classfn":
		return pick(r, chars...)
	case "light", "raw":
		s := ""
		for len(s) < n.N {
			s += pick(r, "a", "b", "0")
		}
		return s
	case "ws", "wsn":
		return " "
	case "lbr":
		return "\n"
	case "alpha", "ident", "uident":
		return pick(r, "a", "b", "A")
	case "num", "bin", "oct", "intstr":
		return pick(r, "0", "1")
	case "alnum", "hex":
		return pick(r, "a", "0", "A")
	case "binstr":
		return pick(r, "0b10", "0b1_0", "0b")
	case "octstr":
		return pick(r, "0o17", "0o1_7")
	case "hexstr":
		return pick(r, "0x1f", "0xA_0")
	case "floatstr", "numstr":
		return pick(r, "1.5", "1e3", "-2.5e-1", "10")
	case "date":
		return pick(r, "2021-03-04", "2021-03", "2021")
	case "datetime":
		return pick(r, "2021-03-04T05:06:07Z", "2021-03-04T05:06:07.123+09:00", "2021-03-04T05:06:07+01:00", "2021-03-04T05:06:07.123456789+09:00", "2021-03-04T05:06")
	case "time":
		return pick(r, "05:06:07", "05:06", "05:06:07.5")
	case "calc":
		s := pick(r, "1", "2")
		var ops []string
		for _, lv := range n.S {
			u := strings.Contains(lv, "u")
			for _, c := range lv {
				if c == '<' || c == 'u' {
					continue
				}
				if u {
					s = string(c) + s
				} else {
					ops = append(ops, string(c))
				}
			}
		}
		k := r.Intn(5)
		if g.big {
			k += r.Intn(20)
		}
		for i := 0; i < k && len(ops) > 0; i++ {
			s += pick(r, ops...) + pick(r, "1", "2", "3")
		}
		return s
	case "first":
		return g.sample(r, n.C[r.Intn(len(n.C))], depth+1)
	case "base":
		if n.F&fThereExists != 0 {
			return g.sample(r, n.C[r.Intn(len(n.C))], depth+1)
		}
		s := ""
		k := 1
		if n.F&fTimes != 0 {
			k = n.N + r.Intn(2)
		}
		for i := 0; i < k; i++ {
			s += all(n.C)
		}
		return s
	case "doom":
		if r.Intn(2) == 0 {
			return ""
		}
		return all(n.C)
	case "opt":
		if r.Intn(3) == 0 {
			return ""
		}
		return all(n.C)
	case "star", "plus", "rep":
		k, lim := r.Intn(4), 60
		if g.long && r.Intn(3) != 0 {
			k += r.Intn(36)
		}
		if g.big {
			k, lim = k+r.Intn(600), 1500
			if depth > 3 {
				k = r.Intn(1 + k/10)
			}
		}
		if n.K == "plus" {
			k++
		}
		if n.K == "rep" && (!g.big || n.M >= 0) {
			k = n.N + r.Intn(2)
		}
		s := ""
		for i := 0; i < k && len(s) < lim; i++ {
			s += all(n.C)
		}
		return s
	case "la", "lan", "lb", "lbn", "err", "unm", "zero", "start", "end", "match":
		return ""
	case "ind":
		return g.sample(r, g.Rules[n.I], depth+2)
	case "if":
		return g.sample(r, n.C[n.N&1], depth+1)
	}
	return all(n.C)
}

func (g *Gram) sampleObj(r *Rand, n *Node, depth int) []int {
	if depth > 12 {
		return nil
	}
	var out []int
	all := func() {
		for _, x := range n.C {
			out = append(out, g.sampleObj(r, x, depth+1)...)
		}
	}
	switch n.K {
	case "oseq":
		return append(out, n.O...)
	case "oclass":
		if len(n.O) > 0 {
			return []int{n.O[r.Intn(len(n.O))]}
		}
		return nil
	case "oany", "oclassn":
		return []int{r.Intn(5)}
	case "oclassfn":
		return []int{n.N * r.Intn(3)}
	case "light", "raw":
		for i := 0; i < n.N; i++ {
			out = append(out, r.Intn(4))
		}
		return out
	case "first":
		return g.sampleObj(r, n.C[r.Intn(len(n.C))], depth+1)
	case "ind":
		return g.sampleObj(r, g.Rules[n.I], depth+2)
	case "star", "plus", "rep":
		k, lim := 1+r.Intn(3), 40
		if g.long && r.Intn(3) != 0 {
			k += r.Intn(22)
		}
		if g.big {
			k, lim = k+r.Intn(600), 1500
			if depth > 3 {
				k = r.Intn(1 + k/10)
			}
		}
		for i := 0; i < k && len(out) < lim; i++ {
			all()
		}
		return out
	case "la", "lan", "lb", "lbn", "err", "unm", "zero", "start", "oend", "match":
		return nil
	case "opt", "doom":
		if r.Intn(3) == 0 {
			return nil
		}
	}
	all()
	return out
}

func (g *Gram) source(r *Rand) (string, []int) {
	lim := 40
	if r.Intn(80) == 0 {
		g.big = true
		defer func() { g.big = false }()
		lim = 1500
	}
	if g.Obj {
		o := g.sampleObj(r, g.Rules[0], 0)
		for i := 0; i < r.Intn(3); i++ {
			if len(o) > 0 && r.Intn(2) == 0 {
				o[r.Intn(len(o))] = r.Intn(5)
			} else {
				o = append(o, r.Intn(5))
			}
		}
		if lim == 40 {
			lim = 24
		}
		if len(o) > lim {
			o = o[:lim]
		}
		return "", o
	}
	s := g.sample(r, g.Rules[0], 0)
	if len(s) > lim {
		s = s[:lim]
	}
	switch r.Intn(5) {
	case 0, 1:
	case 2:
		s += pick(r, chars...)
	default:
		for i := 0; i < 1+r.Intn(2); i++ {
			s = mutate(r, s)
		}
	}
	return strings.ToValidUTF8(s, "?"), nil
}

// tweak is op with a source that differs in one of the last characters or items only.
func (op Op) tweak(r *Rand) Op {
	if n := len(op.Obj); n > 0 {
		op.Obj = append([]int(nil), op.Obj...)
		op.Obj[n-1-r.Intn(minInt(n, 3))] = r.Intn(5)
	}
	if rs := []rune(op.Src); len(rs) > 0 {
		i := len(rs) - 1 - r.Intn(minInt(len(rs), 6))
		switch c := rs[i]; {
		case '0' <= c && c <= '9':
			rs[i] = '0' + (c-'0'+1+rune(r.Intn(3)))%10
		case 'a' <= c && c <= 'z':
			rs[i] = 'a' + rune(r.Intn(3))
		}
		op.Src = string(rs)
	}
	return op
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func mutate(r *Rand, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return pick(r, chars...)
	}
	i := r.Intn(len(rs))
	switch r.Intn(4) {
	case 0:
		rs = append(rs[:i], rs[i+1:]...)
	case 1:
		rs = append(rs[:i], append([]rune(pick(r, chars...)), rs[i:]...)...)
	case 2:
		rs[i] = []rune(pick(r, chars...))[0]
	default:
		n := len(rs)
		rs = append(rs, rs[i:]...)
		if n < 40 && len(rs) > 40 {
			rs = rs[:40]
		} else if n >= 40 {
			rs = rs[:n]
		}
	}
	return string(rs)
}

// ---- operations ----------------------------------------------------------------------

var csvTexts = []string{"a,b\r\n1,2\r\n", "\"x\"\"y\",z", " a , b \n", "\"q\nr\",,", "", "a,\"unterminated", "Foo,Bar,Baz\nx,y,3\n", "Foo,Baz\n1,zz\n", "é,日\n"}
var formTexts = []string{"1+2*3", "(1-2)*3/4", "2^3^2", "-(1)", "1/0", "1 +", "((1", "a", "3*-2", "", "1+2-3+4*5/(6-7)"}

func genFaults(r *Rand, kinds []string, n int) []Fault {
	var fs []Fault
	if len(kinds) == 0 {
		return nil
	}
	for i := 0; i < n; i++ {
		f := Fault{At: r.Intn(1 + r.Intn(25)), K: kinds[r.Intn(len(kinds))]}
		if (f.K == "err" || f.K == "panic") && r.Intn(3) == 0 {
			f.V = 1 + r.Intn(errKinds-1)
		}
		switch f.K {
		case "stall":
			f.N = int64(1+r.Intn(50)) * int64(1+r.Intn(2000))
		case "err":
			f.N = int64(r.Intn(3))
		case "far":
			f.N = int64(r.Intn(4))
		case "reent":
			f.N = int64(r.Intn(100))
		}
		fs = append(fs, f)
	}
	return fs
}

func genOp(r *Rand, g *Gram, kind string) Op {
	op := Op{K: kind}
	switch kind {
	case "parse", "build":
		op.Src, op.Obj = g.source(r)
		if g.Both && r.Intn(2) == 0 {
			op.Sl = true
			for range op.Src {
				op.Obj = append(op.Obj, r.Intn(5))
			}
			op.Src = ""
		}
		op.Cap = pick(r, -1, -1, 0, 0, 1, 2, 3, 8, 64)
		op.Pre = pick(r, 0, 0, 0, 1, 2, 3)
	case "csv", "unmarshal":
		op.Src = pick(r, csvTexts...)
		if r.Intn(2) == 0 {
			op.Src = mutate(r, op.Src)
		}
		if r.Intn(60) == 0 && op.Src != "" {
			op.Src = strings.Repeat(op.Src, 1+r.Intn(400/len(op.Src)))
		}
	case "formula", "torpn":
		op.Src = pick(r, formTexts...)
		if r.Intn(3) == 0 {
			op.Src = mutate(r, op.Src)
		}
		if r.Intn(60) == 0 {
			op.Src = strings.Repeat(op.Src+"+", 1+r.Intn(8)) + "1"
		}
	case "tocsv", "marshal":
		k := r.Intn(3)
		if r.Intn(60) == 0 {
			k = 20 + r.Intn(30)
		}
		for i := 0; i < k; i++ {
			op.Recs = append(op.Recs, csvRec{Foo: pick(r, chars...), Bar: pick(r, chars...) + "q", Baz: r.Intn(100) - 50, U: uint16(r.Intn(9)), F: float64(r.Intn(10)) / 2})
		}
		op.Cols = pick(r, []string{"Foo", "Bar", "Baz"}, []string{"Baz", "Foo"}, []string{"F", "U"}, []string{"Foo", "Bar", "Baz", "U", "F"})
	}
	return op
}

func mixedKind(r *Rand) string {
	if r.Intn(5) > 0 {
		return "parse"
	}
	return pick(r, "build", "csv", "csv", "formula", "formula", "torpn", "torpn", "tocsv", "marshal", "unmarshal")
}
