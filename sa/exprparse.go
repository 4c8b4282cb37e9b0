package main

import (
	"fmt"
	"strings"
)

// A parser for the expressions the targets emit. The text is a value graph
// whose unknown parts are holes; a hole that stands alone is an operand.

type Lang struct {
	Name    string
	Casts   bool // (type)operand
	Prefix  []string
	Bin     map[string]int // binary operator -> precedence (higher binds tighter)
	Right   map[string]bool
	Words   map[string]bool // operators spelled as words
	IncDec  bool
	PyCond  bool
	IfExpr  bool
	UnaryP  int // precedence at which the operand of a prefix operator is read
	notPrec int
}

var cBin = map[string]int{
	"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6,
	"<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10,
}

func withOps(m map[string]int, more map[string]int) map[string]int {
	out := map[string]int{}
	for k, v := range m {
		out[k] = v
	}
	for k, v := range more {
		out[k] = v
	}
	return out
}

func langOf(target string) *Lang {
	cpre := []string{"+", "-", "!", "~", "*", "&"}
	switch target {
	case "c", "cpp", "csharp", "java":
		l := &Lang{Name: target, Casts: true, Prefix: cpre, Bin: cBin, IncDec: true, UnaryP: 11}
		if target == "java" {
			l.Bin = withOps(cBin, map[string]int{">>>": 8})
		}
		return l
	case "commonjs", "esm":
		return &Lang{Name: target, Prefix: []string{"+", "-", "!", "~"}, IncDec: true, UnaryP: 12,
			Bin: withOps(cBin, map[string]int{">>>": 8, "===": 6, "!==": 6, "**": 11}), Right: map[string]bool{"**": true}}
	case "golang":
		return &Lang{Name: target, Prefix: []string{"+", "-", "!", "^", "*", "&"}, UnaryP: 11, IncDec: true,
			Bin: map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3,
				"+": 4, "-": 4, "|": 4, "^": 4, "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "&^": 5}}
	case "python":
		return &Lang{Name: target, Prefix: []string{"+", "-", "~", "not"}, PyCond: true, UnaryP: 11, notPrec: 3,
			Words: map[string]bool{"and": true, "or": true, "not": true, "if": true, "else": true, "is": true, "in": true},
			Bin: map[string]int{"or": 1, "and": 2, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4, "in": 4, "is": 4,
				"|": 5, "^": 6, "&": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "//": 10, "%": 10, "**": 12},
			Right: map[string]bool{"**": true}}
	case "kotlin":
		return &Lang{Name: target, Prefix: []string{"+", "-", "!"}, IncDec: true, IfExpr: true, UnaryP: 11,
			Words: map[string]bool{"and": true, "or": true, "xor": true, "shl": true, "shr": true, "ushr": true, "if": true, "else": true},
			Bin: map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 4, "<=": 4, ">": 4, ">=": 4,
				"and": 6, "or": 6, "xor": 6, "shl": 6, "shr": 6, "ushr": 6, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}}
	}
	return nil
}

// Node is an expression of the emitted language.
type Node struct {
	Kind string // hole atom bin un paren call member index cast cond
	Text string // operator, atom text, member name
	X    *X     // hole
	Kids []*Node
}

func (n *Node) String() string {
	switch n.Kind {
	case "hole":
		return "‹" + n.X.String() + "›"
	case "atom":
		return n.Text
	case "paren":
		return "(" + n.Kids[0].String() + ")"
	}
	var ks []string
	for _, k := range n.Kids {
		ks = append(ks, k.String())
	}
	return n.Kind + "'" + n.Text + "'[" + strings.Join(ks, ", ") + "]"
}

// bare removes parentheses.
func (n *Node) bare() *Node {
	for n.Kind == "paren" {
		n = n.Kids[0]
	}
	return n
}

type tok struct {
	k string // op word num str hole end
	s string
	x *X
}

const holeOpen, holeClose = "\x01", "\x02"

// textOf flattens a text value into a string with numbered holes.
func textOf(x *X) (string, []*X) {
	var b strings.Builder
	var holes []*X
	var add func(y *X)
	add = func(y *X) {
		switch y.Op {
		case "str":
			b.WriteString(y.Lit)
		case "int":
			b.WriteString(y.Lit)
		case "cat":
			for _, a := range y.Args {
				add(a)
			}
		default:
			fmt.Fprintf(&b, "%s%d%s", holeOpen, len(holes), holeClose)
			holes = append(holes, y)
		}
	}
	add(x)
	return b.String(), holes
}

var puncts = []string{">>>=", "===", "!==", "**=", "<<=", ">>=", ">>>", "...", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "**", "//", "++", "--", "->", "?.", "&^", "::", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "=>", ":="}

func isWordByte(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func (l *Lang) lex(text string, holes []*X) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(text) {
		c := text[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(text) && text[j] != c {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(text) {
				return nil, fmt.Errorf("unterminated string in %q", text)
			}
			out = append(out, tok{k: "str", s: text[i : j+1]})
			i = j + 1
		case isWordByte(c) || c == holeOpen[0]:
			j := i
			digits := c >= '0' && c <= '9'
			nh, last := 0, 0
			for j < len(text) && (isWordByte(text[j]) || text[j] == holeOpen[0] || digits && text[j] == '.' && j+1 < len(text) && text[j+1] >= '0' && text[j+1] <= '9') {
				if text[j] == holeOpen[0] {
					e := strings.Index(text[j:], holeClose)
					fmt.Sscanf(text[j+1:j+e], "%d", &last)
					j += e + 1
					nh++
					continue
				}
				j++
			}
			w := text[i:j]
			switch {
			case nh == 1 && w == fmt.Sprintf("%s%d%s", holeOpen, last, holeClose):
				out = append(out, tok{k: "hole", x: holes[last]})
			case digits && nh == 0:
				out = append(out, tok{k: "num", s: w})
			default:
				// spell the holes inside the word
				for h := range holes {
					w = strings.ReplaceAll(w, fmt.Sprintf("%s%d%s", holeOpen, h, holeClose), "‹"+holes[h].String()+"›")
				}
				out = append(out, tok{k: "word", s: w})
			}
			i = j
		default:
			m := ""
			for _, p := range puncts {
				if strings.HasPrefix(text[i:], p) && (p != "//" || l.Name == "python") {
					m = p
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{k: "op", s: m})
			i += len(m)
		}
	}
	return append(out, tok{k: "end"}), nil
}

type exprParser struct {
	l    *Lang
	toks []tok
	p    int
	err  error
}

// ParseExpr parses one complete expression.
func (l *Lang) ParseExpr(x *X) (*Node, error) {
	text, holes := textOf(x)
	toks, err := l.lex(text, holes)
	if err != nil {
		return nil, err
	}
	p := &exprParser{l: l, toks: toks}
	n := p.expr(0)
	if p.err == nil && p.cur().k != "end" {
		p.fail("unexpected " + p.cur().show())
	}
	return n, p.err
}

func (t tok) show() string {
	if t.k == "hole" {
		return "‹" + t.x.String() + "›"
	}
	if t.k == "end" {
		return "end"
	}
	return "`" + t.s + "`"
}

func (p *exprParser) cur() tok { return p.toks[p.p] }
func (p *exprParser) next() tok {
	t := p.toks[p.p]
	if t.k != "end" {
		p.p++
	}
	return t
}
func (p *exprParser) fail(s string) {
	if p.err == nil {
		p.err = fmt.Errorf("%s", s)
	}
}
func (p *exprParser) is(s string) bool {
	t := p.cur()
	return (t.k == "op" || t.k == "word") && t.s == s
}
func (p *exprParser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *exprParser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected `" + s + "`, found " + p.cur().show())
	}
}

func (p *exprParser) binop() (string, int) {
	t := p.cur()
	if t.k == "op" || t.k == "word" && p.l.Words[t.s] {
		if pr, ok := p.l.Bin[t.s]; ok {
			return t.s, pr
		}
	}
	return "", 0
}

// expr reads an expression whose binary operators all bind at least as tightly as min; min 0 admits conditionals.
func (p *exprParser) expr(min int) *Node {
	left := p.unary()
	for p.err == nil {
		op, pr := p.binop()
		if op == "" || pr < min {
			break
		}
		p.next()
		sub := pr + 1
		if p.l.Right[op] {
			sub = pr
		}
		right := p.expr(sub)
		left = &Node{Kind: "bin", Text: op, Kids: []*Node{left, right}}
	}
	if min == 0 && p.err == nil {
		if p.l.PyCond && p.accept("if") {
			c := p.expr(1)
			p.expect("else")
			b := p.expr(0)
			return &Node{Kind: "cond", Kids: []*Node{c, left, b}}
		}
		if !p.l.PyCond && p.accept("?") {
			a := p.expr(0)
			p.expect(":")
			b := p.expr(0)
			return &Node{Kind: "cond", Kids: []*Node{left, a, b}}
		}
	}
	return left
}

func (p *exprParser) unary() *Node {
	t := p.cur()
	if p.err != nil {
		return &Node{Kind: "atom"}
	}
	if t.k == "op" && (t.s == "++" || t.s == "--") {
		p.fail("`" + t.s + "` where two signs meet")
		return &Node{Kind: "atom"}
	}
	if t.k == "op" || t.k == "word" && p.l.Words[t.s] {
		for _, o := range p.l.Prefix {
			if o == t.s {
				p.next()
				pr := p.l.UnaryP
				if o == "not" {
					pr = p.l.notPrec
				}
				var k *Node
				if pr <= 10 || p.l.Name == "python" {
					k = p.expr(pr)
				} else {
					k = p.unary()
				}
				if !p.l.Right["**"] || p.l.Name == "python" {
				} else if p.is("**") {
					p.fail("the left operand of ** may not start with a sign")
				}
				return &Node{Kind: "un", Text: o, Kids: []*Node{k}}
			}
		}
	}
	return p.postfix(p.primary())
}

func (p *exprParser) startsOperand() bool {
	t := p.cur()
	switch t.k {
	case "hole", "num", "str":
		return true
	case "word":
		return !p.l.Words[t.s]
	case "op":
		return t.s == "(" || t.s == "!" || t.s == "~"
	}
	return false
}

// typeAhead: "(" words/holes/stars ")" followed by an operand reads as a cast.
func (p *exprParser) typeAhead() int {
	if !p.l.Casts || !p.is("(") {
		return 0
	}
	i := p.p + 1
	n := 0
	for p.toks[i].k == "word" || p.toks[i].k == "hole" || p.toks[i].k == "op" && (p.toks[i].s == "*" || p.toks[i].s == "::" || p.toks[i].s == "." || p.toks[i].s == "&") {
		if n > 0 && p.toks[i].k == "op" && p.toks[i].s == "&" {
			return 0
		}
		i++
		n++
	}
	if n == 0 || p.toks[i].k != "op" || p.toks[i].s != ")" {
		return 0
	}
	save := p.p
	p.p = i + 1
	ok := p.startsOperand() || p.is("-") || p.is("+")
	// (a) - b is a subtraction unless a names a type
	if ok && !p.startsOperand() {
		ok = false
	}
	p.p = save
	if !ok {
		return 0
	}
	return i
}

func (p *exprParser) primary() *Node {
	t := p.cur()
	switch t.k {
	case "hole":
		p.next()
		return &Node{Kind: "hole", X: t.x}
	case "num", "str":
		p.next()
		return &Node{Kind: "atom", Text: t.s}
	case "word":
		if p.l.IfExpr && t.s == "if" {
			p.next()
			p.expect("(")
			c := p.expr(0)
			p.expect(")")
			a := p.expr(0)
			p.expect("else")
			b := p.expr(0)
			return &Node{Kind: "cond", Kids: []*Node{c, a, b}}
		}
		if p.l.Name == "golang" && t.s == "func" {
			return p.goFunc()
		}
		if p.l.Words[t.s] {
			p.fail("unexpected `" + t.s + "`")
		}
		p.next()
		return &Node{Kind: "atom", Text: t.s}
	case "op":
		if t.s == "(" {
			if end := p.typeAhead(); end > 0 {
				ty := &Node{Kind: "type"}
				for i := p.p + 1; i < end; i++ {
					if p.toks[i].k == "hole" {
						ty.Kids = append(ty.Kids, &Node{Kind: "hole", X: p.toks[i].x})
					} else {
						ty.Kids = append(ty.Kids, &Node{Kind: "atom", Text: p.toks[i].s})
					}
				}
				p.p = end + 1
				return &Node{Kind: "cast", Kids: []*Node{ty, p.unary()}}
			}
			p.next()
			n := p.expr(0)
			p.expect(")")
			return &Node{Kind: "paren", Kids: []*Node{n}}
		}
	}
	p.fail("expected an operand, found " + t.show())
	return &Node{Kind: "atom"}
}

// goFunc reads func() T { if c { return a } else { return b } } and its call.
func (p *exprParser) goFunc() *Node {
	p.next()
	p.expect("(")
	p.expect(")")
	for p.err == nil && !p.is("{") && p.cur().k != "end" {
		p.next()
	}
	p.expect("{")
	p.expect("if")
	c := p.expr(0)
	p.expect("{")
	p.expect("return")
	a := p.expr(0)
	p.accept(";")
	p.expect("}")
	if p.accept("else") {
		p.expect("{")
		p.expect("return")
	} else {
		p.accept(";")
		p.expect("return")
	}
	b := p.expr(0)
	p.accept(";")
	p.accept("}")
	if !p.is("(") {
		p.expect("}")
	}
	p.expect("(")
	p.expect(")")
	return &Node{Kind: "paren", Kids: []*Node{{Kind: "cond", Kids: []*Node{c, a, b}}}}
}

func (p *exprParser) args(close string) []*Node {
	var out []*Node
	for p.err == nil && !p.is(close) {
		out = append(out, p.expr(0))
		if !p.accept(",") {
			break
		}
	}
	p.expect(close)
	return out
}

func (p *exprParser) postfix(n *Node) *Node {
	if n.Kind == "cast" || n.Kind == "cond" {
		return n
	}
	for p.err == nil {
		switch {
		case p.accept("("):
			n = &Node{Kind: "call", Kids: append([]*Node{n}, p.args(")")...)}
		case p.accept("["):
			i := p.expr(0)
			if p.accept(":") {
				// slice
				var j *Node = &Node{Kind: "atom", Text: ""}
				if !p.is("]") {
					j = p.expr(0)
				}
				p.expect("]")
				n = &Node{Kind: "slice", Kids: []*Node{n, i, j}}
				continue
			}
			p.expect("]")
			n = &Node{Kind: "index", Kids: []*Node{n, i}}
		case p.is(".") || p.is("->") || p.is("?.") || p.is("::"):
			op := p.next().s
			t := p.next()
			if t.k != "word" && t.k != "hole" {
				p.fail("expected a member name, found " + t.show())
				return n
			}
			name := t.s
			if t.k == "hole" {
				name = "‹" + t.x.String() + "›"
			}
			_ = op
			n = &Node{Kind: "member", Text: name, X: t.x, Kids: []*Node{n}}
		default:
			return n
		}
	}
	return n
}

// closed: nothing written next to the expression can take part of it away.
func (n *Node) closed() bool {
	switch n.Kind {
	case "paren", "call", "member", "index", "slice", "atom", "hole":
		return true
	case "cast":
		return n.Kids[1].closed()
	}
	return false
}

// dotted spells a chain of names: Math.pow.
func (n *Node) dotted() string {
	switch n.Kind {
	case "atom":
		return n.Text
	case "member":
		if d := n.Kids[0].dotted(); d != "" {
			return d + "." + n.Text
		}
	}
	return ""
}
