package main

import (
	"fmt"
	"os"
	"strings"
	"unicode"
)

// Front end for the emitted code: a tokenizer and a parser for the part of C,
// C++, C#, Java, JavaScript, Kotlin, Go and Python the generators emit inside
// codec functions and runtime helpers.

type tlTok struct {
	k    byte // i ident, n number, s string, c char, p punctuation, e end
	s    string
	line int
}

type tnd struct {
	op   string
	s    string
	k    []*tnd
	line int
}

func (x *tnd) String() string {
	if x == nil {
		return "·"
	}
	var b strings.Builder
	b.WriteString(x.op)
	if x.s != "" {
		b.WriteString(":" + x.s)
	}
	if len(x.k) > 0 {
		b.WriteByte('(')
		for i, k := range x.k {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(k.String())
		}
		b.WriteByte(')')
	}
	return b.String()
}

type tlErr struct{ msg string }

func tlFail(line int, f string, a ...any) {
	panic(tlErr{fmt.Sprintf("line %d: ", line) + fmt.Sprintf(f, a...)})
}

var tlPuncts = []string{">>>=", "...", "===", "!==", "<<=", ">>=", ">>>", "&^=", "**=", "//=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "&^", ":=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "++", "--", "!!", "?:", "?.", "**", "[[", "]]"}

func tlLex(lang, src string) []tlTok {
	var out []tlTok
	line := 1
	indents := []int{0}
	depth := 0
	py := lang == "python"
	semi := lang == "go" || lang == "kotlin"
	i := 0
	atLine := true
	last := func() tlTok {
		if len(out) == 0 {
			return tlTok{}
		}
		return out[len(out)-1]
	}
	emit := func(k byte, s string) { out = append(out, tlTok{k, s, line}) }
	for i < len(src) {
		if py && atLine && depth == 0 {
			j, n := i, 0
			for j < len(src) && (src[j] == ' ' || src[j] == '\t') {
				j++
				n++
			}
			if j < len(src) && (src[j] == '\n' || src[j] == '#') {
				for j < len(src) && src[j] != '\n' {
					j++
				}
				i = j + 1
				line++
				continue
			}
			for n < indents[len(indents)-1] {
				indents = indents[:len(indents)-1]
				emit('p', "}")
			}
			if n > indents[len(indents)-1] {
				indents = append(indents, n)
				emit('p', "{")
			}
			i = j
			atLine = false
			continue
		}
		c := src[i]
		switch {
		case c == '\n':
			if py && depth == 0 {
				if l := last(); l.s != ";" && l.s != "{" && l.s != "}" && l.s != ":" || l.k == 's' {
					emit('p', ";")
				}
				atLine = true
			}
			if semi {
				l := last()
				if l.k == 'i' || l.k == 'n' || l.k == 's' || l.k == 'c' || l.k == 'p' && (l.s == ")" || l.s == "]" || l.s == "}" || l.s == "++" || l.s == "--" || l.s == "!!") {
					emit('p', ";")
				}
			}
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//") && !py:
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '#' && (py || lang == "c" || lang == "cpp" || lang == "csharp"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*") && !py:
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				tlFail(line, "unterminated comment")
			}
			line += strings.Count(src[i:i+2+j+2], "\n")
			i += j + 4
		case py && (strings.HasPrefix(src[i:], `"""`) || strings.HasPrefix(src[i:], `'''`)):
			j := strings.Index(src[i+3:], src[i:i+3])
			if j < 0 {
				tlFail(line, "unterminated string")
			}
			emit('s', src[i+3:i+3+j])
			line += strings.Count(src[i:i+6+j], "\n")
			i += j + 6
		case c == '"' || c == '\'' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			k := byte('s')
			if c == '\'' && (lang == "c" || lang == "cpp" || lang == "csharp" || lang == "java" || lang == "go" || lang == "kotlin") {
				k = 'c'
			}
			if j > len(src) {
				j = len(src)
			}
			emit(k, src[i+1:j])
			line += strings.Count(src[i:j], "\n")
			i = j + 1
		case c >= '0' && c <= '9' || strings.HasPrefix(src[i:], "⟦"):
			j := i
			if strings.HasPrefix(src[i:], "⟦") {
				j = i + strings.Index(src[i:], "⟧") + len("⟧")
				emit('n', src[i:j])
				// a suffix such as L
				for j < len(src) && (src[j] == 'L' || src[j] == 'u' || src[j] == 'U') {
					j++
				}
				i = j
				break
			}
			hex := strings.HasPrefix(src[i:], "0x") || strings.HasPrefix(src[i:], "0X")
			for j < len(src) {
				d := src[j]
				if d >= '0' && d <= '9' || d >= 'a' && d <= 'z' || d >= 'A' && d <= 'Z' || d == '_' {
					j++
					continue
				}
				if d == '.' && !hex && j+1 < len(src) && src[j+1] >= '0' && src[j+1] <= '9' {
					j++
					continue
				}
				if (d == '+' || d == '-') && !hex && (src[j-1] == 'e' || src[j-1] == 'E') {
					j++
					continue
				}
				break
			}
			emit('n', src[i:j])
			i = j
		default:
			r := []rune(src[i:min(len(src), i+8)])[0]
			if r == '_' || r == '$' || r == '@' || unicode.IsLetter(r) || strings.HasPrefix(src[i:], "⟪") {
				j := i
				for j < len(src) {
					rest := src[j:]
					if strings.HasPrefix(rest, "⟦") {
						j += strings.Index(rest, "⟧") + len("⟧")
						continue
					}
					if strings.HasPrefix(rest, "⟪") {
						j += strings.Index(rest, "⟫") + len("⟫")
						continue
					}
					d := rest[0]
					if d == '_' || d == '$' || d == '@' || d >= '0' && d <= '9' || d >= 'a' && d <= 'z' || d >= 'A' && d <= 'Z' {
						j++
						continue
					}
					break
				}
				emit('i', src[i:j])
				i = j
				break
			}
			p := ""
			for _, q := range tlPuncts {
				if !strings.HasPrefix(src[i:], q) {
					continue
				}
				switch q {
				case "&^", "&^=":
					if lang != "go" {
						continue
					}
				case "!!", "?:":
					if lang != "kotlin" {
						continue
					}
				case "//=", "**", "**=":
					if !py {
						continue
					}
				case "[[", "]]":
					continue
				case ">>>", ">>>=":
					if lang == "go" || py || lang == "c" || lang == "cpp" || lang == "csharp" {
						continue
					}
				case "?.":
					if lang != "kotlin" && lang != "csharp" && lang != "commonjs" {
						continue
					}
				}
				p = q
				break
			}
			if py && strings.HasPrefix(src[i:], "//") && p == "" {
				p = "//"
			}
			if p == "" {
				p = src[i : i+len(string(r))]
			}
			switch p {
			case "(", "[":
				depth++
			case ")", "]":
				depth--
			case "{", "}":
				if py && p == "{" {
					depth++
				} else if py {
					depth--
				}
			}
			emit('p', p)
			i += len(p)
		}
	}
	if py {
		emit('p', ";")
		for len(indents) > 1 {
			indents = indents[:len(indents)-1]
			emit('p', "}")
		}
	}
	return append(out, tlTok{'e', "", line})
}

type tlParam struct{ name, typ string }

type tlFn struct {
	file   *tlFile
	class  string
	name   string
	params []tlParam
	body   []tlTok
	expr   bool // Kotlin: body is an expression
	line   int
	parsed *tnd
}

type tlFile struct {
	lang  string
	name  string
	types map[string]bool
	fns   []*tlFn
	toks  []tlTok
	text  string
}

var tlBuiltin = map[string]bool{}

func init() {
	for _, s := range strings.Fields("void bool char float double size_t uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t byte sbyte short ushort int uint long ulong boolean string String unsigned signed object Object") {
		tlBuiltin[s] = true
	}
}

func match(t []tlTok, i int) int {
	open := t[i].s
	cl := map[string]string{"(": ")", "[": "]", "{": "}"}[open]
	d := 0
	for ; i < len(t); i++ {
		if t[i].k != 'p' {
			continue
		}
		if t[i].s == open {
			d++
		} else if t[i].s == cl {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return -1
}

var tlKw = map[string]bool{"if": true, "while": true, "for": true, "switch": true, "catch": true, "return": true, "sizeof": true, "do": true, "else": true, "new": true, "when": true, "elif": true, "not": true, "and": true, "or": true, "in": true, "lambda": true, "function": true, "using": true, "lock": true, "unchecked": true, "typeof": true}

// scanFile finds every function of an emitted file.
func tlScan(lang, name, src string, types map[string]bool) (f *tlFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(tlErr); ok {
				err = fmt.Errorf("%s: %s", name, e.msg)
				return
			}
			panic(r)
		}
	}()
	f = &tlFile{lang: lang, name: name, types: types, text: src}
	t := tlLex(lang, src)
	f.toks = t
	type cls struct {
		name string
		end  int
	}
	var stack []cls
	curClass := func() string {
		for i := len(stack) - 1; i >= 0; i-- {
			if stack[i].name != "" {
				return stack[i].name
			}
		}
		return ""
	}
	for i := 0; i < len(t); i++ {
		for len(stack) > 0 && i > stack[len(stack)-1].end {
			stack = stack[:len(stack)-1]
		}
		if t[i].k != 'i' {
			continue
		}
		switch t[i].s {
		case "class", "struct", "interface", "enum":
			if (t[i].s != "enum" || lang == "java") && i+1 < len(t) && t[i+1].k == 'i' && lang != "go" {
				j := i + 2
				for j < len(t) && t[j].s != "{" && t[j].s != ";" && t[j].s != ")" && t[j].s != "," && t[j].s != "=" && t[j].s != "*" {
					if t[j].s == "(" {
						j = match(t, j)
					}
					j++
				}
				if j < len(t) && t[j].s == "{" {
					if e := match(t, j); e > 0 {
						stack = append(stack, cls{t[i+1].s, e})
						i = j
					}
				}
				continue
			}
		case "companion":
			if lang == "kotlin" {
				continue
			}
		}
		add := func(class, fname string, po, pc, bo int) {
			bc := match(t, bo)
			if bc < 0 {
				return
			}
			f.fns = append(f.fns, &tlFn{file: f, class: class, name: fname, params: tlParams(lang, t[po+1:pc]), body: append(append([]tlTok(nil), t[bo+1:bc]...), tlTok{'e', "", t[bc].line}), line: t[i].line})
		}
		switch lang {
		case "go":
			if t[i].s != "func" {
				continue
			}
			class := ""
			j := i + 1
			if t[j].s == "(" {
				c := match(t, j)
				for k := j + 1; k < c; k++ {
					if t[k].k == 'i' {
						class = t[k].s
					}
				}
				j = c + 1
			}
			if t[j].k != 'i' || t[j+1].s != "(" {
				continue
			}
			pc := match(t, j+1)
			bo := pc + 1
			for bo < len(t) && t[bo].s != "{" && t[bo].s != ";" {
				bo++
			}
			if t[bo].s == "{" {
				add(class, t[j].s, j+1, pc, bo)
				i = match(t, bo)
			}
		case "kotlin":
			if t[i].s != "fun" || t[i+1].k != 'i' || t[i+2].s != "(" {
				continue
			}
			pc := match(t, i+2)
			bo := pc + 1
			for bo < len(t) && t[bo].s != "{" && t[bo].s != ";" && t[bo].s != "=" {
				bo++
			}
			if t[bo].s == "{" {
				add(curClass(), t[i+1].s, i+2, pc, bo)
				i = match(t, bo)
			} else if t[bo].s == "=" {
				e := bo + 1
				for e < len(t) && t[e].s != ";" {
					if t[e].s == "{" || t[e].s == "(" {
						e = match(t, e)
					}
					e++
				}
				f.fns = append(f.fns, &tlFn{file: f, class: curClass(), name: t[i+1].s, params: tlParams(lang, t[i+3:pc]), body: append(append([]tlTok(nil), t[bo+1:e]...), tlTok{'e', "", t[e].line}), expr: true, line: t[i].line})
				i = e
			}
		case "python":
			if t[i].s != "def" {
				continue
			}
			pc := match(t, i+2)
			bo := pc + 1
			for bo < len(t) && t[bo].s != "{" {
				bo++
			}
			if bo < len(t) {
				add(curClass(), t[i+1].s, i+2, pc, bo)
				i = match(t, bo)
			}
		case "commonjs", "esm":
			if t[i].s == "function" {
				j := i + 1
				fname := ""
				if t[j].k == 'i' {
					fname = t[j].s
					j++
				}
				if t[j].s != "(" {
					continue
				}
				pc := match(t, j)
				if t[pc+1].s != "{" {
					continue
				}
				class := ""
				if fname == "" {
					// X.name = function or X.prototype.name = function
					if i >= 4 && t[i-1].s == "=" && t[i-2].k == 'i' && t[i-3].s == "." && t[i-4].k == 'i' {
						fname, class = t[i-2].s, t[i-4].s
						if class == "prototype" && i >= 6 {
							class = t[i-6].s + "#proto"
						}
					} else {
						continue
					}
				}
				add(class, fname, j, pc, pc+1)
				if class != "" || strings.HasPrefix(fname, "bb") {
					i = match(t, pc+1)
				}
				continue
			}
			if len(stack) > 0 && stack[len(stack)-1].name != "" && i+1 < len(t) && t[i+1].s == "(" && !tlKw[t[i].s] {
				pc := match(t, i+1)
				if pc > 0 && pc+1 < len(t) && t[pc+1].s == "{" {
					c := curClass()
					if i > 0 && t[i-1].s != "static" {
						c += "#proto"
					}
					add(c, t[i].s, i+1, pc, pc+1)
					i = match(t, pc+1)
				}
			}
		default:
			if i+1 >= len(t) || t[i+1].s != "(" || tlKw[t[i].s] || i == 0 {
				continue
			}
			if t[i-1].k == 'p' && t[i-1].s != "::" && t[i-1].s != "*" && t[i-1].s != ">" && t[i-1].s != "]" && t[i-1].s != "&" {
				continue
			}
			if t[i-1].s == "new" || t[i-1].s == "return" {
				continue
			}
			pc := match(t, i+1)
			if pc < 0 {
				continue
			}
			bo := pc + 1
			for bo < len(t) && t[bo].k == 'i' && (t[bo].s == "const" || t[bo].s == "override" || t[bo].s == "noexcept") {
				bo++
			}
			if bo >= len(t) || t[bo].s != "{" {
				continue
			}
			class := curClass()
			if t[i-1].s == "::" && t[i-2].k == 'i' {
				class = t[i-2].s
			}
			add(class, t[i].s, i+1, pc, bo)
			i = match(t, bo)
		}
	}
	return f, nil
}

func tlParams(lang string, t []tlTok) []tlParam {
	var out []tlParam
	var cur []tlTok
	d := 0
	flush := func() {
		if len(cur) == 0 {
			return
		}
		var p tlParam
		cut := len(cur)
		for i, k := range cur {
			if k.s == "=" {
				cut = i
				break
			}
		}
		c := cur[:cut]
		text := func(x []tlTok) string {
			s := ""
			for _, k := range x {
				if k.s == "const" {
					continue
				}
				s += k.s
			}
			return s
		}
		switch lang {
		case "go":
			p.name, p.typ = c[0].s, text(c[1:])
		case "kotlin", "python":
			p.name = c[0].s
			if len(c) > 2 {
				p.typ = text(c[2:])
			}
		case "commonjs", "esm":
			p.name = c[0].s
		default:
			p.name, p.typ = c[len(c)-1].s, text(c[:len(c)-1])
		}
		out = append(out, p)
		cur = nil
	}
	for _, k := range t {
		if k.k == 'p' {
			switch k.s {
			case "(", "[", "<", "{":
				d++
			case ")", "]", ">", "}":
				d--
			}
		}
		if k.s == "," && d == 0 {
			flush()
			continue
		}
		cur = append(cur, k)
	}
	flush()
	if lang == "go" {
		for i := len(out) - 2; i >= 0; i-- {
			if out[i].typ == "" {
				out[i].typ = out[i+1].typ
			}
		}
	}
	return out
}

func (fn *tlFn) tree() *tnd {
	if fn.parsed == nil {
		p := &tlParser{lang: fn.file.lang, t: fn.body, types: fn.file.types}
		if fn.expr {
			fn.parsed = &tnd{op: "block", k: []*tnd{{op: "ret", k: []*tnd{p.expr()}}}}
		} else {
			fn.parsed = p.block()
		}
	}
	return fn.parsed
}

type tlParser struct {
	lang  string
	t     []tlTok
	i     int
	types map[string]bool
	noLit bool
}

func (p *tlParser) cur() tlTok { return p.t[p.i] }
func (p *tlParser) peek(n int) tlTok {
	if p.i+n < len(p.t) {
		return p.t[p.i+n]
	}
	return tlTok{'e', "", 0}
}
func (p *tlParser) is(s string) bool {
	c := p.cur()
	return c.s == s && (c.k == 'p' || c.k == 'i')
}
func (p *tlParser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *tlParser) need(s string) {
	if !p.acc(s) {
		tlFail(p.cur().line, "expected %q, found %q", s, p.cur().s)
	}
}
func (p *tlParser) node(op, s string, k ...*tnd) *tnd {
	return &tnd{op: op, s: s, k: k, line: p.cur().line}
}

func (p *tlParser) block() *tnd {
	n := p.node("block", "")
	for p.cur().k != 'e' && !p.is("}") {
		if p.acc(";") {
			continue
		}
		n.k = append(n.k, p.stmt())
	}
	return n
}

func (p *tlParser) suite() *tnd {
	if p.lang == "python" {
		p.need(":")
		if p.acc("{") {
			b := p.block()
			p.need("}")
			return b
		}
		if p.acc(";") {
			p.need("{")
			b := p.block()
			p.need("}")
			return b
		}
		s := p.stmt()
		return &tnd{op: "block", k: []*tnd{s}, line: s.line}
	}
	if p.acc("{") {
		b := p.block()
		p.need("}")
		return b
	}
	s := p.stmt()
	return &tnd{op: "block", k: []*tnd{s}, line: s.line}
}

func (p *tlParser) end() {
	if p.acc(";") {
		return
	}
	if p.is("}") || p.cur().k == 'e' || p.is(")") {
		return
	}
	if p.lang == "kotlin" && p.is("else") {
		return
	}
	if (p.lang == "commonjs" || p.lang == "esm") && p.i > 0 && p.cur().line > p.t[p.i-1].line {
		return
	}
	tlFail(p.cur().line, "expected the end of a statement, found %q", p.cur().s)
}

func (p *tlParser) clike() bool {
	switch p.lang {
	case "c", "cpp", "csharp", "java":
		return true
	}
	return false
}

// tryType parses a C-like type and returns its text.
func (p *tlParser) tryType() (string, bool) {
	save := p.i
	fail := func() (string, bool) { p.i = save; return "", false }
	for p.cur().k == 'i' && (p.is("const") || p.is("static") || p.is("final") || p.is("struct") || p.is("enum") || p.is("volatile") || p.is("inline")) {
		p.i++
	}
	p.acc("::")
	if p.cur().k != 'i' || tlKw[p.cur().s] {
		return fail()
	}
	base := p.cur().s
	p.i++
	if base == "unsigned" || base == "signed" {
		for p.cur().k == 'i' && (p.is("char") || p.is("int") || p.is("long") || p.is("short")) {
			base += " " + p.cur().s
			p.i++
		}
	}
	for p.is("::") || p.is(".") && p.clike() && p.lang != "c" {
		if p.peek(1).k != 'i' {
			break
		}
		base += "." + p.peek(1).s
		p.i += 2
	}
	leaf := base[strings.LastIndex(base, ".")+1:]
	generic := false
	if p.is("<") {
		d := 0
		j := p.i
		for ; j < len(p.t) && j < p.i+20; j++ {
			k := p.t[j]
			if k.s == "<" {
				d++
			} else if k.s == ">" {
				d--
			} else if k.s == ">>" {
				d -= 2
			} else if k.k == 'n' || k.k == 's' || k.s == ";" || k.s == "(" && d > 0 && false {
				break
			}
			if d <= 0 {
				break
			}
		}
		if j < len(p.t) && d <= 0 && (p.t[j].s == ">" || p.t[j].s == ">>") {
			s := ""
			for k := p.i; k <= j; k++ {
				if p.t[k].s != "const" {
					s += p.t[k].s
				}
			}
			base += s
			p.i = j + 1
			generic = true
		}
	}
	if !generic && !tlBuiltin[leaf] && !p.types[leaf] && leaf != "auto" && leaf != "var" && leaf != "let" {
		return fail()
	}
	if generic {
		switch leaf {
		case "span", "shared_ptr", "unique_ptr", "vector", "array", "Memory", "Span", "ReadOnlySpan", "ReadOnlyMemory", "List", "ArraySegment":
		default:
			return fail()
		}
	}
	for {
		switch {
		case p.acc("const"):
		case p.acc("*"):
			base += "*"
		case p.acc("&"):
			base += "&"
		case p.is("[") && p.peek(1).s == "]":
			p.i += 2
			base += "[]"
		case p.is("?") && p.lang == "csharp" && p.peek(1).k == 'i':
			p.i++
		default:
			return base, true
		}
	}
}

func (p *tlParser) stmt() *tnd {
	line := p.cur().line
	n := p.stmt0()
	n.line = line
	return n
}

func (p *tlParser) cond() *tnd {
	if p.lang == "go" || p.lang == "python" {
		s := p.noLit
		p.noLit = true
		e := p.expr()
		p.noLit = s
		return e
	}
	p.need("(")
	e := p.comma()
	p.need(")")
	return e
}

func (p *tlParser) stmt0() *tnd {
	c := p.cur()
	if c.k == 'p' && c.s == "{" && p.lang != "python" {
		p.i++
		b := p.block()
		p.need("}")
		return b
	}
	if c.k == 'i' {
		switch c.s {
		case "if", "elif":
			p.i++
			if p.lang == "cpp" {
				p.acc("constexpr")
			}
			cd := p.cond()
			th := p.suite()
			n := p.node("if", "", cd, th)
			save := p.i
			for p.is(";") && p.lang == "kotlin" {
				p.i++
			}
			if p.is("elif") {
				n.k = append(n.k, p.stmt())
				return n
			}
			if p.acc("else") {
				n.k = append(n.k, p.suite())
			} else {
				p.i = save
			}
			return n
		case "while":
			p.i++
			cd := p.cond()
			return p.node("while", "", cd, p.suite())
		case "do":
			if p.lang == "python" || p.lang == "go" {
				break
			}
			p.i++
			b := p.suite()
			p.acc(";")
			p.need("while")
			cd := p.cond()
			p.end()
			return p.node("dowhile", "", b, cd)
		case "for":
			return p.forStmt()
		case "return":
			p.i++
			n := p.node("ret", "")
			if !p.is(";") && !p.is("}") && p.cur().k != 'e' {
				e := p.comma()
				if e.op == "comma" && p.lang == "python" {
					e.op = "tuple"
				}
				n.k = append(n.k, e)
			}
			p.end()
			return n
		case "break", "continue":
			p.i++
			p.end()
			return p.node(c.s, "")
		case "pass":
			p.i++
			p.end()
			return p.node("block", "")
		case "run":
			if p.lang == "kotlin" && p.peek(1).s == "{" {
				p.i += 2
				b := p.block()
				p.need("}")
				return b
			}
		case "throw", "raise":
			p.i++
			e := p.expr()
			p.end()
			return p.node("throw", "", e)
		case "var", "val", "let", "const":
			switch p.lang {
			case "kotlin":
				p.i++
				n := p.node("decl", p.cur().s)
				p.i++
				ty := ""
				if p.acc(":") {
					for !p.is("=") && !p.is(";") && p.cur().k != 'e' {
						ty += p.cur().s
						p.i++
					}
				}
				n.k = append(n.k, &tnd{op: "type", s: ty})
				if p.acc("=") {
					n.k = append(n.k, p.expr())
				}
				p.end()
				return n
			case "go":
				p.i++
				n := p.node("decl", p.cur().s)
				p.i++
				ty := ""
				for !p.is("=") && !p.is(";") && !p.is("}") && p.cur().k != 'e' {
					ty += p.cur().s
					p.i++
				}
				n.k = append(n.k, &tnd{op: "type", s: ty})
				if p.acc("=") {
					n.k = append(n.k, p.expr())
				}
				p.end()
				return n
			case "commonjs", "esm":
				p.i++
				b := p.node("seq", "")
				for {
					if p.acc("[") { // destructuring
						var names []string
						for !p.acc("]") {
							names = append(names, p.cur().s)
							p.i++
							p.acc(",")
						}
						p.need("=")
						e := p.expr()
						b.k = append(b.k, p.node("unpack", strings.Join(names, ","), e))
					} else {
						n := p.node("decl", p.cur().s, &tnd{op: "type"})
						p.i++
						if p.acc("=") {
							n.k = append(n.k, p.expr())
						}
						b.k = append(b.k, n)
					}
					if !p.acc(",") {
						break
					}
				}
				p.end()
				return b
			}
		}
	}
	if p.clike() {
		save := p.i
		if ty, ok := p.tryType(); ok && p.cur().k == 'i' && !tlKw[p.cur().s] {
			b := p.node("seq", "")
			for {
				n := p.node("decl", p.cur().s, &tnd{op: "type", s: ty})
				p.i++
				if p.is("[") {
					p.i++
					if !p.is("]") {
						n.k[0].k = append(n.k[0].k, p.expr())
					}
					p.need("]")
					n.k[0].s += "[]"
				}
				if p.acc("=") {
					n.k = append(n.k, p.expr())
				} else if p.is("(") && p.lang == "cpp" {
					p.i++
					call := &tnd{op: "call", k: []*tnd{{op: "id", s: ty}}, line: p.cur().line}
					for !p.acc(")") {
						call.k = append(call.k, p.expr())
						p.acc(",")
					}
					n.k = append(n.k, call)
				}
				b.k = append(b.k, n)
				if !p.acc(",") {
					break
				}
			}
			p.end()
			return b
		}
		p.i = save
	}
	if p.lang == "go" && c.k == 'i' && (p.peek(1).s == ":=" || p.peek(1).s == ",") {
		var names []string
		save := p.i
		for {
			names = append(names, p.cur().s)
			p.i++
			if !p.acc(",") {
				break
			}
		}
		if p.acc(":=") {
			e := p.expr()
			p.end()
			if len(names) == 1 {
				return p.node("decl", names[0], &tnd{op: "type"}, e)
			}
			return p.node("unpack", strings.Join(names, ","), e)
		}
		p.i = save
	}
	if p.lang == "python" {
		// annotated assignment, tuple targets
		if c.k == 'i' && p.peek(1).s == ":" && p.peek(1).k == 'p' {
			name := c.s
			p.i += 2
			for !p.is("=") && !p.is(";") {
				p.i++
			}
			n := p.node("decl", name, &tnd{op: "type"})
			if p.acc("=") {
				n.k = append(n.k, p.expr())
			}
			p.end()
			return n
		}
		if c.k == 'i' && p.peek(1).s == "," {
			var names []string
			for {
				names = append(names, p.cur().s)
				p.i++
				if !p.acc(",") {
					break
				}
			}
			p.need("=")
			e := p.comma()
			p.end()
			return p.node("unpack", strings.Join(names, ","), e)
		}
	}
	e := p.comma()
	p.end()
	return p.node("expr", "", e)
}

func (p *tlParser) forStmt() *tnd {
	p.need("for")
	switch p.lang {
	case "python":
		v := p.cur().s
		p.i++
		p.need("in")
		p.noLit = true
		e := p.expr()
		p.noLit = false
		return p.node("each", v, e, p.suite())
	case "kotlin":
		p.need("(")
		v := p.cur().s
		p.i++
		p.need("in")
		e := p.expr()
		p.need(")")
		return p.node("each", v, e, p.suite())
	case "go":
		if p.is("{") {
			return p.node("while", "", &tnd{op: "id", s: "true"}, p.suite())
		}
		// for init; cond; post {, or for cond {
		j, semis := p.i, 0
		d := 0
		for ; j < len(p.t); j++ {
			s := p.t[j].s
			if p.t[j].k != 'p' {
				if p.t[j].k == 'i' && s == "range" {
					semis = -100
				}
				continue
			}
			if s == "(" || s == "[" {
				d++
			}
			if s == ")" || s == "]" {
				d--
			}
			if s == "{" && d == 0 {
				break
			}
			if s == ";" && d == 0 {
				semis++
			}
		}
		p.noLit = true
		defer func() { p.noLit = false }()
		if semis < 0 {
			v := p.cur().s
			p.i++
			v2 := ""
			if p.acc(",") {
				v2 = p.cur().s
				p.i++
			}
			if !p.acc(":=") {
				p.need("=")
			}
			p.need("range")
			e := p.expr()
			p.noLit = false
			return p.node("range", v+","+v2, e, p.suite())
		}
		if semis == 0 {
			c := p.expr()
			p.noLit = false
			return p.node("while", "", c, p.suite())
		}
		var init, post *tnd
		if !p.is(";") {
			init = p.stmt()
		} else {
			p.i++
			init = p.node("block", "")
		}
		cond := &tnd{op: "id", s: "true"}
		if !p.is(";") {
			cond = p.expr()
		}
		p.need(";")
		if p.is("{") {
			post = p.node("block", "")
		} else {
			e := p.comma()
			post = p.node("expr", "", e)
		}
		p.noLit = false
		return p.node("for", "", init, cond, post, p.suite())
	}
	p.need("(")
	save := p.i
	// range for: for (auto& x : e) / for (T x : e) / foreach
	if p.clike() {
		if _, ok := p.tryType(); ok && p.cur().k == 'i' && p.peek(1).s == ":" {
			v := p.cur().s
			p.i += 2
			e := p.expr()
			p.need(")")
			return p.node("range", ","+v, e, p.suite())
		}
		p.i = save
	}
	var init *tnd
	if p.acc(";") {
		init = p.node("block", "")
	} else {
		init = p.stmt()
	}
	cond := &tnd{op: "id", s: "true"}
	if !p.is(";") {
		cond = p.comma()
	}
	p.need(";")
	post := p.node("block", "")
	if !p.is(")") {
		e := p.comma()
		post = p.node("expr", "", e)
	}
	p.need(")")
	return p.node("for", "", init, cond, post, p.suite())
}

func (p *tlParser) comma() *tnd {
	e := p.expr()
	if !p.is(",") {
		return e
	}
	n := p.node("comma", "", e)
	for p.acc(",") {
		n.k = append(n.k, p.expr())
	}
	return n
}

var asgOps = map[string]bool{"=": true, "+=": true, "-=": true, "*=": true, "/=": true, "%=": true, "&=": true, "|=": true, "^=": true, "<<=": true, ">>=": true, ">>>=": true, "&^=": true}

func (p *tlParser) expr() *tnd {
	l := p.ternary()
	if p.cur().k == 'p' && asgOps[p.cur().s] {
		op := p.cur().s
		p.i++
		r := p.expr()
		return p.node("asg", op, l, r)
	}
	return l
}

func (p *tlParser) ternary() *tnd {
	if p.lang == "kotlin" && p.is("if") {
		p.i++
		c := p.cond()
		a := p.kexpr()
		for p.is(";") {
			p.i++
		}
		p.need("else")
		b := p.kexpr()
		return p.node("cond", "", c, a, b)
	}
	if (p.lang == "commonjs" || p.lang == "esm") && (p.is("function") || p.is("(") && p.arrowAhead()) {
		return p.lambda()
	}
	if p.lang == "java" || p.lang == "csharp" {
		if p.is("(") && p.arrowAhead() || p.cur().k == 'i' && (p.peek(1).s == "=>" || p.peek(1).s == "->") {
			return p.lambda()
		}
	}
	if p.lang == "cpp" && p.is("[") {
		return p.lambda()
	}
	if p.lang == "python" && p.is("lambda") {
		for !p.acc(":") {
			p.i++
		}
		return p.node("lambda", "", p.expr())
	}
	c := p.binary(0)
	if p.lang == "python" && p.acc("if") {
		cd := p.binary(0)
		p.need("else")
		e := p.ternary()
		return p.node("cond", "", cd, c, e)
	}
	if p.lang != "kotlin" && p.lang != "go" && p.lang != "python" && p.is("?") {
		p.i++
		a := p.expr()
		p.need(":")
		b := p.expr()
		return p.node("cond", "", c, a, b)
	}
	return c
}

func (p *tlParser) kexpr() *tnd {
	if p.acc("{") {
		e := p.expr()
		for p.acc(";") {
		}
		p.need("}")
		return e
	}
	return p.expr()
}

func (p *tlParser) arrowAhead() bool {
	m := match(p.t, p.i)
	return m > 0 && m+1 < len(p.t) && (p.t[m+1].s == "=>" || p.t[m+1].s == "->" && p.lang == "java")
}

// lambda: skipped, kept as an opaque node holding nothing but its tokens.
func (p *tlParser) lambda() *tnd {
	n := p.node("lambda", "")
	start := p.i
	if p.lang == "cpp" {
		p.i = match(p.t, p.i) + 1
	}
	p.acc("function")
	if p.cur().k == 'i' {
		p.i++
	}
	if p.is("(") {
		p.i = match(p.t, p.i) + 1
	}
	if p.acc("=>") || p.acc("->") {
		if !p.is("{") {
			n.k = append(n.k, p.expr())
			return n
		}
	}
	if p.is("{") {
		m := match(p.t, p.i)
		if m < 0 {
			tlFail(p.cur().line, "unbalanced function body")
		}
		for _, t := range p.t[start : m+1] {
			n.s += t.s + " "
		}
		p.i = m + 1
	}
	return n
}

type opTab map[string]int

var (
	cOps  = opTab{"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "===": 6, "!==": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "instanceof": 7, "<<": 8, ">>": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
	goOps = opTab{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "+": 4, "-": 4, "|": 4, "^": 4, "*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "&^": 5}
	// Kotlin: named infix functions bind tighter than elvis, comparison, equality
	ktOps = opTab{"||": 1, "&&": 2, "==": 3, "!=": 3, "===": 3, "!==": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "in": 5, "!in": 5, "is": 5, "?:": 6, "and": 7, "or": 7, "xor": 7, "shl": 7, "shr": 7, "ushr": 7, "until": 7, "downTo": 7, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
	pyOps = opTab{"or": 1, "and": 2, "in": 4, "is": 4, "==": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "|": 5, "^": 6, "&": 7, "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "//": 10, "%": 10}
)

func (p *tlParser) ops() opTab {
	switch p.lang {
	case "go":
		return goOps
	case "kotlin":
		return ktOps
	case "python":
		return pyOps
	}
	return cOps
}

func (p *tlParser) binary(min int) *tnd {
	if p.lang == "python" && p.is("not") && min <= 3 {
		p.i++
		return p.node("un", "!", p.binary(3))
	}
	l := p.unary()
	tab := p.ops()
	for {
		c := p.cur()
		if c.k != 'p' && c.k != 'i' {
			return l
		}
		pr, ok := tab[c.s]
		if !ok || pr < min || pr == 0 {
			return l
		}
		if p.lang == "kotlin" && c.s == "+" || false {
			_ = c
		}
		p.i++
		op := c.s
		if op == "is" && p.lang == "python" && p.acc("not") {
			op = "is not"
		}
		if op == "is" && p.lang == "kotlin" || op == "instanceof" {
			t := p.cur().s
			p.i++
			l = p.node("istype", t, l)
			continue
		}
		r := p.binary(pr + 1)
		l = p.node("bin", op, l, r)
	}
}

func (p *tlParser) unary() *tnd {
	c := p.cur()
	if c.k == 'p' {
		switch c.s {
		case "-", "+", "!", "~", "*", "&", "^":
			if c.s == "^" && p.lang != "go" {
				break
			}
			p.i++
			op := c.s
			if op == "^" {
				op = "~"
			}
			return p.node("un", op, p.unary())
		case "++", "--":
			p.i++
			return p.node("pre", c.s, p.unary())
		case "(":
			if p.clike() {
				save := p.i
				p.i++
				if ty, ok := p.tryType(); ok && p.is(")") {
					p.i++
					d := p.cur()
					castable := d.k == 'i' && !tlKw[d.s] || d.k == 'i' && (d.s == "new" || d.s == "unchecked") || d.k == 'n' || d.k == 'c' || d.k == 's' || d.k == 'p' && (d.s == "(" || d.s == "~" || d.s == "!" || d.s == "*" || d.s == "&" || d.s == "-" || d.s == "::")
					if castable && (d.s == "*" || d.s == "&" || d.s == "-") && !tlBuiltin[strings.TrimRight(ty, "*&[]")] && !strings.HasSuffix(ty, "*") {
						castable = d.s == "-"
					}
					if castable {
						return p.node("cast", ty, p.unary())
					}
				}
				p.i = save
			}
		}
	}
	if c.k == 'i' && c.s == "typeof" && (p.lang == "commonjs" || p.lang == "esm") {
		p.i++
		return p.node("un", "typeof", p.unary())
	}
	if c.k == 'i' && c.s == "await" {
		p.i++
	}
	return p.postfix()
}

func (p *tlParser) args(close string) []*tnd {
	var out []*tnd
	sv := p.noLit
	p.noLit = false
	for !p.is(close) {
		if p.cur().k == 'e' {
			tlFail(p.cur().line, "unbalanced arguments")
		}
		if p.cur().k == 'i' && p.peek(1).s == "=" && (p.lang == "python" || p.lang == "kotlin") {
			n := p.node("kw", p.cur().s)
			p.i += 2
			n.k = append(n.k, p.expr())
			out = append(out, n)
		} else if p.is("...") {
			p.i++
			out = append(out, p.expr())
		} else {
			out = append(out, p.expr())
		}
		if !p.acc(",") {
			break
		}
	}
	p.noLit = sv
	p.need(close)
	return out
}

func (p *tlParser) postfix() *tnd {
	e := p.primary()
	for {
		c := p.cur()
		if c.k != 'p' {
			return e
		}
		switch c.s {
		case ".", "->", "?.":
			p.i++
			name := p.cur().s
			p.i++
			e = p.node("member", name, e)
		case "::":
			p.i++
			name := p.cur().s
			p.i++
			e = p.node("member", name, e)
		case "(":
			p.i++
			a := p.args(")")
			e = &tnd{op: "call", k: append([]*tnd{e}, a...), line: c.line}
			if p.lang == "kotlin" && p.is("{") {
				m := match(p.t, p.i)
				p.i = m + 1
				e.k = append(e.k, &tnd{op: "lambda"})
			}
		case "[":
			p.i++
			sv := p.noLit
			p.noLit = false
			var lo, hi *tnd
			sl := false
			if !p.is(":") && !p.is("]") {
				lo = p.expr()
			}
			if p.is(":") && (p.lang == "go" || p.lang == "python") {
				p.i++
				sl = true
				if !p.is("]") {
					hi = p.expr()
				}
			}
			p.need("]")
			p.noLit = sv
			if sl {
				e = p.node("slice", "", e, lo, hi)
			} else {
				e = p.node("index", "", e, lo)
			}
		case "++", "--":
			if p.lang == "python" {
				return e
			}
			p.i++
			e = p.node("post", c.s, e)
		case "!!":
			p.i++
		case "!":
			return e
		case "{":
			if p.lang == "go" && !p.noLit && e.op == "id" && p.types[e.s] {
				m := match(p.t, p.i)
				p.i = m + 1
				e = p.node("new", e.s)
				continue
			}
			return e
		default:
			return e
		}
	}
}

func (p *tlParser) primary() *tnd {
	c := p.cur()
	switch c.k {
	case 'n':
		p.i++
		return &tnd{op: "num", s: c.s, line: c.line}
	case 's':
		p.i++
		for p.cur().k == 's' && (p.lang == "c" || p.lang == "cpp" || p.lang == "python") {
			c.s += p.cur().s
			p.i++
		}
		return &tnd{op: "str", s: c.s, line: c.line}
	case 'c':
		p.i++
		return &tnd{op: "char", s: c.s, line: c.line}
	case 'p':
		switch c.s {
		case "(":
			p.i++
			sv := p.noLit
			p.noLit = false
			if p.lang == "go" && p.is("*") {
				// (*T) is a type only before another parenthesis
				m := match(p.t, p.i-1)
				if m > 0 && m+1 < len(p.t) && p.t[m+1].s == "(" {
					s := ""
					for ; p.i < m; p.i++ {
						s += p.cur().s
					}
					p.i++
					p.noLit = sv
					return &tnd{op: "type", s: s, line: c.line}
				}
			}
			e := p.comma()
			p.need(")")
			p.noLit = sv
			if e.op == "comma" && p.lang == "python" {
				e.op = "tuple"
			}
			return &tnd{op: "paren", k: []*tnd{e}, line: c.line}
		case "[":
			if p.lang == "go" {
				// []byte(x), [3]int{...}
				s := ""
				m := match(p.t, p.i)
				for ; p.i <= m; p.i++ {
					s += p.cur().s
				}
				for p.is("*") {
					s += "*"
					p.i++
				}
				for p.cur().k == 'i' {
					s += p.cur().s
					p.i++
					if !p.is(".") {
						break
					}
					s += "."
					p.i++
				}
				if p.is("{") {
					m := match(p.t, p.i)
					p.i = m + 1
					return &tnd{op: "new", s: s, line: c.line}
				}
				return &tnd{op: "type", s: s, line: c.line}
			}
			p.i++
			n := p.node("list", "")
			n.k = p.args("]")
			return n
		case "{":
			m := match(p.t, p.i)
			p.i = m + 1
			return p.node("obj", "")
		case "::":
			p.i++
			return p.primary()
		case "...":
			p.i++
			return p.node("obj", "")
		}
	case 'i':
		switch c.s {
		case "new":
			p.i++
			ty := ""
			for p.cur().k == 'i' || p.is(".") || p.is("::") {
				ty += p.cur().s
				p.i++
				if p.cur().k == 'i' && p.t[p.i-1].k == 'i' {
					break
				}
			}
			if p.is("<") {
				for !p.is("(") && !p.is("[") && !p.is("{") {
					ty += p.cur().s
					p.i++
				}
			}
			n := &tnd{op: "new", s: ty, line: c.line}
			if p.acc("(") {
				n.k = p.args(")")
			} else if p.is("[") {
				p.i++
				n.s += "[]"
				if !p.is("]") {
					n.k = append(n.k, p.expr())
				}
				p.need("]")
				for p.is("[") && p.peek(1).s == "]" {
					p.i += 2
				}
				if p.is("{") {
					m := match(p.t, p.i)
					p.i = m + 1
				}
			} else if p.is("{") {
				m := match(p.t, p.i)
				p.i = m + 1
			}
			return n
		case "static_cast", "reinterpret_cast", "const_cast":
			p.i++
			p.need("<")
			ty, ok := p.tryType()
			if !ok {
				// user type spelled enum a::E
				for !p.is(">") {
					ty += p.cur().s
					p.i++
				}
			}
			p.need(">")
			p.need("(")
			e := p.comma()
			p.need(")")
			return &tnd{op: "cast", s: ty, k: []*tnd{e}, line: c.line}
		case "unchecked", "checked":
			if p.peek(1).s == "(" {
				p.i += 2
				e := p.expr()
				p.need(")")
				return &tnd{op: "paren", k: []*tnd{e}, line: c.line}
			}
		}
		if p.clike() && (p.lang == "cpp" || p.lang == "csharp" || p.lang == "java") {
			// generic names used as values or constructors
			save := p.i
			if ty, ok := p.tryType(); ok && (strings.Contains(ty, "<") || strings.HasPrefix(ty, "std.")) && (p.is("(") || p.is(".") || p.is("{")) {
				if p.is("{") {
					m := match(p.t, p.i)
					p.i = m + 1
					return &tnd{op: "new", s: ty, line: c.line}
				}
				return &tnd{op: "id", s: ty, line: c.line}
			}
			p.i = save
			// template call: ident<...>(
			if p.peek(1).s == "<" || p.peek(1).s == "::" {
				j := p.i + 1
				name := c.s
				for j+1 < len(p.t) && p.t[j].s == "::" && p.t[j+1].k == 'i' {
					name += "." + p.t[j+1].s
					j += 2
				}
				if p.t[j].s == "<" && p.lang == "cpp" {
					d, e := 0, j
					for ; e < len(p.t) && e < j+14; e++ {
						if p.t[e].s == "<" {
							d++
						} else if p.t[e].s == ">" {
							d--
							if d == 0 {
								break
							}
						} else if p.t[e].s == ";" {
							break
						}
					}
					if e < len(p.t) && p.t[e].s == ">" && p.t[e+1].s == "(" {
						s := ""
						for k := j; k <= e; k++ {
							s += p.t[k].s
						}
						p.i = e + 1
						return &tnd{op: "id", s: name + s, line: c.line}
					}
				}
			}
		}
		p.i++
		return &tnd{op: "id", s: c.s, line: c.line}
	}
	tlFail(c.line, "unexpected %q", c.s)
	return nil
}

// tlDump parses every codec function of the given files and lists them.
func tlDump(args []string) {
	lang := args[0]
	for _, fn := range args[1:] {
		src, err := readFileString(fn)
		if err != nil {
			fmt.Println(err)
			continue
		}
		f, err := tlScan(lang, fn, src, map[string]bool{"E": true, "S": true, "R": true, "T": true})
		if err != nil {
			fmt.Println("scan", err)
			continue
		}
		for _, x := range f.fns {
			func() {
				defer func() {
					if r := recover(); r != nil {
						fmt.Println("PARSE", x.class, x.name, r)
					}
				}()
				t := x.tree()
				fmt.Println(x.class, x.name, x.params, len(t.k))
			}()
		}
	}
}

func readFileString(p string) (string, error) {
	b, err := os.ReadFile(p)
	return string(b), err
}

func (x *tnd) walk(f func(*tnd)) {
	if x == nil {
		return
	}
	f(x)
	for _, k := range x.k {
		k.walk(f)
	}
}

func tlCallees(args []string) {
	lang := args[0]
	seen := map[string]string{}
	for _, fn := range args[1:] {
		src, _ := readFileString(fn)
		f, err := tlScan(lang, fn, src, map[string]bool{"E": true, "S": true, "R": true, "T": true})
		if err != nil {
			continue
		}
		for _, x := range f.fns {
			if !strings.Contains(strings.ToLower(x.name), "code") && !strings.HasPrefix(strings.ToLower(strings.TrimLeft(x.name, "_")), "bb") {
				continue
			}
			func() {
				defer func() { recover() }()
				x.tree().walk(func(n *tnd) {
					if n.op == "call" || n.op == "new" || n.op == "cast" || n.op == "istype" {
						c := n.op + ":" + n.s
						if n.op == "call" {
							c = n.k[0].String()
						}
						c = strings.NewReplacer("[0]", "").Replace(c)
						if n.op == "call" && n.k[0].op == "member" {
							c = "." + n.k[0].s + " on " + n.k[0].k[0].op
							if n.k[0].k[0].op == "id" {
								c += ":" + n.k[0].k[0].s
							}
						}
						seen[c] = fmt.Sprint(x.name, " ", n.line)
					}
				})
			}()
		}
	}
	for _, k := range sortedKeys(seen) {
		fmt.Println("  ", k, "   ", seen[k])
	}
}
