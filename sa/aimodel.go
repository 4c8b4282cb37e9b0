package main

import (
	"errors"
	"fmt"
	"go/types"
	"math"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard library functions the generators use, over the same
// abstract values.

type aiErr struct {
	msg  string
	wrap any
}

type aiTmpl struct {
	funcs *aiMap
	tree  *aiTree
}

func (it *AI) str(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case *aiIface:
		return it.str(x.v)
	}
	it.stop("text expected, found %s", descOf(v))
	return ""
}

func (it *AI) errVal(msg string) any {
	return &aiIface{it.w.errType(), &aiNative{&aiErr{msg: msg}}}
}

func (it *AI) builder(v any) *strings.Builder {
	if i, ok := v.(*aiIface); ok {
		v = i.v
	}
	c, ok := v.(*aiCell)
	if !ok {
		it.stop("writer %s", descOf(v))
	}
	b := it.native[c]
	if b == nil {
		b = &strings.Builder{}
		it.native[c] = b
	}
	return b
}

type aiModelFn func(it *AI, a []any) any

func s1(f func(string) string) aiModelFn {
	return func(it *AI, a []any) any { return f(it.str(a[0])) }
}

func s2b(f func(a, b string) bool) aiModelFn {
	return func(it *AI, a []any) any { return f(it.str(a[0]), it.str(a[1])) }
}

func s2s(f func(a, b string) string) aiModelFn {
	return func(it *AI, a []any) any { return f(it.str(a[0]), it.str(a[1])) }
}

var aiModels map[string]aiModelFn

func init() {
	nilv := aiNil{}
	wr := func(it *AI, a []any) any {
		s := it.str(a[1])
		it.builder(a[0]).WriteString(s)
		return aiTuple{aiInt(int64(len(s))), nilv}
	}
	wb := func(it *AI, a []any) any {
		it.builder(a[0]).WriteByte(byte(it.concInt(a[1])))
		return nilv
	}
	wrune := func(it *AI, a []any) any {
		it.builder(a[0]).WriteRune(rune(it.concInt(a[1])))
		return aiTuple{aiInt(1), nilv}
	}
	bstr := func(it *AI, a []any) any { return it.builder(a[0]).String() }
	blen := func(it *AI, a []any) any { return aiInt(int64(it.builder(a[0]).Len())) }
	aiModels = map[string]aiModelFn{
		"strings.ToLower":     s1(strings.ToLower),
		"strings.ToUpper":     s1(strings.ToUpper),
		"strings.TrimSpace":   s1(strings.TrimSpace),
		"strings.HasPrefix":   s2b(strings.HasPrefix),
		"strings.HasSuffix":   s2b(strings.HasSuffix),
		"strings.Contains":    s2b(strings.Contains),
		"strings.ContainsAny": s2b(strings.ContainsAny),
		"strings.EqualFold":   s2b(strings.EqualFold),
		"strings.TrimPrefix":  s2s(strings.TrimPrefix),
		"strings.TrimSuffix":  s2s(strings.TrimSuffix),
		"strings.TrimRight":   s2s(strings.TrimRight),
		"strings.TrimLeft":    s2s(strings.TrimLeft),
		"strings.Trim":        s2s(strings.Trim),
		"strings.Index": func(it *AI, a []any) any {
			return aiInt(int64(strings.Index(it.str(a[0]), it.str(a[1]))))
		},
		"strings.LastIndex": func(it *AI, a []any) any {
			return aiInt(int64(strings.LastIndex(it.str(a[0]), it.str(a[1]))))
		},
		"strings.Count": func(it *AI, a []any) any {
			return aiInt(int64(strings.Count(it.str(a[0]), it.str(a[1]))))
		},
		"strings.Repeat": func(it *AI, a []any) any { return strings.Repeat(it.str(a[0]), it.concInt(a[1])) },
		"strings.ReplaceAll": func(it *AI, a []any) any {
			return strings.ReplaceAll(it.str(a[0]), it.str(a[1]), it.str(a[2]))
		},
		"strings.Replace": func(it *AI, a []any) any {
			return strings.Replace(it.str(a[0]), it.str(a[1]), it.str(a[2]), it.concInt(a[3]))
		},
		"strings.Split":  func(it *AI, a []any) any { return it.strSlice(strings.Split(it.str(a[0]), it.str(a[1]))) },
		"strings.Fields": func(it *AI, a []any) any { return it.strSlice(strings.Fields(it.str(a[0]))) },
		"strings.SplitN": func(it *AI, a []any) any {
			return it.strSlice(strings.SplitN(it.str(a[0]), it.str(a[1]), it.concInt(a[2])))
		},
		"strings.Join": func(it *AI, a []any) any {
			var ss []string
			for _, x := range it.sliceOf(a[0]) {
				ss = append(ss, it.str(x))
			}
			return strings.Join(ss, it.str(a[1]))
		},
		"strings.Title":      s1(strings.Title),
		"unicode.IsUpper":    func(it *AI, a []any) any { return unicode.IsUpper(rune(it.concInt(a[0]))) },
		"unicode.IsLower":    func(it *AI, a []any) any { return unicode.IsLower(rune(it.concInt(a[0]))) },
		"unicode.IsDigit":    func(it *AI, a []any) any { return unicode.IsDigit(rune(it.concInt(a[0]))) },
		"unicode.IsLetter":   func(it *AI, a []any) any { return unicode.IsLetter(rune(it.concInt(a[0]))) },
		"strconv.Quote":      s1(strconv.Quote),
		"strconv.Itoa":       func(it *AI, a []any) any { return a[0].(aiNum).text(true) },
		"strconv.FormatBool": func(it *AI, a []any) any { return strconv.FormatBool(a[0].(bool)) },
		"strconv.FormatInt": func(it *AI, a []any) any {
			n := a[0].(aiNum)
			if n.a != 0 {
				return n.text(true)
			}
			return strconv.FormatInt(n.c, it.concInt(a[1]))
		},
		"strconv.FormatUint": func(it *AI, a []any) any {
			n := a[0].(aiNum)
			if n.a != 0 {
				return n.text(true)
			}
			return strconv.FormatUint(uint64(n.c), it.concInt(a[1]))
		},
		"strconv.FormatFloat": func(it *AI, a []any) any {
			return strconv.FormatFloat(a[0].(float64), byte(it.concInt(a[1])), it.concInt(a[2]), it.concInt(a[3]))
		},
		"fmt.Sprintf": func(it *AI, a []any) any { return it.sprintf(it.str(a[0]), it.sliceOf(a[1])) },
		"fmt.Errorf": func(it *AI, a []any) any {
			return it.errVal(it.sprintf(it.str(a[0]), it.sliceOf(a[1])))
		},
		"errors.New": func(it *AI, a []any) any { return it.errVal(it.str(a[0])) },
		"fmt.Sprint": func(it *AI, a []any) any {
			var sb strings.Builder
			prevStr := true
			for i, x := range it.sliceOf(a[0]) {
				isStr := false
				if xi, ok := x.(*aiIface); ok {
					_, isStr = xi.v.(string)
				}
				if i > 0 && !isStr && !prevStr {
					sb.WriteByte(' ')
				}
				prevStr = isStr
				sb.WriteString(it.fmtV(x))
			}
			return sb.String()
		},
		"fmt.Fprintf": func(it *AI, a []any) any {
			s := it.sprintf(it.str(a[1]), it.sliceOf(a[2]))
			it.builder(a[0]).WriteString(s)
			return aiTuple{aiInt(int64(len(s))), nilv}
		},
		"fmt.Fprint": func(it *AI, a []any) any {
			for _, x := range it.sliceOf(a[1]) {
				it.builder(a[0]).WriteString(it.fmtV(x))
			}
			return aiTuple{aiInt(0), nilv}
		},
		"fmt.Fprintln": func(it *AI, a []any) any {
			var ps []string
			for _, x := range it.sliceOf(a[1]) {
				ps = append(ps, it.fmtV(x))
			}
			it.builder(a[0]).WriteString(strings.Join(ps, " ") + "\n")
			return aiTuple{aiInt(0), nilv}
		},
		"fmt.Print": func(it *AI, a []any) any {
			for _, x := range it.sliceOf(a[0]) {
				it.Printed = append(it.Printed, it.fmtV(x))
			}
			return aiTuple{aiInt(0), nilv}
		},
		"fmt.Println": func(it *AI, a []any) any {
			for _, x := range it.sliceOf(a[0]) {
				it.Printed = append(it.Printed, it.fmtV(x))
			}
			return aiTuple{aiInt(0), nilv}
		},
		"fmt.Printf": func(it *AI, a []any) any {
			it.Printed = append(it.Printed, it.sprintf(it.str(a[0]), it.sliceOf(a[1])))
			return aiTuple{aiInt(0), nilv}
		},
		"(*strings.Builder).WriteString": wr,
		"(*strings.Builder).WriteByte":   wb,
		"(*strings.Builder).WriteRune":   wrune,
		"(*strings.Builder).String":      bstr,
		"(*strings.Builder).Len":         blen,
		"(*strings.Builder).Grow":        func(it *AI, a []any) any { return aiTuple{} },
		"(*bytes.Buffer).WriteString":    wr,
		"(*bytes.Buffer).WriteByte":      wb,
		"(*bytes.Buffer).WriteRune":      wrune,
		"(*bytes.Buffer).String":         bstr,
		"(*bytes.Buffer).Len":            blen,
		"(*bytes.Buffer).Reset": func(it *AI, a []any) any {
			it.builder(a[0]).Reset()
			return aiTuple{}
		},
		"(*strings.Builder).Reset": func(it *AI, a []any) any {
			it.builder(a[0]).Reset()
			return aiTuple{}
		},
		"math.Float32bits": func(it *AI, a []any) any {
			return aiNum{0, int64(math.Float32bits(float32(a[0].(float64))))}
		},
		"math.Float64bits": func(it *AI, a []any) any { return aiNum{0, int64(math.Float64bits(a[0].(float64)))} },
		"math.Pow":         func(it *AI, a []any) any { return math.Pow(a[0].(float64), a[1].(float64)) },
		"math.IsNaN":       func(it *AI, a []any) any { return math.IsNaN(a[0].(float64)) },
		"math.IsInf":       func(it *AI, a []any) any { return math.IsInf(a[0].(float64), it.concInt(a[1])) },
		"math.Trunc":       func(it *AI, a []any) any { return math.Trunc(a[0].(float64)) },
		"math.Abs":         func(it *AI, a []any) any { return math.Abs(a[0].(float64)) },
		"math.Signbit":     func(it *AI, a []any) any { return math.Signbit(a[0].(float64)) },
		"math.MaxInt":      nil,
		"path/filepath.Join": func(it *AI, a []any) any {
			var ss []string
			for _, x := range it.sliceOf(a[0]) {
				ss = append(ss, it.str(x))
			}
			return path.Join(ss...)
		},
		"path/filepath.IsLocal": func(it *AI, a []any) any { return true },
		"path/filepath.Dir":     s1(path.Dir),
		"path/filepath.Base":    s1(path.Base),
		"path/filepath.IsAbs":   func(it *AI, a []any) any { return strings.HasPrefix(it.str(a[0]), "/") },
		"path/filepath.Ext":     s1(path.Ext),
		"path/filepath.ToSlash": s1(func(s string) string { return s }),
		"path/filepath.Clean":   s1(path.Clean),
		"path.Join":             nil,
		"path/filepath.Abs": func(it *AI, a []any) any {
			s := it.str(a[0])
			if !strings.HasPrefix(s, "/") {
				s = "/w/" + s
			}
			return aiTuple{path.Clean(s), nilv}
		},
		"path/filepath.Rel": func(it *AI, a []any) any {
			s, err := relSlash(it.str(a[0]), it.str(a[1]))
			if err != nil {
				return aiTuple{"", it.errVal(err.Error())}
			}
			return aiTuple{s, nilv}
		},
		"sort.Strings": func(it *AI, a []any) any {
			l := it.sliceOf(a[0])
			var ss []string
			for _, x := range l {
				ss = append(ss, it.str(x))
			}
			sort.Strings(ss)
			if s, ok := a[0].(*aiSlice); ok {
				for i := range ss {
					s.arr[s.lo+i].v = ss[i]
				}
			}
			return aiTuple{}
		},
		"text/template.New": func(it *AI, a []any) any { return &aiNative{&aiTmpl{}} },
		"(*text/template.Template).Funcs": func(it *AI, a []any) any {
			t := a[0].(*aiNative).v.(*aiTmpl)
			if m, ok := a[1].(*aiMap); ok {
				t.funcs = m
			}
			return a[0]
		},
		"(*text/template.Template).Parse": func(it *AI, a []any) any {
			t := a[0].(*aiNative).v.(*aiTmpl)
			tr, err := it.parseTmpl(it.str(a[1]), t.funcs)
			if err != nil {
				return aiTuple{a[0], it.errVal(err.Error())}
			}
			t.tree = tr
			return aiTuple{a[0], nilv}
		},
		"text/template.Must": func(it *AI, a []any) any {
			if _, ok := a[1].(aiNil); !ok {
				it.Panics = append(it.Panics, it.fmtV(a[1]))
				it.stop("panic %s", it.fmtV(a[1]))
			}
			return a[0]
		},
		"(*text/template.Template).ExecuteTemplate": func(it *AI, a []any) any {
			t := a[0].(*aiNative).v.(*aiTmpl)
			var sb strings.Builder
			it.execTmpl(t, it.str(a[2]), a[3], &sb)
			it.builder(a[1]).WriteString(sb.String())
			return nilv
		},
		"(*text/template.Template).Execute": func(it *AI, a []any) any {
			t := a[0].(*aiNative).v.(*aiTmpl)
			var sb strings.Builder
			it.execTmpl(t, "", a[2], &sb)
			it.builder(a[1]).WriteString(sb.String())
			return nilv
		},
		"encoding/binary.Write": func(it *AI, a []any) any {
			bo, ok := a[1].(*aiIface)
			v, ok2 := a[2].(*aiIface)
			if !ok || !ok2 {
				it.stop("binary.Write of %s", descOf(a[2]))
			}
			w := widthT(v.t)
			var bits uint64
			switch x := v.v.(type) {
			case aiNum:
				if x.a != 0 {
					it.stop("binary.Write of a position")
				}
				if b := basicOf(v.t); b.Kind() == types.Int || b.Kind() == types.Uint {
					return it.errVal("binary.Write: some values are not fixed-sized")
				}
				bits = uint64(x.c)
			case float64:
				bits = math.Float64bits(x)
				if basicOf(v.t).Kind() == types.Float32 {
					bits = uint64(math.Float32bits(float32(x)))
					w = 32
				}
			case bool:
				w = 8
				if x {
					bits = 1
				}
			default:
				it.stop("binary.Write of %s", descOf(a[2]))
			}
			big := strings.HasSuffix(bo.t.String(), "bigEndian")
			if !big && !strings.HasSuffix(bo.t.String(), "littleEndian") {
				it.stop("byte order %s", bo.t)
			}
			for i := 0; i < w/8; i++ {
				j := i
				if big {
					j = w/8 - 1 - i
				}
				it.builder(a[0]).WriteByte(byte(bits >> (8 * j)))
			}
			return nilv
		},
		"(*bytes.Buffer).Bytes": func(it *AI, a []any) any {
			s := it.builder(a[0]).String()
			r := &aiSlice{hi: len(s)}
			for i := 0; i < len(s); i++ {
				r.arr = append(r.arr, &aiCell{aiInt(int64(s[i]))})
			}
			return r
		},
	}
	aiModels["path.Join"] = aiModels["path/filepath.Join"]
}

func relSlash(base, targ string) (string, error) {
	b := strings.Split(strings.Trim(path.Clean("/"+base), "/"), "/")
	t := strings.Split(strings.Trim(path.Clean("/"+targ), "/"), "/")
	if b[0] == "" {
		b = nil
	}
	i := 0
	for i < len(b) && i < len(t) && b[i] == t[i] {
		i++
	}
	var out []string
	for range b[i:] {
		out = append(out, "..")
	}
	out = append(out, t[i:]...)
	if len(out) == 0 {
		return ".", nil
	}
	if strings.HasPrefix(base, "..") {
		return "", errors.New("Rel")
	}
	return strings.Join(out, "/"), nil
}

func (w *World) aiModel(fn *ssa.Function) aiModelFn {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if m := aiModels[name]; m != nil {
		return m
	}
	switch {
	case fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath):
		return func(it *AI, a []any) any { return aiTuple{} }
	case name == modPath+"/fileio.WriteFileContent":
		return func(it *AI, a []any) any {
			id := ""
			if c, ok := a[0].(*aiCell); ok {
				if o, ok := c.v.(*aiObj); ok {
					for _, f := range o.f {
						if s, ok := f.v.(string); ok {
							id = s
						}
					}
				}
			}
			it.Files = append(it.Files, aiFile{id, it.str(a[1])})
			return aiNil{}
		}
	case name == modPath+"/fileio.GetFileIdentifer":
		return nil
	case name == modPath+"/util.ToString":
		return func(it *AI, a []any) any { return "OPTIONS" }
	}
	return nil
}

func (it *AI) nativeMethod(n *aiNative, name string, args []any) any {
	if e, ok := n.v.(*aiErr); ok && name == "Error" {
		return e.msg
	}
	it.stop("method %s of a library value", name)
	return nil
}

var _ = fmt.Sprint

func (w *World) errType() types.Type {
	if p := w.Prog.ImportedPackage("errors"); p != nil {
		if t := p.Type("errorString"); t != nil {
			return types.NewPointer(t.Type())
		}
	}
	return types.NewPointer(types.Universe.Lookup("error").Type())
}
