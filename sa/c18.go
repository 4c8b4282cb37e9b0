package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"sync"
)

func init() {
	register("C18", "abstract interpretation of the generators for each feature alone under each option set, then name resolution over the emitted files: every helper called and every library or package name used must be defined in, included by or imported into the file that uses it", c18)
}

// ---- what each language offers without or with an import

var libNames = map[string]map[string]string{
	// name -> alternatives of headers / imports, separated by |; "" is always there
	"c": hdr(map[string]string{
		"stdint.h":                           "uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t uintptr_t UINT8_MAX UINT16_MAX UINT32_MAX UINT64_MAX INT8_MAX INT16_MAX INT32_MAX INT64_MAX INT64_MIN INT32_MIN UINT8_C UINT16_C UINT32_C UINT64_C INT64_C SIZE_MAX",
		"stdbool.h":                          "bool true false",
		"stddef.h|string.h|stdlib.h|stdio.h": "size_t NULL",
		"stddef.h":                           "ptrdiff_t offsetof",
		"string.h":                           "memcpy memmove memset memcmp memchr strlen strcmp strncmp strcpy strncpy strnlen strdup strcat",
		"stdlib.h":                           "malloc calloc realloc free abs labs llabs abort exit",
		"math.h":                             "pow sqrt fabs floor ceil fmod isnan isinf INFINITY NAN round trunc powf fmodf",
		"assert.h":                           "assert",
		"limits.h":                           "CHAR_BIT INT_MAX LONG_MAX ULLONG_MAX",
	}),
	"cpp": hdr(map[string]string{
		"cstdint|stdint.h":                 "uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t uintptr_t UINT64_MAX",
		"cstddef|stddef.h|cstring|cstdlib": "size_t NULL",
		"cstring|string.h":                 "memcpy memmove memset memcmp memchr strlen strcmp strncmp strcpy strncpy",
		"cstdlib|stdlib.h":                 "malloc calloc realloc free abs abort",
		"cmath|math.h":                     "pow sqrt fabs floor ceil fmod isnan isinf round trunc",
		"algorithm":                        "std::min std::max std::copy std::fill std::copy_n",
		"string":                           "std::string std::to_string",
		"string_view":                      "std::string_view",
		"memory":                           "std::shared_ptr std::unique_ptr std::make_shared std::make_unique",
		"span":                             "std::span std::dynamic_extent",
		"vector":                           "std::vector",
		"array":                            "std::array",
		"utility|algorithm|memory|string":  "std::move std::swap std::forward std::pair std::make_pair",
		"limits":                           "std::numeric_limits",
		"optional":                         "std::optional",
		"tuple":                            "std::tuple",
		"stdexcept":                        "std::runtime_error std::out_of_range std::invalid_argument",
		"initializer_list|string|vector|span|memory": "std::initializer_list",
	}),
	"csharp": hdr(map[string]string{
		"System":                         "BitConverter Array Math Buffer Convert Span ReadOnlySpan Memory ReadOnlyMemory ArgumentException InvalidOperationException IndexOutOfRangeException Enum HashCode DateTime Exception ArgumentOutOfRangeException ArgumentNullException FlagsAttribute Flags Obsolete",
		"System.Text":                    "Encoding StringBuilder",
		"System.Linq":                    "Enumerable",
		"System.Collections.Generic":     "List Dictionary IEnumerable IList KeyValuePair",
		"System.Runtime.InteropServices": "MemoryMarshal Marshal StructLayout",
		"System.Buffers.Binary":          "BinaryPrimitives",
	}),
	"java": hdr(map[string]string{
		"java.util.Arrays|java.util.*":                         "Arrays",
		"java.util.Objects|java.util.*":                        "Objects",
		"java.util.List|java.util.*":                           "List",
		"java.util.ArrayList|java.util.*":                      "ArrayList",
		"java.util.Map|java.util.*":                            "Map",
		"java.util.HashMap|java.util.*":                        "HashMap",
		"java.nio.charset.StandardCharsets|java.nio.charset.*": "StandardCharsets",
		"java.nio.charset.Charset|java.nio.charset.*":          "Charset",
		"java.nio.ByteBuffer|java.nio.*":                       "ByteBuffer",
		"java.nio.ByteOrder|java.nio.*":                        "ByteOrder",
	}),
	"kotlin": hdr(map[string]string{
		"java.util.Arrays|java.util.*":                         "Arrays",
		"java.util.Objects|java.util.*":                        "Objects",
		"java.nio.charset.StandardCharsets|java.nio.charset.*": "StandardCharsets",
		"java.nio.ByteBuffer|java.nio.*":                       "ByteBuffer",
		"java.nio.ByteOrder|java.nio.*":                        "ByteOrder",
		"kotlin.math.min|kotlin.math.*":                        "min",
		"kotlin.math.max|kotlin.math.*":                        "max",
		"kotlin.math.pow|kotlin.math.*":                        "pow",
	}),
	"python": hdr(map[string]string{
		"enum.Enum|enum.*":         "Enum",
		"enum.IntEnum|enum.*":      "IntEnum",
		"enum.IntFlag|enum.*":      "IntFlag",
		"typing.List|typing.*":     "List",
		"typing.Tuple|typing.*":    "Tuple",
		"typing.Union|typing.*":    "Union",
		"typing.Optional|typing.*": "Optional",
		"typing.Dict|typing.*":     "Dict",
		"typing.Any|typing.*":      "Any",
		"typing.overload|typing.*": "overload",
	}),
}

func hdr(m map[string]string) map[string]string {
	o := map[string]string{}
	for h, ns := range m {
		for _, n := range strings.Fields(ns) {
			o[n] = h
		}
	}
	return o
}

// pyMods, goPkgs and such: roots of qualified names that are modules.
var modRoots = map[string][]string{
	"python": {"struct", "math", "sys", "typing", "enum", "itertools", "functools", "io", "array", "ctypes", "codecs", "copy"},
	"go":     {"unsafe", "math", "fmt", "bytes", "errors", "strings", "strconv", "binary", "bits", "io", "slices", "reflect"},
}

// always: names that need nothing.
var always = map[string]map[string]bool{}

func init() {
	kw := "if while for switch return sizeof catch do else case new delete throw in and or not is as await yield typeof assert with default break continue "
	for l, s := range map[string]string{
		"c":        "defined __attribute__ alignof _Static_assert void int char float double long unsigned ",
		"cpp":      "defined static_cast reinterpret_cast const_cast dynamic_cast deprecated alignof decltype noexcept static_assert void int char float double long unsigned bool explicit operator constexpr ",
		"csharp":   "unchecked checked nameof lock using fixed base this out ref params get set value var int uint byte sbyte short ushort long ulong float double bool string object stackalloc when ",
		"go":       "len cap make copy append new panic recover delete min max clear print println byte rune string bool int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64 func range select chan map interface struct type error any complex real imag close import ",
		"java":     "super this synchronized try SuppressWarnings Override Deprecated int byte short long float double boolean char String Integer Long Short Byte Float Double Boolean Character Object Math System IllegalArgumentException IllegalStateException IndexOutOfBoundsException ArrayIndexOutOfBoundsException RuntimeException Exception StringBuilder UnsupportedOperationException Enum values ordinal valueOf getClass hashCode name equals toString clone ",
		"kotlin":   "when fun val var super this try require check error arrayOf arrayOfNulls byteArrayOf ByteArray ShortArray IntArray LongArray FloatArray DoubleArray BooleanArray UByteArray UShortArray UIntArray ULongArray Array List MutableList listOf mutableListOf emptyList String maxOf minOf repeat println buildString StringBuilder IllegalArgumentException IllegalStateException IndexOutOfBoundsException also apply let run with lazy Pair Triple to get set until downTo step Suppress OptIn JvmStatic JvmOverloads JvmField Deprecated object init constructor hashCode equals toString size intArrayOf longArrayOf shortArrayOf floatArrayOf doubleArrayOf booleanArrayOf ubyteArrayOf ushortArrayOf uintArrayOf ulongArrayOf field requireNotNull checkNotNull TODO enumValues enumValueOf entries values mapOf setOf hashMapOf buildList shl shr ushr and or xor inv rem mod ",
		"python":   "len range int float bool str bytes bytearray memoryview isinstance list tuple dict set print max min abs sum zip enumerate map filter sorted reversed super object type repr hash iter next getattr setattr hasattr callable ord chr hex bin oct round pow divmod any all id format slice property staticmethod classmethod ValueError TypeError IndexError KeyError NotImplementedError RuntimeError Exception OverflowError issubclass vars frozenset lambda elif except except_ from import raise ",
		"commonjs": "",
		"esm":      "",
	} {
		m := map[string]bool{}
		for _, n := range strings.Fields(kw + s) {
			m[n] = true
		}
		always[l] = m
	}
	js := "function super import require define constructor Number BigInt String Boolean Array Object Math Symbol Error TypeError RangeError Uint8Array Int8Array Uint16Array Int16Array Uint32Array Int32Array Float32Array Float64Array BigInt64Array BigUint64Array Uint8ClampedArray ArrayBuffer DataView TextEncoder TextDecoder Map Set WeakMap Promise Reflect Proxy JSON parseInt parseFloat isNaN isFinite Date RegExp Function encodeURIComponent decodeURIComponent unescape escape globalThis Buffer instanceof void eval "
	for _, l := range []string{"commonjs", "esm"} {
		for _, n := range strings.Fields(kw + js) {
			always[l][n] = true
		}
	}
	for _, n := range strings.Fields("class struct enum interface public private protected static final const override virtual readonly async def fun func function fn let var val") {
		for l := range always {
			always[l][n] = true
		}
	}
}

// ---- an emitted file

type emFile struct {
	lang, name string
	text       string // without comments
	toks       []tlTok
	imports    map[string]string // header, module, package or alias -> what it names
	defs       map[string]bool
	decls      map[string]bool // types declared
	pkg        string
}

// stripComments blanks comments; strings are kept.
func stripComments(lang, s string) string {
	b := []byte(s)
	blank := func(i, j int) {
		for ; i < j && i < len(b); i++ {
			if b[i] != '\n' {
				b[i] = ' '
			}
		}
	}
	py := lang == "python"
	for i := 0; i < len(b); {
		switch {
		case py && (strings.HasPrefix(s[i:], `"""`) || strings.HasPrefix(s[i:], "'''")):
			j := strings.Index(s[i+3:], s[i:i+3])
			if j < 0 {
				return string(b)
			}
			blank(i, i+j+6)
			i += j + 6
		case b[i] == '"' || b[i] == '\'' || b[i] == '`':
			q := b[i]
			j := i + 1
			for j < len(b) && b[j] != q && b[j] != '\n' {
				if b[j] == '\\' {
					j++
				}
				j++
			}
			i = j + 1
		case !py && strings.HasPrefix(s[i:], "//"), py && b[i] == '#':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				j = len(s) - i
			}
			blank(i, i+j)
			i += j
		case !py && strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return string(b)
			}
			blank(i, i+j+4)
			i += j + 4
		default:
			i++
		}
	}
	return string(b)
}

var (
	reInclude = regexp.MustCompile(`(?m)^[ \t]*#[ \t]*include[ \t]*[<"]([^>"]+)[>"]`)
	reDefine  = regexp.MustCompile(`(?m)^[ \t]*#[ \t]*define[ \t]+(\w+)`)
	reUsing   = regexp.MustCompile(`(?m)^[ \t]*using[ \t]+(?:static[ \t]+)?([\w.]+)[ \t]*;`)
	reNs      = regexp.MustCompile(`(?m)^[ \t]*(?:namespace|package)[ \t]+([\w.]+)`)
	reJImport = regexp.MustCompile(`(?m)^[ \t]*import[ \t]+(?:static[ \t]+)?([\w.]+(?:\.\*)?)[ \t]*;?[ \t]*$`)
	rePyImp   = regexp.MustCompile(`(?m)^[ \t]*import[ \t]+([\w.]+)(?:[ \t]+as[ \t]+(\w+))?[ \t]*$`)
	rePyFrom  = regexp.MustCompile(`(?m)^[ \t]*from[ \t]+([\w.]+)[ \t]+import[ \t]+(.+)$`)
	reGoImp   = regexp.MustCompile(`(?m)^[ \t]*(?:import[ \t]+)?(?:(\w+|\.|_)[ \t]+)?"([\w./-]+)"[ \t]*$`)
	reJsImp   = regexp.MustCompile(`(?m)^[ \t]*import[ \t]+(?:\*[ \t]+as[ \t]+)?([\w${}, ]+?)[ \t]+from[ \t]+["']([^"']+)["']`)
	reJsReq   = regexp.MustCompile(`require\(["']([^"']+)["']\)`)
	reDefWord = regexp.MustCompile(`\b(?:def|fun|func|function|class|struct|enum|interface|object|type|const|let|var|val|namespace)[ \t\n]+(?:class[ \t]+)?(?:\([^)]*\)[ \t]*)?([A-Za-z_$][\w$]*)`)
	reFunExt  = regexp.MustCompile(`\bfun[ \t]+(?:<[^>]*>[ \t]*)?(?:[\w<>?]+\.)?(\w+)[ \t]*\(`)
	reArrow   = regexp.MustCompile(`\(([\w$, =]*)\)[ \t]*=>|([\w$]+)[ \t]*=>`)
	reFnExpr  = regexp.MustCompile(`\bfunction[ \t]*[\w$]*[ \t]*\(([^)]*)\)`)
	reWord    = regexp.MustCompile(`[A-Za-z_$][\w$]*`)
	reDeclT   = regexp.MustCompile(`\b(?:class|struct|enum|interface|object|type|const|let|var|function)[ \t]+(?:class[ \t]+)?([A-Za-z_$][\w$]*)`)
)

func emLoad(lang, name, text string) (f *emFile, err error) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(tlErr); ok {
				err = fmt.Errorf("%s: %s", name, e.msg)
				return
			}
			panic(x)
		}
	}()
	f = &emFile{lang: lang, name: name, imports: map[string]string{}, defs: map[string]bool{}, decls: map[string]bool{}}
	f.text = stripComments(lang, text)
	f.toks = tlLex(lang, text)
	sub := func(re *regexp.Regexp, use func(m []string)) {
		for _, m := range re.FindAllStringSubmatch(f.text, -1) {
			use(m)
		}
	}
	sub(reDefine, func(m []string) { f.defs[m[1]] = true })
	sub(reDefWord, func(m []string) { f.defs[m[1]] = true })
	sub(reFunExt, func(m []string) { f.defs[m[1]] = true })
	sub(reDeclT, func(m []string) { f.decls[m[1]] = true })
	sub(reNs, func(m []string) {
		if f.pkg == "" {
			f.pkg = m[1]
		}
	})
	words := func(s string) {
		for _, x := range reWord.FindAllString(s, -1) {
			f.defs[x] = true
		}
	}
	sub(reArrow, func(m []string) { words(m[1] + " " + m[2]) })
	sub(reFnExpr, func(m []string) { words(m[1]) })
	switch lang {
	case "c", "cpp":
		sub(reInclude, func(m []string) { f.imports[m[1]] = "" })
	case "csharp":
		sub(reUsing, func(m []string) { f.imports[m[1]] = "" })
	case "java", "kotlin":
		sub(reJImport, func(m []string) { f.imports[m[1]] = "" })
	case "python":
		sub(rePyImp, func(m []string) {
			n := m[1]
			if m[2] != "" {
				n = m[2]
			}
			f.imports[n] = m[1]
		})
		sub(rePyFrom, func(m []string) {
			for _, x := range strings.Split(strings.Trim(m[2], "() \t"), ",") {
				x = strings.TrimSpace(x)
				f.imports[m[1]+"."+x] = m[1]
				if x != "*" {
					p := strings.Fields(x)
					f.defs[p[len(p)-1]] = true
				}
			}
		})
	case "go":
		if i := strings.Index(f.text, "import"); i >= 0 {
			e := len(f.text)
			if j := strings.Index(f.text, "\ntype "); j > 0 {
				e = j
			}
			if j := strings.Index(f.text, "\nfunc "); j > 0 && j < e {
				e = j
			}
			if i < e {
				for _, m := range reGoImp.FindAllStringSubmatch(f.text[i:e], -1) {
					n := m[1]
					if n == "" {
						n = path.Base(m[2])
					} else if n == "." || n == "_" {
						n += " " + m[2]
					}
					f.imports[n] = m[2]
				}
			}
		}
	case "esm":
		sub(reJsImp, func(m []string) {
			for _, x := range reWord.FindAllString(m[1], -1) {
				f.imports[x] = m[2]
			}
		})
	case "commonjs":
		sub(reJsReq, func(m []string) { f.imports[m[1]] = m[1] })
	}
	// functions and methods: name ( … ) followed by a body
	t := f.toks
	for i := 0; i+1 < len(t); i++ {
		if t[i].k != 'i' || t[i+1].s != "(" || t[i+1].k != 'p' {
			continue
		}
		c := match(t, i+1)
		if c < 0 || c+1 >= len(t) {
			continue
		}
		switch n := t[c+1].s; {
		case n == ";" && (lang == "cpp" || lang == "c") && i > 0 && (t[i-1].k == 'i' && !always[lang][t[i-1].s] || t[i-1].s == "*" || t[i-1].s == "&"):
			f.defs[t[i].s] = true
		case n == "{" && lang != "python" && !always[lang][t[i].s], n == "=>", n == "const" || n == "override" || n == "throws" || n == "noexcept":
			f.defs[t[i].s] = true
		}
	}
	return f, nil
}

// visible files of f among the files of the run.
func (f *emFile) visible(all []*emFile) []*emFile {
	seen := map[*emFile]bool{f: true}
	work := []*emFile{f}
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		for _, h := range all {
			if !seen[h] && g.sees(h) {
				seen[h] = true
				if f.lang == "c" || f.lang == "cpp" { // inclusion is textual
					work = append(work, h)
				}
			}
		}
	}
	var o []*emFile
	for _, h := range all {
		if seen[h] {
			o = append(o, h)
		}
	}
	return o
}

func (f *emFile) sees(h *emFile) bool {
	same := func(p string) bool { // by resolved path, or by the path from the output root
		p = strings.TrimPrefix(p, "./")
		return path.Join(path.Dir(f.name), p) == h.name || path.Join("/out", p) == h.name
	}
	switch f.lang {
	case "c", "cpp":
		for i := range f.imports {
			if same(i) {
				return true
			}
		}
	case "csharp":
		_, ok := f.imports[h.pkg]
		return ok || f.pkg == h.pkg
	case "java", "kotlin":
		if f.pkg == h.pkg {
			return true
		}
		for i := range f.imports {
			if i == h.pkg+".*" || strings.HasPrefix(i, h.pkg+".") && h.decls[i[len(h.pkg)+1:]] {
				return true
			}
		}
	case "go":
		if path.Dir(f.name) == path.Dir(h.name) {
			return true
		}
		for _, p := range f.imports {
			if path.Join("/out", p) == path.Dir(h.name) || strings.HasPrefix(p, ".") && path.Join(path.Dir(path.Dir(f.name)), p) == path.Dir(h.name) { // relative paths start at the parent, as documented
				return true
			}
		}
	case "python":
		for _, m := range f.imports {
			m = strings.TrimLeft(m, ".")
			if same(strings.ReplaceAll(m, ".", "/") + ".py") {
				return true
			}
		}
	case "commonjs", "esm":
		for _, m := range f.imports {
			if same(m) || same(m+".js") {
				return true
			}
		}
	}
	return false
}

// check resolves the names the file uses; it returns what is missing.
func (f *emFile) check(all []*emFile) (bad []string, n int, quiet []string) {
	vis := f.visible(all)
	imps := map[string]bool{}
	defs := map[string]bool{}
	for _, v := range vis {
		textual := f.lang == "c" || f.lang == "cpp"
		if v == f || textual {
			for i := range v.imports {
				imps[i] = true
			}
		}
		// helpers are private to a file, except where inclusion is textual
		// (sources are never included) or a package shares its scope
		if v == f || textual || f.lang == "go" || f.lang == "kotlin" && v.pkg == f.pkg || f.lang == "csharp" || f.lang == "python" && v != f {
			for d := range v.defs {
				if f.lang == "python" && v != f && strings.HasPrefix(d, "_") {
					continue // import * leaves these out
				}
				defs[d] = true
			}
		}
	}
	has := func(alts string) bool {
		for _, a := range strings.Split(alts, "|") {
			if imps[a] {
				return true
			}
		}
		return false
	}
	done := map[string]bool{}
	report := func(name, what string) {
		if !done[name] {
			done[name] = true
			bad = append(bad, what)
		}
	}
	t := f.toks
	lib := libNames[f.lang]
	roots := map[string]bool{}
	for _, r := range modRoots[f.lang] {
		roots[r] = true
	}
	locals := f.locals()
	used := map[string]bool{}
	for i, x := range t {
		if x.k != 'i' {
			continue
		}
		prev, next := "", ""
		if i > 0 && t[i-1].k == 'p' {
			prev = t[i-1].s
		}
		if i+1 < len(t) && t[i+1].k == 'p' {
			next = t[i+1].s
		}
		zq := strings.Contains(strings.ToLower(strings.ReplaceAll(x.s, "_", "")), "zq")
		// library names
		name := x.s
		qual := prev == "." || prev == "->" || prev == "?." || prev == "::" || prev == "!!."
		if f.lang == "cpp" && prev == "::" && i > 1 && t[i-2].s == "std" {
			if h, ok := lib["std::"+name]; ok {
				n++
				if !has(h) {
					report("std::"+name, fmt.Sprintf("uses std::%s without including <%s>", name, strings.Split(h, "|")[0]))
				}
				continue
			}
			if h, ok := lib[name]; ok {
				n++
				if !has(h) {
					report(name, fmt.Sprintf("uses std::%s without including <%s>", name, strings.Split(h, "|")[0]))
				}
				continue
			}
		}
		if f.lang == "cpp" && prev == "::" && (i < 2 || t[i-2].k != 'i') {
			qual = false
		}
		if qual {
			continue
		}
		used[name] = true
		if h, ok := lib[name]; ok && !zq && !locals[name] && !(defs[name] && f.lang != "python") {
			if f.lang == "c" || f.lang == "cpp" || next == "." || next == "(" || next == "<" || f.lang == "python" {
				n++
				if !has(h) {
					report(name, fmt.Sprintf("uses %s without %s", name, strings.Split(h, "|")[0]))
				}
			}
			continue
		}
		if roots[name] && next == "." && !locals[name] {
			n++
			if _, ok := f.imports[name]; !ok {
				report(name, fmt.Sprintf("uses %s. without importing it", name))
			}
			continue
		}
		if zq {
			continue
		}
		if next == "(" && !always[f.lang][name] {
			if i > 0 && t[i-1].k == 'i' && map[string]bool{"def": true, "fun": true, "func": true, "function": true, "class": true}[t[i-1].s] {
				continue
			}
			if prev == "@" || prev == "#" || name[0] == '@' {
				continue
			}
			n++
			if !defs[name] && !locals[name] {
				report(name, fmt.Sprintf("line %d calls %s, which the file neither defines nor includes", x.line, name))
			}
		}
	}
	// Go rejects imports that are not used
	if f.lang == "go" {
		for a, p := range f.imports {
			n++
			if !used[a] && a[0] != '_' && a[0] != '.' {
				report("import "+a, fmt.Sprintf("imports %q and does not use it", p))
			}
		}
	}
	// types of the schema
	declared := map[string]bool{}
	for _, v := range vis {
		for d := range v.decls {
			declared[d] = true
		}
	}
	somewhere := map[string]bool{}
	for _, v := range all {
		for d := range v.decls {
			if strings.HasPrefix(d, "Zq") {
				somewhere[d] = true
			}
		}
	}
	for i, x := range t {
		if x.k == 'i' && somewhere[x.s] && !(i > 0 && t[i-1].s == "." && f.lang != "go" && f.lang != "esm" && f.lang != "commonjs") {
			n++
			if !declared[x.s] {
				report(x.s, fmt.Sprintf("line %d uses type %s of another file without including or importing it", x.line, x.s))
			}
		}
	}
	sort.Strings(bad)
	return
}

// locals: names declared in the file otherwise than as functions: parameters
// and variables that hold functions.
func (f *emFile) locals() map[string]bool {
	o := map[string]bool{}
	t := f.toks
	for i := 0; i+1 < len(t); i++ {
		if t[i].k != 'i' {
			continue
		}
		nx := t[i+1]
		switch f.lang {
		case "kotlin", "python":
			if nx.k == 'p' && nx.s == ":" && i > 0 && (t[i-1].s == "(" || t[i-1].s == ",") {
				o[t[i].s] = true
			}
		case "go", "java", "csharp", "c", "cpp":
			// type name in a parameter list
			if i > 0 && (t[i-1].k == 'i' || t[i-1].s == "*" || t[i-1].s == "]" || t[i-1].s == ">") && nx.k == 'p' && (nx.s == "," || nx.s == ")") {
				if f.lang != "go" && (t[i-1].s == "*") {
					continue
				}
				o[t[i].s] = true
			}
		}
		if nx.k == 'p' && (nx.s == ":=" || nx.s == "=") && (f.lang == "go" || f.lang == "python") {
			o[t[i].s] = true
		}
	}
	return o
}

func c18(w *World, r *Report) {
	r.Explain = "The generators' code was interpreted abstractly (no generator is run) for schema files each using one feature, under combinations of the options, as separate files and as a single file, and for files importing others; every identifier called, library name used and schema type mentioned in the emitted files was resolved within what the file defines, includes or imports. Go imports must also be used."
	type job struct {
		lang, what, opt string
		us              []*scUnit
		opts            map[string]any
		bad             []string
		n               int
		undec           string
	}
	var jobs []*job
	type oset struct {
		name string
		o    map[string]any
	}
	var osets []oset
	bools := []struct{ flag, field string }{{"-single", "SingleFile"}, {"-minimal", "MinimalCode"}, {"-memcpy", "MemoryCopy"}, {"-compat", "CompatibleMode"}, {"-inner", "InnerClass"}, {"-relpath", "RelativePath"}}
	for m := 0; m < 1<<len(bools); m++ {
		for _, un := range []int64{-1, 4} {
			for sx := int64(1); sx <= 2; sx++ {
				k := m + int(un) + int(sx)
				_ = k
				o := tlOpts("LoopUnroll", aiInt(un), "SignExtMethod", aiInt(sx))
				name := fmt.Sprintf("-unroll %d", un)
				for i, b := range bools {
					o[b.field] = m&(1<<i) != 0
					if m&(1<<i) != 0 {
						name += " " + b.flag
					}
				}
				osets = append(osets, oset{name, o})
			}
		}
	}
	ps := zqProfiles("P")
	imp := zqImports()
	for li, l := range tlLangs {
		for pi, p := range ps {
			for oi, o := range osets {
				if !thorough() && (oi+pi*5+li)%16 != 0 {
					continue
				}
				jobs = append(jobs, &job{lang: l, what: p.name, opt: o.name, us: []*scUnit{p.u}, opts: o.o})
			}
		}
		for oi, o := range osets {
			if !thorough() && (oi+li)%8 != 0 {
				continue
			}
			jobs = append(jobs, &job{lang: l, what: "files importing others", opt: o.name, us: imp, opts: o.o})
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		fs, err := w.tlFiles(j.lang, j.us, j.opts)
		if err != nil {
			j.undec = err.Error()
			return
		}
		texts := map[string]string{}
		var names []string
		for _, f := range fs {
			if _, ok := texts[f.Name]; !ok {
				names = append(names, f.Name)
			}
			texts[f.Name] += f.Text
		}
		var all []*emFile
		for _, n := range names {
			f, err := emLoad(j.lang, n, texts[n])
			if err != nil {
				j.undec = err.Error()
				return
			}
			all = append(all, f)
		}
		for _, f := range all {
			bad, n, _ := f.check(all)
			j.n += n
			for _, b := range bad {
				j.bad = append(j.bad, path.Base(f.name)+" "+b)
			}
		}
	})
	var mu sync.Mutex
	_ = &mu
	type g struct {
		n     int
		first string
	}
	bad := map[string]*g{}
	total := 0
	for _, j := range jobs {
		total += j.n
		if j.undec != "" {
			r.undecided(j.lang + ", " + j.what + " [" + j.opt + "]: " + j.undec)
			continue
		}
		if len(j.bad) == 0 {
			r.OK("names resolve", j.lang+", "+j.what+" ["+j.opt+"]", fmt.Sprintf("%d names", j.n))
		}
		for _, b := range j.bad {
			_, what, _ := strings.Cut(b, " ")
			if strings.HasPrefix(what, "line ") {
				_, what, _ = strings.Cut(what[5:], " ")
			}
			k := j.lang + ": " + what
			if bad[k] == nil {
				bad[k] = &g{first: fmt.Sprintf("a file with %s under %s: %s", j.what, j.opt, b)}
			}
			bad[k].n++
		}
	}
	var ks []string
	for k := range bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.Bad("names resolve", stripNum(k), tlWhere(strings.SplitN(k, ":", 2)[0]), fmt.Sprintf("%s (%d cases)", bad[k].first, bad[k].n))
	}
	r.Explain += fmt.Sprintf(" %d uses of names were resolved.", total)
	if len(r.Undec) == 0 {
		r.Floor("names resolve", 1000)
	}
}

// zqImports: a file using the types of two others.
func zqImports() []*scUnit {
	e := &scEnum{name: "ZqXE", bits: 5, vals: []scEV{{"ZQ_X", 0}, {"ZQ_Y", 1}}}
	in := &scStruct{name: "ZqXIn", bits: aiInt(8)}
	in.add(&scField{kind: "normal", name: "zq_g", ty: scB("uint8"), bits: aiInt(8)})
	a := zqUnit("zqxa", []*scStruct{in}, []*scEnum{e})
	dyn := &scStruct{name: "ZqXDyn", dynamic: true}
	dyn.add(&scField{kind: "normal", name: "zq_g", ty: &scType{kind: "string"}, bits: aiInt(-1)})
	b := zqUnit("zqxb", []*scStruct{dyn}, nil)
	et := &scType{kind: "enum", bits: 5, name: e.name, enum: e}
	it := &scType{kind: "struct", name: in.name, st: in}
	dt := &scType{kind: "struct", name: dyn.name, st: dyn}
	top := func(name string, fs ...*scField) *scStruct {
		s := &scStruct{name: name}
		n := int64(0)
		for _, f := range fs {
			s.add(f)
			n += max(0, f.bits.c)
		}
		if n%8 != 0 {
			s.add(&scField{kind: "void", bits: aiInt(8 - n%8)})
			n += 8 - n%8
		}
		s.bits = aiInt(n)
		return s
	}
	nf := func(n string, t *scType, w int64) *scField {
		return &scField{kind: "normal", name: n, ty: t, bits: aiInt(w)}
	}
	s1 := top("ZqXS1", nf("zq_a", et, 5))
	s2 := top("ZqXS2", nf("zq_a", it, 8), nf("zq_b", scArr(et, 3), 15))
	s3 := top("ZqXS3", nf("zq_a", dt, 0), nf("zq_b", scArr(it, 6), 48), nf("zq_c", scArr(dt, 2), -1))
	s3.dynamic = true
	c := zqUnit("zqxc", []*scStruct{s1, s2, s3}, nil)
	c.imports = []*scUnit{a, b}
	return []*scUnit{a, b, c}
}
