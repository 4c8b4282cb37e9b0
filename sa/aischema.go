package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Construction of the abstract schemas the generators are evaluated on.

func (w *World) typ(pkg, name string) types.Type {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (w *World) fn(pkg, name string) *ssa.Function {
	if p := w.SSA[pkg]; p != nil {
		return p.Func(name)
	}
	return nil
}

// mk makes an object of a named struct type and returns its address.
func (it *AI) mk(pkg, name string, fields map[string]any) *aiCell {
	t := it.w.typ(pkg, name)
	if t == nil {
		it.stop("type %s.%s not found", pkg, name)
	}
	c := &aiCell{it.zero(t)}
	st := t.Underlying().(*types.Struct)
	o := c.v.(*aiObj)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if v, ok := fields[f.Name()]; ok {
			o.f[i].v = v
			delete(fields, f.Name())
			continue
		}
		if p, ok := f.Type().Underlying().(*types.Pointer); ok {
			if nt, ok := p.Elem().(*types.Named); ok && nt.Obj().Name() == "OrderedMap" {
				o.f[i].v = it.newMap(f.Type())
			}
		}
	}
	for k := range fields {
		it.stop("type %s has no field %s", name, k)
	}
	return c
}

func (it *AI) getField(c *aiCell, pkg, name, field string) *aiCell {
	st := it.w.typ(pkg, name).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return c.v.(*aiObj).f[i]
		}
	}
	it.stop("type %s has no field %s", name, field)
	return nil
}

// iface boxes an address of a definition.* object.
func (it *AI) ptrTo(pkg, name string, c *aiCell) *aiIface {
	return &aiIface{types.NewPointer(it.w.typ(pkg, name)), c}
}

// newMap makes an empty ordered map of the given pointer type.
func (it *AI) newMap(t types.Type) any {
	it.w.newMapsOnce.Do(func() {
		it.w.newMaps = map[string]*ssa.Function{}
		for _, f := range it.w.Funcs {
			if o := f.Origin(); o != nil && o.Name() == "NewOrderedMap" && f.Signature.Results().Len() == 1 {
				it.w.newMaps[f.Signature.Results().At(0).Type().String()] = f
			}
		}
	})
	f := it.w.newMaps[t.String()]
	if f == nil {
		it.stop("no constructor for %s", t)
	}
	return it.call(f, nil, nil)
}

func (it *AI) mapType(pkg, name, field string) types.Type {
	st := it.w.typ(pkg, name).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i).Type()
		}
	}
	it.stop("type %s has no field %s", name, field)
	return nil
}

func (it *AI) put(t types.Type, m any, key, val any) {
	fn := it.w.Prog.LookupMethod(t, nil, "Put")
	if fn == nil {
		it.stop("no Put on %s", t)
	}
	it.call(fn, []any{m, key, val}, nil)
}

func (it *AI) putAnon(t types.Type, m any, val any) {
	fn := it.w.Prog.LookupMethod(t, nil, "PutAnonymous")
	if fn == nil {
		it.stop("no PutAnonymous on %s", t)
	}
	it.call(fn, []any{m, val}, nil)
}

// ---- schema description

type scType struct {
	kind  string // bool uint8 … float64, string, bytes, enum, struct, array
	elem  *scType
	n     int64
	bits  int64 // enum width
	name  string
	st    *scStruct
	enum  *scEnum
	basic bool
}

type scField struct {
	kind  string // normal, void, const, embedded
	name  string
	ty    *scType
	bits  aiNum
	opts  map[string]any // order: "big"
	konst any            // int64, float64, bool, string
	base  string
	uns   bool
	sub   *scStruct
}

type scStruct struct {
	name    string
	fields  []*scField
	dynamic bool
	bits    aiNum
}

type scEnum struct {
	name string
	bits int64
	vals []scEV
}

type scEV struct {
	name string
	v    int64
}

type scUnit struct {
	path    string
	pkg     []string
	opts    map[string]any
	structs []*scStruct
	enums   []*scEnum
	imports []*scUnit
}

type scBuild struct {
	it      *AI
	structs map[*scStruct]*aiCell
	enums   map[*scEnum]*aiCell
	units   map[*scUnit]*aiCell
}

const defPkg = "definition"

func (b *scBuild) literal(v any) any {
	it := b.it
	switch x := v.(type) {
	case string:
		return it.ptrTo(defPkg, "StringLiteral", it.mk(defPkg, "StringLiteral", map[string]any{"StringValue": x}))
	case bool:
		return it.ptrTo(defPkg, "BoolLiteral", it.mk(defPkg, "BoolLiteral", map[string]any{"BoolValue": x}))
	case int64:
		return it.ptrTo(defPkg, "IntLiteral", it.mk(defPkg, "IntLiteral", map[string]any{"IntValue": aiInt(x)}))
	case uint64:
		return it.ptrTo(defPkg, "IntLiteral", it.mk(defPkg, "IntLiteral", map[string]any{"IntValue": aiInt(int64(x)), "Unsigned": true}))
	case float64:
		return it.ptrTo(defPkg, "FloatLiteral", it.mk(defPkg, "FloatLiteral", map[string]any{"FloatValue": x}))
	}
	it.stop("literal %v", v)
	return nil
}

func (b *scBuild) options(t types.Type, o map[string]any) any {
	it := b.it
	m := it.newMap(t)
	for _, k := range sortedKeys(o) {
		op := it.mk(defPkg, "Option", map[string]any{"OptionName": k, "OptionValue": b.literal(o[k])})
		it.put(t, m, k, op)
	}
	return m
}

func (b *scBuild) typ(t *scType) *aiIface {
	it := b.it
	switch t.kind {
	case "string":
		return it.ptrTo(defPkg, "String", it.mk(defPkg, "String", nil))
	case "bytes":
		return it.ptrTo(defPkg, "Bytes", it.mk(defPkg, "Bytes", nil))
	case "array":
		return it.ptrTo(defPkg, "Array", it.mk(defPkg, "Array", map[string]any{"ElementType": b.typ(t.elem), "Length": aiInt(t.n)}))
	case "enum":
		return it.ptrTo(defPkg, "Enum", b.enum(t.enum))
	case "struct":
		return it.ptrTo(defPkg, "Struct", b.strct(t.st))
	}
	// basic types live in package variables of definition
	nm := strings.ToUpper(t.kind[:1]) + t.kind[1:]
	p := it.w.SSA[defPkg]
	if g, ok := p.Members[nm].(*ssa.Global); ok {
		c := it.global(g)
		bt := it.w.typ(defPkg, "BasicType")
		if pt, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), bt) {
			return &aiIface{pt, c.v}
		}
		return it.ptrTo(defPkg, "BasicType", c)
	}
	it.stop("no basic type %s", t.kind)
	return nil
}

func (b *scBuild) enum(e *scEnum) *aiCell {
	it := b.it
	if c, ok := b.enums[e]; ok {
		return c
	}
	c := it.mk(defPkg, "Enum", map[string]any{"EnumName": e.name, "EnumBitSize": aiInt(e.bits)})
	b.enums[e] = c
	mt := it.mapType(defPkg, "Enum", "EnumValues")
	m := it.getField(c, defPkg, "Enum", "EnumValues").v
	for _, v := range e.vals {
		ev := it.mk(defPkg, "EnumValue", map[string]any{"EnumValueName": v.name, "EnumValue": aiInt(v.v), "EnumValueBelongs": c})
		it.put(mt, m, v.name, ev)
	}
	return c
}

func (b *scBuild) strct(s *scStruct) *aiCell {
	it := b.it
	if c, ok := b.structs[s]; ok {
		return c
	}
	c := it.mk(defPkg, "Struct", map[string]any{"StructName": s.name, "StructBitSize": s.bits, "StructDynamic": s.dynamic})
	b.structs[s] = c
	mt := it.mapType(defPkg, "Struct", "StructFields")
	m := it.getField(c, defPkg, "Struct", "StructFields").v
	for _, f := range s.fields {
		var fi *aiIface
		switch f.kind {
		case "normal":
			ot := it.mapType(defPkg, "NormalField", "FieldOptions")
			fi = it.ptrTo(defPkg, "NormalField", it.mk(defPkg, "NormalField", map[string]any{
				"FieldName": f.name, "FieldType": b.typ(f.ty), "FieldBitSize": f.bits, "FieldOptions": b.options(ot, f.opts), "FieldBelongs": c}))
		case "void":
			ot := it.mapType(defPkg, "VoidField", "FieldOptions")
			fi = it.ptrTo(defPkg, "VoidField", it.mk(defPkg, "VoidField", map[string]any{"FieldBitSize": f.bits, "FieldOptions": b.options(ot, f.opts), "FieldBelongs": c}))
		case "const":
			ot := it.mapType(defPkg, "ConstantField", "FieldOptions")
			lit := b.literal(f.konst)
			if f.base != "" {
				lc := lit.(*aiIface).v.(*aiCell)
				it.getField(lc, defPkg, "IntLiteral", "Base").v = it.constNamed(defPkg, "IntBase"+f.base)
			}
			fi = it.ptrTo(defPkg, "ConstantField", it.mk(defPkg, "ConstantField", map[string]any{
				"FieldName": f.name, "FieldType": b.typ(f.ty).v, "FieldBitSize": f.bits, "FieldConstant": lit, "FieldOptions": b.options(ot, f.opts), "FieldBelongs": c}))
		case "embedded":
			ot := it.mapType(defPkg, "EmbeddedField", "FieldOptions")
			fi = it.ptrTo(defPkg, "EmbeddedField", it.mk(defPkg, "EmbeddedField", map[string]any{
				"FieldType": b.strct(f.sub), "FieldBitSize": f.bits, "FieldOptions": b.options(ot, f.opts), "FieldBelongs": c}))
		}
		if f.name != "" {
			it.put(mt, m, f.name, fi)
		} else {
			it.putAnon(mt, m, fi)
		}
	}
	return c
}

func (it *AI) constNamed(pkg, name string) any {
	c := it.w.Pkgs[pkg].Types.Scope().Lookup(name)
	k, ok := c.(*types.Const)
	if !ok {
		it.stop("no constant %s", name)
	}
	return it.constVal(ssa.NewConst(k.Val(), k.Type()))
}

func (b *scBuild) unit(u *scUnit) *aiCell {
	it := b.it
	if c, ok := b.units[u]; ok {
		return c
	}
	id := it.mk(defPkg, "FileIdentifer", map[string]any{"Name": u.path, "Path": u.path})
	c := it.call(it.w.fn(defPkg, "NewCompilationUnit"), []any{id}, nil).(*aiCell)
	b.units[u] = c
	fld := func(n string) *aiCell { return it.getField(c, defPkg, "CompilationUnit", n) }
	ft := func(n string) types.Type { return it.mapType(defPkg, "CompilationUnit", n) }
	fld("Package").v = it.call(it.w.fn(defPkg, "NewPackage"), []any{aiNil{}, it.strSlice(u.pkg)}, nil)
	fld("Options").v = b.options(ft("Options"), u.opts)
	for _, im := range u.imports {
		ic := b.unit(im)
		for _, n := range []string{"GlobalImports", "LocalImports"} {
			it.put(ft(n), fld(n).v, im.path, ic)
		}
	}
	add := func(name string, i *aiIface) {
		fn := it.w.Prog.LookupMethod(types.NewPointer(it.w.typ(defPkg, "CompilationUnit")), nil, "AddLocalType")
		it.call(fn, []any{c, i}, nil)
	}
	for _, e := range u.enums {
		add(e.name, it.ptrTo(defPkg, "Enum", b.enum(e)))
	}
	for _, s := range u.structs {
		add(s.name, it.ptrTo(defPkg, "Struct", b.strct(s)))
	}
	return c
}

// genOptions: each option is given a value or left unknown.
func (it *AI) genOptions(set map[string]any) *aiCell {
	t := it.w.typ("generator/gen", "GenOptions")
	st := t.Underlying().(*types.Struct)
	o := &aiObj{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if v, ok := set[f.Name()]; ok {
			o.f = append(o.f, &aiCell{v})
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Slice:
			o.f = append(o.f, &aiCell{aiNil{}})
		default:
			o.f = append(o.f, &aiCell{&aiUnk{"option " + f.Name()}})
		}
	}
	return &aiCell{o}
}

// generate evaluates one target over abstract units; the outcome's AI holds the files.
func (w *World) generate(shared *aiShared, target string, units []*scUnit, opts map[string]any, max int) []aiOut {
	return w.aiPaths(shared, max, func(it *AI) any {
		b := &scBuild{it: it, structs: map[*scStruct]*aiCell{}, enums: map[*scEnum]*aiCell{}, units: map[*scUnit]*aiCell{}}
		g := w.SSA["generator"]
		tm, ok := g.Members["TargetMap"].(*ssa.Global)
		if !ok {
			it.stop("no generator.TargetMap")
		}
		m := it.global(tm).v
		mt := tm.Type().(*types.Pointer).Elem()
		get := w.Prog.LookupMethod(mt, nil, "Get")
		r := it.call(get, []any{m, target}, nil).(aiTuple)
		if r[1] != true {
			it.stop("target %s is not registered", target)
		}
		us := &aiSlice{}
		for _, u := range units {
			us.arr = append(us.arr, &aiCell{b.unit(u)})
		}
		us.hi = len(us.arr)
		ctx := it.mk("generator/gen", "GenCtx", map[string]any{"Units": us, "GenOptions": it.genOptions(opts), "OutputPath": "/out"})
		gi := r[0].(*aiIface)
		fn := w.Prog.LookupMethod(gi.t, nil, "Generate")
		res := it.call(fn, []any{gi.v, ctx}, nil)
		return res
	})
}

func (b *scStruct) add(f *scField) *scStruct { b.fields = append(b.fields, f); return b }

func (w *World) aiDump(args []string) {
	st := &scStruct{name: "Tst", bits: aiNum{8, 64}}
	st.add(&scField{kind: "void", bits: aiNum{8, 3}})
	st.add(&scField{kind: "normal", name: "fa", ty: &scType{kind: "int16"}, bits: aiInt(13)})
	st.add(&scField{kind: "normal", name: "fb", ty: &scType{kind: "array", elem: &scType{kind: "int16"}, n: 2}, bits: aiInt(24), opts: map[string]any{"order": "big"}})
	st.add(&scField{kind: "normal", name: "fc", ty: &scType{kind: "array", elem: &scType{kind: "int16"}, n: 12}, bits: aiInt(144), opts: map[string]any{"order": "big"}})
	st.add(&scField{kind: "const", name: "fd", ty: &scType{kind: "int16"}, bits: aiInt(16), konst: int64(-3)})
	st.add(&scField{kind: "const", name: "fe", ty: &scType{kind: "float32"}, bits: aiInt(32), konst: float64(-3.5)})
	u := &scUnit{path: "/w/tst.bb", pkg: []string{"tst"}, structs: []*scStruct{st}}
	set := map[string]any{"SingleFile": false, "InnerClass": false, "MinimalCode": true, "RelativePath": false, "CompatibleMode": false, "DecimalNumber": false, "MemoryCopy": true,
		"SignExtMethod": aiInt(0), "LoopUnroll": aiInt(4)}
	for _, a := range args[1:] {
		delete(set, a)
	}
	for _, o := range w.generate(nil, args[0], []*scUnit{u}, set, 64) {
		fmt.Println("=====", o.Conds, o.Err, o.Steps, o.Val)
		if o.It == nil {
			continue
		}
		for _, f := range o.It.Files {
			fmt.Println("--- " + f.Name)
			if len(args) == 1 {
				fmt.Println(f.Text)
			}
		}
	}
}
