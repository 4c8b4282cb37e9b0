package main

import (
	"fmt"
	"strings"
)

// Profiles: small schema files, each using one feature of the language, from
// which the checks of conditionally emitted text are built.

type profile struct {
	name string
	u    *scUnit
}

// fresh copies a type with its declarations: each file has its own, since names are unique
// over all files of a run.
func fresh(t *scType, sfx string) *scType {
	c := *t
	if t.elem != nil {
		c.elem = fresh(t.elem, sfx)
	}
	if t.enum != nil {
		e := *t.enum
		e.name += sfx
		e.vals = nil
		for _, v := range t.enum.vals {
			e.vals = append(e.vals, scEV{v.name + "_" + strings.ToUpper(sfx), v.v})
		}
		c.enum = &e
		c.name = e.name
	}
	if t.st != nil {
		s := *t.st
		s.name += sfx
		c.name = s.name
		c.st = &s
	}
	return &c
}

// zq marks every name taken from the schema, so that generated names can be
// told from the generator's own.
func zqUnit(pkg string, sts []*scStruct, es []*scEnum) *scUnit {
	return &scUnit{path: "/w/" + pkg + ".bb", pkg: []string{pkg}, opts: map[string]any{"go_package": "ex.com/" + pkg}, structs: sts, enums: es}
}

func zqProfiles(pfx string) []profile {
	var out []profile
	add := func(name string, f func(s *scStruct) (extra []*scStruct, es []*scEnum)) {
		i := len(out)
		st := &scStruct{name: fmt.Sprintf("Zq%sS%d", pfx, i)}
		ex, es := f(st)
		n := int64(0)
		dyn := false
		for _, x := range st.fields {
			if x.bits.c > 0 {
				n += x.bits.c
			}
			if x.ty != nil {
				e := x.ty
				if e.elem != nil {
					e = e.elem
				}
				dyn = dyn || scDyn(e)
			}
		}
		if n%8 != 0 {
			st.add(&scField{kind: "void", bits: aiInt(8 - n%8)})
			n += 8 - n%8
		}
		st.bits = aiInt(n)
		st.dynamic = dyn
		out = append(out, profile{name, zqUnit(fmt.Sprintf("zq%s%d", pfx, i), append(ex, st), es)})
	}
	fld := func(t *scType, bits int64) *scField {
		return &scField{kind: "normal", name: "zq_f", ty: t, bits: aiInt(bits)}
	}
	one := func(name string, t *scType, bits int64, pre int64, opts map[string]any) {
		t = fresh(t, fmt.Sprintf("%s%d", pfx, len(out)))
		add(name, func(s *scStruct) ([]*scStruct, []*scEnum) {
			if pre > 0 {
				s.add(&scField{kind: "void", bits: aiInt(pre)})
			}
			f := fld(t, bits)
			if scDyn(t) && t.kind != "struct" {
				f.bits = aiInt(-1)
			}
			f.opts = opts
			s.add(f)
			var es []*scEnum
			var ex []*scStruct
			e := t
			if e.elem != nil {
				e = e.elem
			}
			if e.enum != nil {
				es = append(es, e.enum)
			}
			if e.st != nil {
				ex = append(ex, e.st)
			}
			return ex, es
		})
	}
	big := map[string]any{"order": "big"}
	enum := func(w int64) *scType {
		e := &scEnum{name: "ZqE", bits: w, vals: []scEV{{"ZQ_A", 0}, {"ZQ_B", 1}}}
		return &scType{kind: "enum", bits: w, name: e.name, enum: e}
	}
	sub := func(dyn bool) *scType {
		s := &scStruct{name: "ZqIn", bits: aiInt(8)}
		s.add(&scField{kind: "normal", name: "zq_g", ty: scB("uint8"), bits: aiInt(8)})
		if dyn {
			s = &scStruct{name: "ZqDyn", dynamic: true, bits: aiInt(0)}
			s.add(&scField{kind: "normal", name: "zq_g", ty: &scType{kind: "string"}, bits: aiInt(-1)})
		}
		return &scType{kind: "struct", name: s.name, st: s}
	}
	type te struct {
		name string
		t    *scType
		w    int64
		pre  int64
	}
	els := []te{{"uint8", scB("uint8"), 8, 0}, {"int16 narrow", scB("int16"), 11, 3}, {"uint32", scB("uint32"), 32, 0}, {"int32 narrow", scB("int32"), 21, 5}, {"int64 narrow", scB("int64"), 37, 3}, {"uint64", scB("uint64"), 64, 0}, {"bool", scB("bool"), 1, 2}, {"float32", scB("float32"), 32, 0}, {"float64", scB("float64"), 64, 0}, {"enum", enum(5), 5, 2}, {"wide enum", enum(20), 20, 0}, {"struct", sub(false), 8, 0}, {"variable struct", sub(true), 0, 0}, {"string", &scType{kind: "string"}, 0, 0}, {"bytes", &scType{kind: "bytes"}, 0, 0}}
	for _, e := range els {
		one(e.name, e.t, e.w, e.pre, nil)
		if e.w > 8 {
			one(e.name+" big-endian", e.t, e.w, e.pre, big)
		}
	}
	for _, e := range els {
		for _, n := range []int64{2, 6} {
			w := e.w * n
			one(fmt.Sprintf("array of %d %s", n, e.name), scArr(e.t, n), w, e.pre, nil)
		}
	}
	konst := func(name string, t *scType, w int64, v any) {
		add("constant "+name, func(s *scStruct) ([]*scStruct, []*scEnum) {
			s.add(&scField{kind: "const", name: "zq_f", ty: t, bits: aiInt(w), konst: v})
			return nil, nil
		})
	}
	konst("int16", scB("int16"), 13, int64(-5))
	konst("uint64", scB("uint64"), 64, int64(1<<40))
	konst("bool", scB("bool"), 1, true)
	konst("float32", scB("float32"), 32, 1.5)
	konst("float64", scB("float64"), 64, 2.5)
	add("void only", func(s *scStruct) ([]*scStruct, []*scEnum) {
		s.add(&scField{kind: "void", bits: aiInt(8)})
		return nil, nil
	})
	out = append(out, profile{"enumeration only", zqUnit("zq"+pfx+"eo", nil, []*scEnum{fresh(enum(3), pfx+"eo").enum})})
	return out
}
