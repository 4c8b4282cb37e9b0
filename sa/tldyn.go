package main

import (
	"fmt"
	"strings"
)

// Structures with parts whose size is known at run time only.

type dynSuite struct {
	u     *scUnit
	types map[string]*scType
	sts   map[string]*scStruct
	order []string
}

// scDyn: the size of a value of the type is known at run time only.
func scDyn(t *scType) bool {
	if t.elem != nil {
		return scDyn(t.elem)
	}
	return t.kind == "string" || t.kind == "bytes" || t.st != nil && t.st.dynamic
}

func newDyn() *dynSuite {
	return &dynSuite{u: &scUnit{path: "/w/tst.bb", pkg: []string{"tst"}}, types: map[string]*scType{}, sts: map[string]*scStruct{}}
}

func (d *dynSuite) add(name string, fs ...*scField) *scType {
	s := &scStruct{name: name}
	n := int64(0)
	for i, f := range fs {
		if f.name == "" && f.kind != "void" && f.kind != "embedded" {
			f.name = fmt.Sprintf("f%d", i)
		}
		s.add(f)
		if f.ty != nil && scDyn(f.ty) && !(f.ty.kind == "struct") {
			f.bits = aiInt(-1)
		} else {
			n += f.bits.c
		}
		if f.ty != nil {
			e := f.ty
			if e.elem != nil {
				e = e.elem
			}
			if scDyn(e) {
				s.dynamic = true
			}
			if e.enum != nil && d.types[e.name] == nil {
				d.types[e.name] = e
				d.u.enums = append(d.u.enums, e.enum)
			}
		}
	}
	s.bits = aiInt(n)
	d.u.structs = append(d.u.structs, s)
	t := &scType{kind: "struct", name: name, st: s}
	d.types[name] = t
	d.sts[name] = s
	d.order = append(d.order, name)
	return t
}

func fld(t *scType, bits int64) *scField {
	return &scField{kind: "normal", ty: t, bits: aiInt(bits)}
}
func scN(t *scType, n int64) *scField {
	w := int64(0)
	if t.st != nil {
		w = t.st.bits.c
	} else if t.kind != "string" && t.kind != "bytes" {
		w = int64(t.width())
	}
	return fld(scArr(t, n), w*n)
}
func scVoid(n int64) *scField { return &scField{kind: "void", bits: aiInt(n)} }

var tStr = &scType{kind: "string"}
var tByt = &scType{kind: "bytes"}

func dynBase() *dynSuite {
	d := newDyn()
	u8 := scB("uint8")
	r := d.add("Ra", fld(u8, 8), fld(scB("uint16"), 16))
	da := d.add("Da", fld(u8, 8), fld(tByt, 0), fld(u8, 8), fld(tStr, 0), fld(u8, 8))
	d.add("Db", fld(u8, 8), scN(tStr, 2), fld(scB("int16"), 11), scVoid(5), scN(tByt, 2), fld(u8, 8))
	d.add("Dc", fld(u8, 8), fld(r, 24), fld(da, da.st.bits.c), fld(u8, 8), fld(da, da.st.bits.c), fld(u8, 8))
	d.add("Dd", fld(u8, 8), scN(r, 2), scN(da, 2), fld(u8, 8))
	return d
}

func (w *World) tlDynDump(args []string) {
	d := dynBase()
	un := int64(8)
	if len(args) > 3 {
		fmt.Sscan(args[3], &un)
	}
	for _, lang := range strings.Split(args[0], ",") {
		p, err := w.tlEmit(nil, lang, d.u, d.types, tlOpts("LoopUnroll", aiInt(un)))
		if err != nil {
			fmt.Println(lang, err)
			continue
		}
		for _, n := range d.order {
			if len(args) > 1 && args[1] != n {
				continue
			}
			for _, role := range []string{"encode", "decode", "decode_size", "encode_size"} {
				if len(args) > 2 && args[2] != role {
					continue
				}
				ps := p.run(d.sts[n], n, role, nil, 3000, nil)
				fmt.Println(lang, n, role, len(ps))
				if len(args) > 2 {
					for i := range ps {
						if len(args) > 4 && fmt.Sprint(i) != args[4] {
							continue
						}
						fmt.Print(ps[i].show())
					}
				} else {
					for i := range ps {
						if ps[i].Err != "" {
							fmt.Println("  ", ps[i].Err)
							break
						}
					}
				}
			}
		}
	}
}
