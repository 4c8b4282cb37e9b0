package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

func dump(w *World, args []string) {
	switch args[0] {
	case "tls":
		w.tlSpecDump(args[1:])
	case "tldc":
		w.tlDynCheck(args[1:])
	case "tldyn":
		w.tlDynDump(args[1:])
	case "tlx":
		tlTryDir(args[1:])
	case "tlc":
		tlCallees(args[1:])
	case "tl":
		tlDump(args[1:])
	case "ai":
		w.aiDump(args[1:])
	case "funcs":
		for _, f := range w.Funcs {
			fmt.Println(fnName(f))
		}
	case "ssa":
		for _, f := range w.Funcs {
			if fnName(f) == args[1] {
				f.WriteTo(os.Stdout)
			}
		}
	case "tmpl":
		for _, t := range w.TmplSites() {
			if len(args) > 1 && fnName(t.Fn) != args[1] {
				continue
			}
			for i, x := range w.vx.Render(t) {
				fmt.Println("=====", fnName(t.Fn), t.Names[i], w.Pos(t.Call.Pos()))
				if len(args) > 2 || len(args) > 1 {
					fmt.Println(holesText(x))
				}
			}
		}
	case "vx":
		for _, f := range w.Funcs {
			if fnName(f) == args[1] {
				env := w.vx.Root(f)
				for _, b := range f.Blocks {
					fmt.Println("block", b.Index, b.Comment, "guards", w.vx.Guards(env, b))
					for _, i := range b.Instrs {
						if v, ok := i.(ssa.Value); ok {
							fmt.Println("   ", v.Name(), "=", w.vx.Val(env, v))
						} else {
							fmt.Println("   ", i)
						}
					}
				}
			}
		}
	}
}
