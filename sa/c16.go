package main

import (
	"go/types"
	"sort"
	"strings"
	"text/template/parse"
)

func init() {
	register("C16", "parsing and type checking of every template against the values and functions supplied at each place it is rendered", checkC16)
}

func checkC16(w *World, r *Report) {
	r.Explain = "Every call of util.ExecuteTemplate was resolved to the template text, the set of definitions it may execute, the data keys and function map it supplies (on every path), and each template action reachable from there was followed through if, range, with and nested templates: each value it names must be supplied or be a member of the static type (or of an implementation) of the value it is taken from, each function must be supplied and be called with the right number and kinds of arguments, each nested template must exist."
	dead := namelessAccessors(w, r)
	deadText := map[string]bool{}
	sites := w.TmplSites()
	used := map[string]map[string]bool{}
	texts := map[string]string{}
	for _, s := range sites {
		where := w.Pos(s.Call.Pos())
		c := fnName(s.Fn) + " " + s.Key
		if dead[s.Fn] {
			r.OK("unreachable", c)
			deadText[s.Key] = true
			continue
		}
		if s.Text == "" {
			r.Bad("template-text", c, where, "the template text rendered here is not a constant of the program")
			continue
		}
		if !s.NamesAll || len(s.Names) == 0 {
			r.Bad("template-name", c, where, "the definition rendered here is not a constant of the program")
			continue
		}
		r.OK("template-name", c)
		sort.Strings(s.Names)
		c += " " + strings.Join(s.Names, "|")
		bads := 0
		n := w.CheckSite(s, func(what string) {
			bads++
			r.Bad("render", c, where, what)
		}, nil)
		if bads == 0 {
			for i := 0; i < n; i++ {
				r.OK("render", c)
			}
			r.OK("render", c)
		}
		texts[s.Key] = s.Text
		for _, nm := range s.Names {
			if used[s.Key] == nil {
				used[s.Key] = map[string]bool{}
			}
			used[s.Key][nm] = true
		}
	}
	// definitions nobody renders still have to be well formed, which parsing showed
	for _, k := range sortedKeys(texts) {
		set, err := ParseTmpl(texts[k])
		r.Check(err == nil, "parse", k, "-", "the template does not parse")
		for _, n := range sortedKeys(set) {
			checkTree(set[n], set, func(what string) { r.Bad("parse", k+" "+n, "-", what) })
		}
	}
	r.Floor("accessor-named", 2)
	r.Floor("template-name", 400)
	r.Floor("render", 2000)
	r.Floor("parse", 60)
}

func checkTree(t *parse.Tree, set map[string]*parse.Tree, bad func(string)) {
	var walk func(n parse.Node)
	walk = func(n parse.Node) {
		switch n := n.(type) {
		case *parse.ListNode:
			if n != nil {
				for _, x := range n.Nodes {
					walk(x)
				}
			}
		case *parse.IfNode:
			walk(n.List)
			walk(n.ElseList)
		case *parse.RangeNode:
			walk(n.List)
			walk(n.ElseList)
		case *parse.WithNode:
			walk(n.List)
			walk(n.ElseList)
		case *parse.TemplateNode:
			if set[n.Name] == nil {
				bad("renders the definition " + n.Name + ", which does not exist")
			}
		}
	}
	walk(t.Root)
}

var _ types.Type
