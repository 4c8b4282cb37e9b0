package main

// caseText is one way a (text, error) result can come out.
type caseText struct {
	Facts []*X
	Text  *X
	Err   *X
}

// firstCond finds an undecided choice inside x, outermost first.
func firstCond(x *X, stop func(*X) bool) *X {
	if stop != nil && stop(x) {
		return nil
	}
	if x.Op == "sel" {
		return x.Args[0]
	}
	if x.Op == "closure" || x.Op == "new" {
		return nil
	}
	for _, a := range x.Args {
		if c := firstCond(a, stop); c != nil {
			return c
		}
	}
	return nil
}

// atomsOf picks one literal of a condition to split on.
func splitOn(c *X) *X {
	switch c.Op {
	case "and", "or":
		return splitOn(c.Args[0])
	case "not":
		return splitOn(c.Args[0])
	case "sel":
		return splitOn(c.Args[0])
	}
	return c
}

// splitCases enumerates the combinations of undecided choices of the parts.
func splitCases(parts []*X, facts []*X, stop func(*X) bool, limit int) [][2]any {
	var out [][2]any
	var rec func(ps []*X, fs []*X) bool
	rec = func(ps []*X, fs []*X) bool {
		if len(out) > limit {
			return false
		}
		var c *X
		for _, p := range ps {
			if c = firstCond(p, stop); c != nil {
				break
			}
		}
		if c == nil {
			out = append(out, [2]any{ps, fs})
			return true
		}
		a := splitOn(c)
		for _, f := range []*X{a, Not(a)} {
			nfs := append(append([]*X{}, fs...), f)
			if contradicts(nfs) {
				continue
			}
			var np []*X
			for _, p := range ps {
				np = append(np, given(p, nfs...))
			}
			if !rec(np, nfs) {
				return false
			}
		}
		return true
	}
	var ps []*X
	for _, p := range parts {
		ps = append(ps, given(p, facts...))
	}
	if !rec(ps, facts) {
		return nil
	}
	return out
}

// contradicts: two type tests for different concrete types cannot both hold.
func contradicts(fs []*X) bool {
	seen := map[string]string{}
	for _, f := range fs {
		if f.Op == "is" && len(f.Lit) > 0 && f.Lit[0] == '*' {
			k := f.Args[0].Key()
			if o, ok := seen[k]; ok && o != f.Lit {
				return true
			}
			seen[k] = f.Lit
		}
	}
	return false
}
