package main

// N19: listings, lookups and values agree with each other.

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func init() {
	register(&Prop{ID: "N19", Level: "exploration",
		Rule:  "every group of random files of both formats: each listed name looked up, near-miss and internal names looked up, declared types against the dynamic types of the values, every spelling of a group's path; one evaluation per lookup; distinct by kind of lookup and name class",
		Cases: func(t string) int { return tierN(t, 1800, 20000) },
		Run:   runN19, Min: map[string]int64{"listed_lookups": 4000, "unknown_lookups": 5000, "path_lookups": 500, "type_checks": 2000}})
}

var cdlOfGo = map[string]string{"int8": "byte", "uint8": "ubyte", "int16": "short", "uint16": "ushort", "int32": "int",
	"uint32": "uint", "int64": "int64", "uint64": "uint64", "float32": "float", "float64": "double", "string": "string"}

func leafType(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Slice && t.Name() == "" {
		t = t.Elem()
	}
	return t
}

func baseOf(s string) string {
	if i := strings.IndexByte(s, '('); i >= 0 {
		s = s[:i]
	}
	return s
}

// typeAgrees checks declared CDL and Go types of a value of a primitive type.
func typeAgrees(t *TD, v any, cdl, goT string) error {
	if !t.isPrim() {
		if cdl == "" || goT == "" {
			return fmt.Errorf("empty type %q %q", cdl, goT)
		}
		return nil
	}
	leaf := leafType(reflect.TypeOf(v)).Name()
	cdl = baseOf(cdl)
	goT = strings.TrimLeft(goT, "[]0123456789")
	if goT != leaf {
		return fmt.Errorf("Go type %q, but the value is %T", goT, v)
	}
	ok := cdl == cdlOfGo[leaf] || t.K == "char" && cdl == "char"
	if !ok {
		return fmt.Errorf("CDL type %q, but the value is %T", cdl, v)
	}
	if t.K != "char" && cdl != t.K {
		return fmt.Errorf("CDL type %q, want %q", cdl, t.K)
	}
	return nil
}

func noDups(c *Ctx, what string, l []string) {
	seen := map[string]bool{}
	for _, x := range l {
		if seen[x] {
			c.Viol("dup", "%s lists %q twice: %q", what, x, l)
		}
		seen[x] = true
		for _, p := range []string{"_nc4_non_coord_", "_Netcdf4", "_NCProperties", "DIMENSION_LIST", "REFERENCE_LIST"} {
			if strings.HasPrefix(x, p) {
				c.Viol("internal", "%s lists the internal name %q", what, x)
			}
		}
	}
}

func runN19(c *Ctx) {
	o := genOpts{Mode: modeOf(c.Case), Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 200, Partial: c.Case%3 == 0}
	p, f, isH5 := refFile(c, o)
	root := mustOpen(c, p)
	defer root.Close()
	c.Sample("%s", shapeKey(f.Root))
	var all []string
	eachGroup(f.Root, nil, func(m *Grp, path []string) {
		for _, v := range m.Vars {
			all = append(all, v.Name)
		}
		for _, d := range m.Dims {
			all = append(all, d.Name)
		}
		for _, t := range m.Types {
			all = append(all, t.Name)
		}
		for _, s := range m.Groups {
			all = append(all, s.Name)
		}
	})
	// dims visible in a group
	var visit func(m *Grp, g api.Group, path []string, outer []Dim)
	visit = func(m *Grp, g api.Group, path []string, outer []Dim) {
		w := "/" + strings.Join(path, "/")
		c.note = w
		vars, subs, dims, types := g.ListVariables(), g.ListSubgroups(), g.ListDimensions(), g.ListTypes()
		noDups(c, w+" variables", vars)
		noDups(c, w+" subgroups", subs)
		noDups(c, w+" dimensions", dims)
		noDups(c, w+" types", types)
		in := func(l []string, s string) bool {
			for _, x := range l {
				if x == s {
					return true
				}
			}
			return false
		}
		var wantV, wantG, wantD, wantT []string
		for _, v := range m.Vars {
			wantV = append(wantV, v.Name)
		}
		for _, s := range m.Groups {
			wantG = append(wantG, s.Name)
		}
		for _, d := range m.Dims {
			wantD = append(wantD, d.Name)
		}
		for _, t := range m.Types {
			wantT = append(wantT, t.Name)
		}
		order := func(what string, got, want []string) {
			c.Eval()
			if f.unordered {
				got, want = sortedCopy(got), sortedCopy(want)
			}
			if !sameStrings(got, want) {
				c.Viol("order:"+what, "%s: %s are %q, want %q", w, what, got, want)
			}
		}
		order("variables", vars, wantV)
		order("subgroups", subs, wantG)
		order("types", types, wantT)
		if isH5 {
			// a coordinate variable made later takes over its dimension's place in the file
			noCoord := func(l []string) (out []string) {
				for _, d := range l {
					if !in(wantV, d) {
						out = append(out, d)
					}
				}
				return out
			}
			order("dimensions", noCoord(dims), noCoord(wantD))
			order("dimensions", sortedCopy(dims), sortedCopy(wantD))
		} else {
			order("dimensions", dims, wantD)
		}
		scope := append(append([]Dim{}, outer...), m.Dims...)
		listed := func() { c.Eval(); c.Count("listed_lookups", 1) }
		attTypes := func(w string, am api.AttributeMap, atts []Att) {
			noDups(c, w+" attributes", am.Keys())
			for _, k := range am.Keys() {
				listed()
				v, has := am.Get(k)
				t, hast := am.GetType(k)
				gt, hasg := am.GetGoType(k)
				if !has || !hast || !hasg {
					c.Viol("att-lookup", "%s: attribute %q is listed but Get/GetType/GetGoType say %v %v %v", w, k, has, hast, hasg)
					continue
				}
				for _, a := range atts {
					if a.Name == k {
						c.Count("type_checks", 1)
						if err := typeAgrees(a.T, v, t, gt); err != nil {
							c.Viol("att-type", "%s: attribute %q (%s x%d): %v", w, k, a.T, a.N, err)
						}
					}
				}
			}
			for _, k := range append([]string{"", "nosuch", "_Netcdf4Dimid", "DIMENSION_LIST", "REFERENCE_LIST", "CLASS", "NAME", "_Netcdf4Coordinates"}, all...) {
				if in(am.Keys(), k) {
					continue
				}
				c.Eval()
				c.Count("unknown_lookups", 1)
				if _, has := am.Get(k); has && k != "_NCProperties" {
					c.Viol("att-unlisted", "%s: unlisted attribute %q is found", w, k)
				}
				if t, has := am.GetType(k); has {
					c.Viol("att-unlisted", "%s: unlisted attribute %q has type %q", w, k, t)
				}
				if t, has := am.GetGoType(k); has {
					c.Viol("att-unlisted", "%s: unlisted attribute %q has Go type %q", w, k, t)
				}
			}
		}
		attTypes(w, g.Attributes(), m.Atts)
		for i := range m.Vars {
			v := &m.Vars[i]
			vw := w + "/" + v.Name
			c.note = vw
			listed()
			av, err := g.GetVariable(v.Name)
			gt, err2 := g.GetVarGetter(v.Name)
			if err != nil || err2 != nil {
				c.Viol("var-lookup", "%s: listed but GetVariable, GetVarGetter say %v, %v", vw, err, err2)
				continue
			}
			shape := gt.Shape()
			if len(av.Dimensions) != len(shape) {
				c.Viol("rank", "%s: dimensions %q but shape %v", vw, av.Dimensions, shape)
				continue
			}
			for k, dn := range av.Dimensions {
				// A variable can have a dimension that one of its own group hides by having the same name.
				found, agrees, size := false, false, 0
				for j := len(scope) - 1; j >= 0; j-- {
					if scope[j].Name != dn {
						continue
					}
					if !found {
						size = scope[j].Len
					}
					found = true
					if int64(scope[j].Len) == shape[k] || scope[j].Unlim && isH5 && shape[k] < int64(scope[j].Len) {
						agrees = true
					}
				}
				if found && !agrees {
					c.Viol("dim-size", "%s: dimension %q has size %d, the shape is %v", vw, dn, size, shape)
				}
				if !found {
					c.Viol("dim-undeclared", "%s: dimension %q is not declared in the group or around it", vw, dn)
				}
			}
			if err := shapeMatches(av.Values, shape, v.T); err != nil {
				c.Viol("value-shape", "%s: %v", vw, err)
			}
			c.Count("type_checks", 1)
			if err := typeAgrees(v.T, av.Values, gt.Type(), gt.GoType()); err != nil {
				c.Viol("var-type", "%s (%s%v): %v", vw, v.T, v.Shape, err)
			}
			attTypes(vw, av.Attributes, v.Atts)
		}
		for _, d := range m.Dims {
			listed()
			n, has := g.GetDimension(d.Name)
			if !has || n != uint64(d.Len) && !(d.Unlim && n == 0) {
				c.Viol("dim-lookup", "%s: listed dimension %q: %d %v, want %d", w, d.Name, n, has, d.Len)
			}
		}
		for _, t := range types {
			listed()
			s, has := g.GetType(t)
			s2, has2 := g.GetGoType(t)
			if !has || !has2 || s == "" || s2 == "" {
				c.Viol("type-lookup", "%s: listed type %q: %q %v %q %v", w, t, s, has, s2, has2)
			}
		}
		// what is not listed cannot be found
		unknown := append([]string{"", "/", ".", "..", "nosuch", "_NCProperties", "_Netcdf4Dimid", "DIMENSION_LIST", "_nc4_non_coord_x", "phony_dim_0", "\x00", "a/b", "//", " "}, all...)
		for _, n := range all {
			unknown = append(unknown, n+"x", "/"+n, n+"/", strings.ToUpper(n)+"_", n[:len(n)-1], n+"\x00")
		}
		for _, n := range unknown {
			c.note = fmt.Sprintf("%s lookup of %q", w, n)
			if !in(vars, n) {
				c.Eval()
				c.Count("unknown_lookups", 1)
				if v, err := g.GetVariable(n); err == nil {
					c.Viol("unlisted-var", "%s: GetVariable(%q) finds an unlisted variable %v", w, n, v)
				} else if !strings.Contains(err.Error(), "not found") {
					c.Viol("unlisted-var-err", "%s: GetVariable(%q): %v, want not found", w, n, err)
				}
				if _, err := g.GetVarGetter(n); err == nil {
					c.Viol("unlisted-var", "%s: GetVarGetter(%q) finds an unlisted variable", w, n)
				} else if !strings.Contains(err.Error(), "not found") {
					c.Viol("unlisted-var-err", "%s: GetVarGetter(%q): %v, want not found", w, n, err)
				}
			}
			if !in(dims, n) {
				c.Eval()
				c.Count("unknown_lookups", 1)
				if l, has := g.GetDimension(n); has {
					c.Viol("unlisted-dim", "%s: GetDimension(%q) finds %d", w, n, l)
				}
			}
			if !in(types, n) {
				c.Eval()
				c.Count("unknown_lookups", 1)
				if s, has := g.GetType(n); has {
					c.Viol("unlisted-type", "%s: GetType(%q) finds %q", w, n, s)
				}
				if s, has := g.GetGoType(n); has {
					c.Viol("unlisted-type", "%s: GetGoType(%q) finds %q", w, n, s)
				}
			}
			if !in(subs, strings.Trim(n, "/")) && strings.Trim(n, "/") != "" && !strings.Contains(n, "/") {
				c.Eval()
				c.Count("unknown_lookups", 1)
				if ng, err := g.GetGroup(n); err == nil {
					c.Viol("unlisted-group", "%s: GetGroup(%q) finds a group", w, n)
					ng.Close()
				} else if !strings.Contains(err.Error(), "not found") {
					c.Viol("unlisted-group-err", "%s: GetGroup(%q): %v, want not found", w, n, err)
				}
			}
		}
		// group paths
		here := groupView(g)
		spell := []struct {
			from api.Group
			path string
		}{{root, "/" + strings.Join(path, "/")}, {g, "/" + strings.Join(path, "/")}}
		if len(path) > 0 {
			spell = append(spell, struct {
				from api.Group
				path string
			}{root, strings.Join(path, "/")}, struct {
				from api.Group
				path string
			}{root, "/" + strings.Join(path, "/") + "/"}, struct {
				from api.Group
				path string
			}{root, strings.Join(path, "//") + "/"})
		} else {
			spell = append(spell, struct {
				from api.Group
				path string
			}{g, "/"})
		}
		for _, s := range spell {
			c.Eval()
			c.Count("path_lookups", 1)
			c.note = w + " path " + s.path
			ng, err := s.from.GetGroup(s.path)
			if err != nil {
				c.Viol("path", "%s: GetGroup(%q): %v", w, s.path, err)
				continue
			}
			if v := groupView(ng); v != here {
				c.Viol("path-view", "%s: GetGroup(%q) gives another group:\n%s\n%s", w, s.path, clip(v), clip(here))
			}
			ng.Close()
		}
		for _, s := range m.Groups {
			listed()
			ng, err := g.GetGroup(s.Name)
			if err != nil {
				c.Viol("group-lookup", "%s: listed group %q: %v", w, s.Name, err)
				continue
			}
			visit(s, ng, append(append([]string{}, path...), s.Name), scope)
			ng.Close()
		}
	}
	visit(f.Root, root, nil, nil)
	c.Distinct(shapeKey(f.Root))
}

func groupView(g api.Group) string {
	return fmt.Sprintf("%q %q %q %q %s", g.ListVariables(), g.ListSubgroups(), g.ListDimensions(), g.ListTypes(), canonAtts(g.Attributes()))
}

// shapeMatches checks that a value is nested as its shape says.
func shapeMatches(v any, shape []int64, t *TD) error {
	p := int64(1)
	for _, n := range shape {
		p *= n
	}
	if p == 0 {
		return nil
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Struct && rv.NumField() == 3 {
		rv = rv.Field(0)
	}
	if t.K == "char" && len(shape) > 0 {
		shape = shape[:len(shape)-1]
	}
	for i, n := range shape {
		if rv.Kind() == reflect.Interface {
			rv = rv.Elem()
		}
		if rv.Kind() != reflect.Slice || int64(rv.Len()) != n {
			return fmt.Errorf("value %v does not have the shape %v at dimension %d", rv.Type(), shape, i)
		}
		rv = rv.Index(0)
	}
	return nil
}
