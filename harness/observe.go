package main

// Comparison of the library's view of an open file with the model.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func sortedCopy(a []string) []string {
	b := append([]string{}, a...)
	sort.Strings(b)
	return b
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type cmpOpts struct {
	hdf5      bool
	order     bool // listings must come in file order
	skipTypes bool
}

// expectAtt returns the expected shape of an attribute's Go value.
func attShape(a Att) []int {
	if a.T.K == "char" {
		return []int{a.N}
	}
	if a.N == 1 {
		return nil
	}
	return []int{a.N}
}

func cmpAtts(c *Ctx, where string, am api.AttributeMap, atts []Att, o cmpOpts) {
	if am == nil {
		c.Viol("atts-nil", "%s: nil attribute map", where)
		return
	}
	var want []string
	for _, a := range atts {
		want = append(want, a.Name)
	}
	got := am.Keys()
	if o.order {
		if !sameStrings(got, want) {
			c.Viol("att-keys", "%s: attributes %q, want %q in this order", where, got, want)
			return
		}
	} else if !sameStrings(sortedCopy(got), sortedCopy(want)) {
		c.Viol("att-keys", "%s: attributes %q, want %q", where, got, want)
		return
	}
	for _, a := range atts {
		v, has := am.Get(a.Name)
		if !has {
			c.Viol("att-get", "%s: attribute %q listed but not found", where, a.Name)
			continue
		}
		c.Count("attributes", 1)
		data := a.Data
		shape := attShape(a)
		if o.hdf5 && a.T.K == "char" {
			// character data ends at its first NUL
			if k := strings.IndexByte(string(data), 0); k >= 0 {
				data = data[:k]
				shape = []int{k}
			}
		}
		if err := cmpValue(v, a.T, shape, data); err != nil {
			c.Viol("att-value", "%s: attribute %q (%s x%d): %v", where, a.Name, a.T, a.N, err)
		}
	}
}

// charTrim normalises char arrays read from HDF5 (rows end at their first NUL).
func cmpVarValue(v any, t *TD, shape []int, data []byte, hdf5 bool) error {
	if len(shape) > 0 && prod(shape) == 0 {
		// no elements: the nesting of an empty value is not pinned down
		if v == nil {
			return fmt.Errorf("nil value, want an empty %s%v", t, shape)
		}
		if n := countLeaves(reflect.ValueOf(v)); n != 0 {
			return fmt.Errorf("%d elements in a value of shape %v", n, shape)
		}
		return nil
	}
	if t.K == "char" && hdf5 && len(shape) == 0 && len(data) == 1 && data[0] == 0 && v == any("") {
		return nil
	}
	if t.K == "char" && hdf5 && len(shape) > 0 {
		return cmpCharRows(v, shape, data, fmt.Sprintf("%T", v))
	}
	return cmpValue(v, t, shape, data)
}

func cmpCharRows(v any, shape []int, data []byte, path string) error {
	if v == nil {
		return fmt.Errorf("nil value")
	}
	if want := goType(prims["char"], shape); fmt.Sprintf("%T", v) != want.String() {
		return fmt.Errorf("dynamic type %T, want %v", v, want)
	}
	rows := flattenStrings(v)
	n := prod(shape[:len(shape)-1])
	if len(rows) != n {
		return fmt.Errorf("%d rows, want %d", len(rows), n)
	}
	w := shape[len(shape)-1]
	for i, s := range rows {
		want := string(data[i*w : (i+1)*w])
		if k := strings.IndexByte(want, 0); k >= 0 {
			want = want[:k]
		}
		if s != want {
			return fmt.Errorf("row %d is %q, want %q", i, clip(s), clip(want))
		}
	}
	return nil
}

func flattenStrings(v any) []string {
	switch x := v.(type) {
	case string:
		return []string{x}
	case []string:
		return x
	case [][]string:
		var out []string
		for _, y := range x {
			out = append(out, flattenStrings(y)...)
		}
		return out
	case [][][]string:
		var out []string
		for _, y := range x {
			out = append(out, flattenStrings(y)...)
		}
		return out
	case [][][][]string:
		var out []string
		for _, y := range x {
			out = append(out, flattenStrings(y)...)
		}
		return out
	}
	return nil
}

func cmpGroup(c *Ctx, where string, g api.Group, m *Grp, o cmpOpts) {
	// attributes
	cmpAtts(c, where, g.Attributes(), m.Atts, o)
	// dimensions
	var want []string
	for _, d := range m.Dims {
		want = append(want, d.Name)
	}
	got := g.ListDimensions()
	if !sameStrings(sortedCopy(got), sortedCopy(want)) {
		c.Viol("dims-list", "%s: dimensions %q, want %q", where, got, want)
	}
	for _, d := range m.Dims {
		n, has := g.GetDimension(d.Name)
		// the library may report an unlimited dimension as 0, its size in the definition
		if !has || (n != uint64(d.Len) && !(d.Unlim && n == 0)) {
			c.Viol("dim-get", "%s: dimension %q: %d,%v want %d", where, d.Name, n, has, d.Len)
		}
		c.Count("dimensions", 1)
	}
	// variables
	want = nil
	for _, v := range m.Vars {
		want = append(want, v.Name)
	}
	got = g.ListVariables()
	if o.order && !sameStrings(got, want) || !sameStrings(sortedCopy(got), sortedCopy(want)) {
		c.Viol("vars-list", "%s: variables %q, want %q", where, got, want)
	}
	for _, v := range m.Vars {
		w := where + "/" + v.Name
		c.note = w
		av, err := g.GetVariable(v.Name)
		if err != nil {
			c.Viol("var-err", "%s (%s%v): %v", w, v.T, v.Shape, err)
			continue
		}
		c.Count("variables", 1)
		c.Count("elements", int64(prod(v.Shape)))
		if !sameStrings(av.Dimensions, v.Dims) {
			c.Viol("var-dims", "%s: dimensions %q, want %q", w, av.Dimensions, v.Dims)
		}
		if err := cmpVarValue(av.Values, v.T, v.Shape, v.Data, o.hdf5); err != nil {
			c.Viol("var-value", "%s (%s%v): %v", w, v.T, v.Shape, err)
		}
		cmpAtts(c, w, av.Attributes, v.Atts, o)
	}
	// groups
	want = nil
	for _, s := range m.Groups {
		want = append(want, s.Name)
	}
	got = g.ListSubgroups()
	if o.order && !sameStrings(got, want) || !sameStrings(sortedCopy(got), sortedCopy(want)) {
		c.Viol("groups-list", "%s: groups %q, want %q", where, got, want)
	}
	for _, s := range m.Groups {
		sg, err := g.GetGroup(s.Name)
		if err != nil {
			c.Viol("group-err", "%s: group %q: %v", where, s.Name, err)
			continue
		}
		c.Count("groups", 1)
		cmpGroup(c, where+"/"+s.Name, sg, s, o)
		sg.Close()
	}
}

// shapeKey summarises a file for the distinct counter.
func shapeKey(g *Grp) string {
	var b strings.Builder
	for _, d := range g.Dims {
		fmt.Fprintf(&b, "d%d%v;", d.Len, d.Unlim)
	}
	for _, v := range g.Vars {
		fmt.Fprintf(&b, "v%s%v", v.T, v.Shape)
		for _, a := range v.Atts {
			fmt.Fprintf(&b, "a%s%d", a.T, a.N)
		}
	}
	for _, a := range g.Atts {
		fmt.Fprintf(&b, "a%s%d", a.T, a.N)
	}
	for _, s := range g.Groups {
		b.WriteString("(" + shapeKey(s) + ")")
	}
	return b.String()
}

// countLeaves counts the scalars below a (nested) value.
func countLeaves(rv reflect.Value) int {
	switch rv.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			return 0
		}
		return countLeaves(rv.Elem())
	case reflect.Slice:
		n := 0
		for i := range rv.Len() {
			n += countLeaves(rv.Index(i))
		}
		return n
	case reflect.String:
		return rv.Len()
	case reflect.Struct:
		if rv.NumField() == 3 { // enumerated value
			return countLeaves(rv.Field(0))
		}
	}
	return 1
}
