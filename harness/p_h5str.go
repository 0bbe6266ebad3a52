package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// runH5Strings adds what libnetcdf never makes, but other writers of HDF5 do, to a file:
// variables and attributes that are arrays of strings of fixed length.
func runH5Strings(c *Ctx) {
	r := c.R
	p := c.Path("f.nc")
	knobs, _ := genKnobs(r)
	base := genRef(c, p, genOpts{Mode: fmtNC4, Groups: true, Storage: true, MaxVars: 3, MaxElems: 100, PlainOnly: true})
	// old groups cannot be told from the outside: names are as they were made
	lines := append(knobs, base.lines...)
	if err := c.ref.Make(lines); err != nil {
		c.Count("skipped_reference_refused", 1)
		c.ref.Close()
		return
	}
	f, err := c.ref.Dump(p)
	if err != nil {
		c.Count("skipped_reference_refused", 1) // it cannot always read what it wrote with these knobs
		c.ref.Close()
		return
	}
	type added struct {
		path  []string
		v     string // "" for attributes of the group
		name  string
		shape []int
		want  []string
	}
	var vars, atts []added
	add := []string{}
	for _, k := range knobs {
		if strings.HasPrefix(k, "knob libver") || strings.HasPrefix(k, "knob dsattrphase") {
			add = append(add, k)
		}
	}
	add = append(add, "h5open "+hx(p))
	n := 0
	data := func(shape []int) (size, pad int, want []string, raw []byte) {
		size = pick(r, []int{2, 3, 4, 5, 7, 8, 16, 33, 200})
		pad = pick(r, []int{0, 1})
		total := 1
		for _, d := range shape {
			total *= d
		}
		for range total {
			room := size
			if pad == 0 {
				room--
			}
			b := make([]byte, r.Intn(room+1))
			for i := range b {
				b[i] = byte(33 + r.Intn(94))
			}
			if len(b) > 3 && r.Intn(4) == 0 {
				copy(b, "é ")
			}
			want = append(want, string(b))
			raw = append(raw, b...)
			raw = append(raw, make([]byte, size-len(b))...)
		}
		return
	}
	shapeOf := func(max int) []int {
		var s []int
		for range r.Intn(max + 1) {
			s = append(s, 1+r.Intn(5))
		}
		return s
	}
	stratt := func(path []string, v string) {
		shape := shapeOf(2)
		size, pad, want, raw := data(shape)
		n++
		a := added{path, v, fmt.Sprintf("zs%d", n), shape, want}
		full := "/" + strings.Join(append(append([]string{}, path...), v), "/")
		if v == "" {
			full = "/" + strings.Join(path, "/")
		}
		l := fmt.Sprintf("h5stratt %s %s %d %d %d %d", hx(full), hx(a.name), size, pad, r.Intn(2), len(shape))
		for _, d := range shape {
			l += fmt.Sprint(" ", d)
		}
		add = append(add, l+" "+hxb(raw))
		atts = append(atts, a)
	}
	eachGroup(f.Root, nil, func(m *Grp, path []string) {
		if r.Intn(3) == 0 {
			stratt(path, "")
		}
		for range r.Intn(3) {
			shape := shapeOf(3)
			size, pad, want, raw := data(shape)
			n++
			v := added{path, "", fmt.Sprintf("zv%d", n), shape, want}
			chunked := r.Intn(2)
			l := fmt.Sprintf("h5strvar %s %d %d %d %d", hx("/"+strings.Join(append(append([]string{}, path...), v.name), "/")), size, pad, r.Intn(2), len(shape))
			for _, d := range shape {
				ch, mx := 0, d
				if chunked == 1 {
					ch = 1 + r.Intn(d)
					mx = pick(r, []int{d, -1})
				}
				l += fmt.Sprintf(" %d %d %d", d, mx, ch)
			}
			add = append(add, fmt.Sprintf("%s %d %s", l, r.Intn(8), hxb(raw)))
			vars = append(vars, v)
			for range r.Intn(4) {
				stratt(path, v.name)
			}
		}
	})
	add = append(add, "h5close")
	must(c.ref.Make(add))
	g, err := netcdf.Open(p)
	if err != nil {
		c.Viol("open", "cannot open: %v\n%s", err, strings.Join(append(lines, add...), "\n"))
		return
	}
	defer g.Close()
	c.Eval()
	c.Distinct(strings.Join(add[1:], " "))
	nest := func(shape []int, flat []string) any {
		if len(shape) == 0 {
			return flat[0]
		}
		t := reflect.TypeOf("")
		for range shape {
			t = reflect.SliceOf(t)
		}
		var build func(t reflect.Type, shape []int, flat []string) reflect.Value
		build = func(t reflect.Type, shape []int, flat []string) reflect.Value {
			s := reflect.MakeSlice(t, shape[0], shape[0])
			step := len(flat) / shape[0]
			for i := range shape[0] {
				part := flat[i*step : (i+1)*step]
				if len(shape) == 1 {
					s.Index(i).SetString(part[0])
				} else {
					s.Index(i).Set(build(t.Elem(), shape[1:], part))
				}
			}
			return s
		}
		return build(t, shape, flat).Interface()
	}
	for _, v := range vars {
		gg, err := groupAt(g, v.path)
		must(err)
		in := false
		for _, x := range gg.ListVariables() {
			in = in || x == v.name
		}
		if !in {
			c.Viol("str-list", "variable %q is not listed", v.name)
		}
		x, err := gg.GetVariable(v.name)
		want := nest(v.shape, v.want)
		if err != nil || !reflect.DeepEqual(x.Values, want) {
			c.Viol("str-values", "strings of fixed length, shape %v: %q error %v, want %q\n%s", v.shape, fmt.Sprint(valuesOf(x)), err, want, strings.Join(add, "\n"))
			continue
		}
		c.Count("fixed_string_variables", 1)
		if len(v.shape) == 0 {
			continue
		}
		gt, err := gg.GetVarGetter(v.name)
		must(err)
		b := r.Intn(v.shape[0] + 1)
		e := b + r.Intn(v.shape[0]+1-b)
		s, err := gt.GetSlice(int64(b), int64(e))
		ws := reflect.ValueOf(want).Slice(b, e).Interface()
		if err != nil || !(reflect.DeepEqual(s, ws) || b == e && reflect.ValueOf(s).Len() == 0) {
			c.Viol("str-slice", "strings of fixed length, shape %v, slice %d..%d: %q error %v, want %q", v.shape, b, e, fmt.Sprint(s), err, ws)
		}
	}
	for _, a := range atts {
		gg, err := groupAt(g, a.path)
		must(err)
		om := gg.Attributes()
		if a.v != "" {
			x, err := gg.GetVariable(a.v)
			if err != nil {
				continue // reported above
			}
			om = x.Attributes
		}
		x, has := om.Get(a.name)
		want := nest(a.shape, a.want)
		// leading dimensions of length one may be left out (attributes have one dimension in NetCDF)
		strip := func(v any) any {
			for rv := reflect.ValueOf(v); rv.Kind() == reflect.Slice && rv.Len() == 1; rv = reflect.ValueOf(v) {
				v = rv.Index(0).Interface()
			}
			return v
		}
		want, x = strip(want), strip(x)
		if !has || !reflect.DeepEqual(x, want) {
			c.Viol("str-attribute", "attribute of strings of fixed length, shape %v: %q (present: %v), want %q\n%s", a.shape, fmt.Sprint(x), has, want, strings.Join(add, "\n"))
			continue
		}
		c.Count("fixed_string_attributes", 1)
	}
}

func valuesOf(v *api.Variable) any {
	if v == nil {
		return nil
	}
	return v.Values
}
