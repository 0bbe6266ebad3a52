package main

// N08: slices equal that part of the whole. N09: requests outside are refused.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"slices"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func init() {
	register(&Prop{ID: "N08", Level: "exploration",
		Rule:  "every variable of a random file of either format, with random and (small shapes) all slice vectors; one evaluation per slice request; distinct by type, shape and request",
		Cases: func(t string) int { return tierN(t, 1000, 6000) },
		Run:   runN08, Min: map[string]int64{"slices": 5000, "slices_md": 5000}})
	register(&Prop{ID: "N09", Level: "exploration",
		Rule:  "every variable of a random file of either format, with slice vectors outside it; one evaluation per request; distinct by type, shape and request",
		Cases: func(t string) int { return tierN(t, 1000, 6000) },
		Run:   runN09, Min: map[string]int64{"requests": 5000}})
}

// canonSub renders the part [begin,end) of a value of the given rank.
func canonSub(v any, begin, end []int64) string {
	var b strings.Builder
	rv := reflect.ValueOf(v)
	b.WriteString(rv.Type().String())
	canonSubRec(&b, rv, begin, end)
	return b.String()
}

func canonSubRec(b *strings.Builder, rv reflect.Value, begin, end []int64) {
	if len(begin) == 0 {
		canonRec(b, rv)
		return
	}
	if rv.Kind() == reflect.Interface {
		b.WriteString("<" + rv.Elem().Type().String() + ">")
		canonSubRec(b, rv.Elem(), begin, end)
		return
	}
	if rv.Kind() == reflect.Struct && rv.NumField() == 3 { // enumerated values
		b.WriteString("{")
		canonSubRec(b, rv.Field(0), begin, end)
		b.WriteString(" ")
		canonRec(b, rv.Field(1))
		b.WriteString(" ")
		canonRec(b, rv.Field(2))
		b.WriteString("}")
		return
	}
	if rv.Kind() == reflect.String {
		l := int64(rv.Len())
		fmt.Fprintf(b, "%q", rv.String()[min(begin[0], l):min(end[0], l)])
		return
	}
	if rv.Kind() != reflect.Slice {
		hfail("canonSub: %v", rv.Type())
	}
	if rv.Type().Elem().Kind() == reflect.Uint8 && len(begin) == 1 {
		fmt.Fprintf(b, "x%x", rv.Bytes()[begin[0]:end[0]])
		return
	}
	b.WriteString("[")
	for i := begin[0]; i < end[0]; i++ {
		if i > begin[0] {
			b.WriteString(" ")
		}
		canonSubRec(b, rv.Index(int(i)), begin[1:], end[1:])
	}
	b.WriteString("]")
}

func full(shape []int) (b, e []int64) {
	for _, n := range shape {
		b = append(b, 0)
		e = append(e, int64(n))
	}
	return
}

// hasInnerZero: the library drops the nesting of values without elements.
func boxEmpty(b, e []int64) bool {
	for i := range b {
		if e[i] == b[i] {
			return true
		}
	}
	return false
}

// sameBox compares a slice with the part of the whole.
func sameBox(c *Ctx, sig, what string, got any, whole any, b, e []int64) {
	c.Eval()
	if got == nil {
		c.Viol(sig+"-nil", "%s: nil slice", what)
		return
	}
	want := canonSub(whole, b, e)
	have := canon(got)
	if have != want {
		if boxEmpty(b, e) && reflect.TypeOf(got) == reflect.TypeOf(whole) && countLeaves(reflect.ValueOf(got)) == 0 {
			return
		}
		c.Viol(sig, "%s: slice %v..%v is\n %s\nwant\n %s", what, b, e, clip(have), clip(want))
	}
}

func randBox(r *rand.Rand, shape []int) (b, e []int64) {
	for _, n := range shape {
		x, y := r.Intn(n+1), r.Intn(n+1)
		switch r.Intn(6) {
		case 0:
			x, y = 0, n
		case 1:
			y = min(x+1, n)
		case 2:
			if x > 0 {
				x--
			}
			y = x + 1
		}
		if x > y {
			x, y = y, x
		}
		b = append(b, int64(x))
		e = append(e, int64(min(y, n)))
	}
	return
}

// eachVar visits every variable through a fresh getter.
func eachVar(c *Ctx, root api.Group, m *Grp, f func(w string, v *Var, g api.Group, get api.VarGetter)) {
	eachGroup(m, nil, func(m *Grp, path []string) {
		g, err := groupAt(root, path)
		if err != nil {
			c.Viol("group-err", "%v: %v", path, err)
			return
		}
		for i := range m.Vars {
			v := &m.Vars[i]
			w := fmt.Sprintf("/%s/%s (%s%v)", strings.Join(path, "/"), v.Name, v.T, v.Shape)
			c.note = w
			get, err := g.GetVarGetter(v.Name)
			if err != nil {
				c.Viol("getter-err", "%s: %v", w, err)
				continue
			}
			f(w, v, g, get)
		}
		if len(path) > 0 {
			g.Close()
		}
	})
}

func toI64(a []int) []int64 {
	out := []int64{}
	for _, x := range a {
		out = append(out, int64(x))
	}
	return out
}

func runN08(c *Ctx) {
	r := c.R
	mode := modeOf(c.Case)
	o := genOpts{Mode: mode, Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 800, Partial: c.Case%5 == 0}
	p, f, h5 := refFile(c, o)
	root := mustOpen(c, p)
	defer root.Close()
	n := tierN(c.Tier, 6, 16)
	eachVar(c, root, f.Root, func(w string, v *Var, g api.Group, get api.VarGetter) {
		av, err := g.GetVariable(v.Name)
		if err != nil {
			c.Viol("var-err", "%s: %v", w, err)
			return
		}
		whole := av.Values
		// the getter's own description
		shape := get.Shape()
		if fmt.Sprint(shape) != fmt.Sprint(toI64(v.Shape)) {
			c.Viol("shape", "%s: getter's shape is %v", w, shape)
			return
		}
		sh := make([]int, len(shape))
		for i := range shape {
			sh[i] = int(shape[i])
		}
		wantLen := int64(1)
		if len(sh) > 0 {
			wantLen = int64(sh[0])
		}
		if get.Len() != wantLen {
			c.Viol("len", "%s: getter's length is %d, want %d", w, get.Len(), wantLen)
			return
		}
		if !sameStrings(get.Dimensions(), av.Dimensions) {
			c.Viol("dims", "%s: getter's dimensions are %q, the variable's %q", w, get.Dimensions(), av.Dimensions)
		}
		if a, b := canonAtts(get.Attributes()), canonAtts(av.Attributes); a != b {
			c.Viol("atts", "%s: getter's attributes are %s, the variable's %s", w, clip(a), clip(b))
		}
		all, err := get.Values()
		if err != nil {
			c.Viol("values-err", "%s: Values: %v", w, err)
			return
		}
		if canon(all) != canon(whole) {
			c.Viol("values", "%s: Values differs from GetVariable:\n %s\n %s", w, clip(canon(all)), clip(canon(whole)))
		}
		c.Sample("%s", w)
		// HDF5 character data ends at its first NUL: a part behind that of a variable that was not written
		// completely is not in the string that is the whole of it
		text := func(got any, b, e int64) bool {
			if !h5 || v.T.K != "char" || len(sh) != 1 {
				return false
			}
			s := string(v.Data[b:e])
			if k := strings.IndexByte(s, 0); k >= 0 {
				s = s[:k]
			}
			return got == any(s)
		}
		one := func(b, e int64) {
			got, err := get.GetSlice(b, e)
			c.Count("slices", 1)
			c.Distinct(fmt.Sprint(v.T, sh, b, e))
			if err != nil {
				c.Viol("slice-err", "%s: GetSlice(%d,%d): %v", w, b, e, err)
				return
			}
			if len(sh) == 0 {
				sameBox(c, "slice", w, got, whole, nil, nil)
				return
			}
			fb, fe := full(sh)
			fb[0], fe[0] = b, e
			if text(got, b, e) {
				return
			}
			sameBox(c, "slice", w, got, whole, fb[:1], fe[:1])
		}
		md := func(b, e []int64) {
			b0, e0 := append([]int64{}, b...), append([]int64{}, e...)
			got, err := get.GetSliceMD(b, e)
			if !slices.Equal(b, b0) || !slices.Equal(e, e0) {
				c.Viol("slicemd-args", "%s: GetSliceMD(%v,%v) changed the caller's request to (%v,%v)", w, b0, e0, b, e)
				b, e = b0, e0
			}
			c.Count("slices_md", 1)
			c.Distinct(fmt.Sprint(v.T, sh, b, e))
			if err != nil {
				c.Viol("slicemd-err", "%s: GetSliceMD(%v,%v): %v", w, b, e, err)
				return
			}
			if len(b) == 1 && text(got, b[0], e[0]) {
				return
			}
			sameBox(c, "slicemd", w, got, whole, b, e)
		}
		if len(sh) == 0 {
			one(0, 1)
			md([]int64{}, []int64{})
			md(nil, nil)
			return
		}
		if sh[0] <= 6 {
			for b := 0; b <= sh[0]; b++ {
				for e := b; e <= sh[0]; e++ {
					one(int64(b), int64(e))
				}
			}
		} else {
			for range n {
				b, e := randBox(r, sh[:1])
				one(b[0], e[0])
			}
			one(0, int64(sh[0]))
			one(int64(sh[0]), int64(sh[0]))
			one(int64(sh[0])-1, int64(sh[0]))
		}
		b, e := full(sh)
		md(b, e)
		if boxes(sh) <= tierN(c.Tier, 40, 400) {
			allBoxes(sh, func(b, e []int64) { md(b, e) })
		} else {
			for range n * 2 {
				md(randBox(r, sh))
			}
		}
	})
}

func boxes(sh []int) int {
	p := 1
	for _, n := range sh {
		p *= (n + 1) * (n + 2) / 2
		if p > 1<<20 {
			return p
		}
	}
	return p
}

func allBoxes(sh []int, f func(b, e []int64)) {
	b := make([]int64, len(sh))
	e := make([]int64, len(sh))
	var rec func(i int)
	rec = func(i int) {
		if i == len(sh) {
			f(append([]int64{}, b...), append([]int64{}, e...))
			return
		}
		for x := 0; x <= sh[i]; x++ {
			for y := x; y <= sh[i]; y++ {
				b[i], e[i] = int64(x), int64(y)
				rec(i + 1)
			}
		}
	}
	rec(0)
}

func canonAtts(m api.AttributeMap) string {
	if m == nil {
		return "nil"
	}
	var b strings.Builder
	for _, k := range m.Keys() {
		v, has := m.Get(k)
		fmt.Fprintf(&b, "%q=%v:%s;", k, has, canon(v))
	}
	return b.String()
}

var extremes = []int64{-1, -2, math.MinInt64, math.MaxInt64, math.MinInt64 + 1, math.MaxInt64 - 1, -1 << 32, 1 << 31, 1 << 32, 1 << 40, 1 << 62}

func runN09(c *Ctx) {
	r := c.R
	mode := modeOf(c.Case)
	o := genOpts{Mode: mode, Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 300}
	p, f, _ := refFile(c, o)
	root := mustOpen(c, p)
	defer root.Close()
	eachVar(c, root, f.Root, func(w string, v *Var, g api.Group, get api.VarGetter) {
		shape := get.Shape()
		l := get.Len()
		before, err := get.Values()
		if err != nil {
			c.Viol("values-err", "%s: Values: %v", w, err)
			return
		}
		ref := canon(before)
		c.Sample("%s", w)
		bad := func(b, e int64) {
			c.Eval()
			c.Count("requests", 1)
			c.Distinct(fmt.Sprint(v.T, shape, b, e))
			c.note = fmt.Sprintf("%s GetSlice(%d,%d)", w, b, e)
			got, err := get.GetSlice(b, e)
			if err == nil {
				c.Viol("slice-served", "%s: GetSlice(%d,%d) of a variable of length %d succeeded: %s", w, b, e, l, clip(canon(got)))
			} else if got != nil {
				c.Viol("slice-data", "%s: GetSlice(%d,%d) returned data with error %v", w, b, e, err)
			}
		}
		badMD := func(b, e []int64) {
			c.Eval()
			c.Count("requests", 1)
			c.Distinct(fmt.Sprint(v.T, shape, b, e))
			c.note = fmt.Sprintf("%s GetSliceMD(%d,%d)", w, b, e)
			b0, e0 := append([]int64{}, b...), append([]int64{}, e...)
			got, err := get.GetSliceMD(b, e)
			if !slices.Equal(b, b0) || !slices.Equal(e, e0) {
				c.Viol("slicemd-args", "%s: GetSliceMD(%v,%v) changed the caller's request to (%v,%v)", w, b0, e0, b, e)
				b, e = b0, e0
			}
			if err == nil {
				c.Viol("slicemd-served", "%s: GetSliceMD(%v,%v) succeeded: %s", w, b, e, clip(canon(got)))
			} else if got != nil {
				c.Viol("slicemd-data", "%s: GetSliceMD(%v,%v) returned data with error %v", w, b, e, err)
			}
		}
		inside := func() int64 { return int64(r.Intn(int(l) + 1)) }
		bad(-1, l)
		bad(-1, 0)
		bad(0, l+1)
		bad(l, l+1)
		bad(l+1, l+2)
		bad(1, 0)
		if len(shape) > 0 {
			bad(l+1, l+1)
			bad(-1, -1)
		}
		for range 3 {
			x := pick(r, extremes)
			if r.Intn(2) == 0 {
				bad(x, inside())
				if x > l {
					bad(inside(), x)
				}
			} else {
				y := pick(r, extremes)
				bad(x, y)
			}
		}
		// wrong number of dimensions
		badMD(make([]int64, len(shape)+1), append(append([]int64{}, shape...), 1))
		if len(shape) > 0 {
			badMD(nil, nil)
			badMD([]int64{}, []int64{})
			badMD(make([]int64, len(shape)-1), append([]int64{}, shape[1:]...))
			badMD(make([]int64, len(shape)), nil)
			badMD(nil, append([]int64{}, shape...))
			badMD(make([]int64, len(shape)), append([]int64{}, shape[1:]...))
			badMD(make([]int64, len(shape)-1), append([]int64{}, shape...))
		} else {
			badMD([]int64{0}, []int64{1})
			badMD([]int64{0}, nil)
			badMD(nil, []int64{1})
		}
		for range 8 {
			if len(shape) == 0 {
				break
			}
			sh := make([]int, len(shape))
			for i := range shape {
				sh[i] = int(shape[i])
			}
			b, e := randBox(r, sh)
			k := r.Intn(len(shape))
			switch r.Intn(6) {
			case 0:
				b[k] = -1
			case 1:
				e[k] = shape[k] + 1
			case 2:
				b[k], e[k] = e[k]+1, b[k]
			case 3:
				b[k] = pick(r, extremes)
				if b[k] >= 0 && b[k] <= e[k] {
					b[k] = -1
				}
			case 4:
				e[k] = pick(r, extremes)
				if e[k] <= shape[k] && e[k] >= b[k] {
					e[k] = shape[k] + 1
				}
			case 5:
				b[k], e[k] = shape[k]+1, shape[k]+1
			}
			badMD(b, e)
		}
		after, err := get.Values()
		if err != nil {
			c.Viol("values-after", "%s: Values after refused slices: %v", w, err)
		} else if canon(after) != ref {
			c.Viol("disturbed", "%s: refused slices changed later reads", w)
		}
		av, err := g.GetVariable(v.Name)
		if err != nil {
			c.Viol("var-after", "%s: GetVariable after refused slices: %v", w, err)
		} else if canon(av.Values) != ref {
			c.Viol("disturbed", "%s: refused slices changed later reads", w)
		}
	})
}
