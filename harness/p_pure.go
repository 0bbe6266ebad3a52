package main

// N22: writing leaves its arguments alone and is a function of the calls. N20: attribute maps.

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

func init() {
	register(&Prop{ID: "N22", Level: "exploration",
		Rule:  "random writer programs of both formats run with every argument snapshotted before and compared after each call and after close, names, lists and maps scribbled on between calls, then run again alone and interleaved with another program; one evaluation per file; distinct by structure",
		Cases: func(t string) int { return tierN(t, 4000, 60000) },
		Run:   runN22, Min: map[string]int64{"arguments_checked": 10000, "scribbled": 3000, "files_compared": 4000}})
	register(&Prop{ID: "N20", Level: "exploration",
		Rule:  "random sequences of 10-60 operations on attribute maps (construction from matching and mismatching arguments, additions of new, present and hidden keys, hiding, lookups, listings, type descriptions, callers changing what they passed and got) against a sequential model; one evaluation per operation; distinct by operation kind and state",
		Cases: func(t string) int { return tierN(t, 20000, 400000) },
		Run:   runN20, Min: map[string]int64{"adds_of_present_keys": 5000, "adds_of_hidden_keys": 1000, "refused": 1000, "scribbles": 1000}})
}

func canonAny(v any) string {
	return fmt.Sprintf("%T %s", v, canonGo(reflect.ValueOf(v)))
}

// canonGo renders a Go value with the exact bits of its numbers.
func canonGo(rv reflect.Value) string {
	switch rv.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Slice, reflect.Array:
		var b strings.Builder
		if rv.Kind() == reflect.Slice && rv.IsNil() {
			b.WriteString("nil")
		}
		b.WriteString("[")
		for i := range rv.Len() {
			b.WriteString(canonGo(rv.Index(i)) + " ")
		}
		return b.String() + "]"
	case reflect.Float32, reflect.Float64, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var buf bytes.Buffer
		util.MustWriteLE(&buf, rv.Interface())
		return fmt.Sprintf("%x", buf.Bytes())
	}
	return fmt.Sprintf("%q", fmt.Sprint(rv.Interface()))
}

func canonMap(m api.AttributeMap) string {
	if m == nil || reflect.ValueOf(m).IsNil() {
		return "nil"
	}
	var b strings.Builder
	for _, k := range m.Keys() {
		v, has := m.Get(k)
		fmt.Fprintf(&b, "%q=%v %s;", k, has, canonAny(v))
	}
	return b.String()
}

type snapshot struct {
	val  string
	dims string
	m    api.AttributeMap
	ms   string
	raw  []string
	op   *wOp
}

func runN22(c *Ctx) {
	var p, q *wprog
	if c.Case%2 == 0 {
		p, q = genCDFProg(c.R, 6, 300), genCDFProg(c.R, 4, 100)
	} else {
		p, q = genH5Prog(c.R, 6, 300), genH5Prog(c.R, 4, 100)
	}
	if c.Case%7 == 0 {
		q = genCDFProg(c.R, 4, 100)
	}
	c.Sample("%s", p.listing())
	c.Distinct(shapeKey(p.root))
	c.Eval()
	// first run: arguments watched, and scribbled on when a call is over
	path := c.Path("a.nc")
	x := p.start(c, path)
	var snaps []snapshot
	check := func(s snapshot, when string) {
		c.Count("arguments_checked", 1)
		if v := canonAny(s.op.Val); v != s.val {
			c.Viol("value-changed", "%s: values of %s became %s", when, s.op, clip(v))
		}
		if v := fmt.Sprintf("%q", s.raw); v != s.dims {
			c.Viol("dims-changed", "%s: dimension names %s became %s in %s", when, s.dims, v, s.op)
		}
		if v := canonMap(s.m); v != s.ms {
			c.Viol("attrs-changed", "%s: attributes %s became %s in %s", when, clip(s.ms), clip(v), s.op)
		}
	}
	var shared api.AttributeMap
	var sharedOf *wOp
	for _, op := range p.ops {
		s := snapshot{op: op, val: canonAny(op.Val)}
		var dims []string
		if op.Dims != nil {
			dims = append(make([]string, 0, len(op.Dims)+2), op.Dims...)
			s.raw = dims[:cap(dims)]
			for i := len(dims); i < len(s.raw); i++ {
				s.raw[i] = "spare"
			}
		}
		s.m = op.attMap()
		// one map may serve several calls
		if op.Kind != opGroup && shared != nil && chance(c.R, 0.3) && canonMap(shared) == canonMap(mkAtts(sharedOf.Atts)) {
			s.m = shared
			// the expected file has the same attributes twice
			p.shareAtts(op, sharedOf)
			c.Count("maps_shared", 1)
		} else if op.Kind != opGroup && s.m != nil {
			shared, sharedOf = s.m, op
		}
		s.dims = fmt.Sprintf("%q", s.raw)
		s.ms = canonMap(s.m)
		if err := x.step(op, s.m, dims); err != nil {
			c.Viol("refused", "%s refused: %v", op, err)
			x.ws[0].Close()
			return
		}
		check(s, "after the call")
		if chance(c.R, 0.5) {
			// the caller goes on using its list and map
			c.Count("scribbled", 1)
			for i := range s.raw {
				s.raw[i] = "scribble/"
			}
			if om, ok := s.m.(*util.OrderedMap); ok && om != nil && om != shared {
				om.Add("bad/name", make(chan int))
				if k := om.Keys(); len(k) > 0 {
					om.Add(k[0], "changed")
					om.Hide(k[0])
				}
			}
			s.dims = fmt.Sprintf("%q", s.raw)
			s.ms = canonMap(s.m)
		}
		snaps = append(snaps, s)
	}
	if err := x.finish(); err != nil {
		c.Viol("close", "close failed: %v\n%s", err, p.listing())
		return
	}
	for _, s := range snaps {
		check(s, "after close")
	}
	// what was passed is in the file
	g, err := netcdf.Open(path)
	if err != nil {
		c.Viol("open", "cannot open what was written: %v\n%s", err, p.listing())
		return
	}
	cmpGroup(c, "", g, p.root, cmpOpts{hdf5: p.h5, order: !p.h5})
	g.Close()
	// again, and interleaved with another writer
	again, inter, other, alone := c.Path("b.nc"), c.Path("c.nc"), c.Path("d.nc"), c.Path("e.nc")
	if p.run(c, again, nil) != nil || q.run(c, alone, nil) != nil {
		c.Viol("close", "close failed\n%s\n%s", p.listing(), q.listing())
		return
	}
	y, z := p.start(c, inter), q.start(c, other)
	i, j := 0, 0
	for i < len(p.ops) || j < len(q.ops) {
		var err error
		if j >= len(q.ops) || (i < len(p.ops) && chance(c.R, 0.5)) {
			op := p.ops[i]
			err = y.step(op, op.attMap(), op.Dims)
			i++
		} else {
			op := q.ops[j]
			err = z.step(op, op.attMap(), op.Dims)
			j++
		}
		if err != nil {
			c.Viol("refused", "refused when interleaved: %v", err)
		}
	}
	e1, e2 := y.finish(), z.finish()
	if e1 != nil || e2 != nil {
		c.Viol("close", "close failed when interleaved: %v %v", e1, e2)
		return
	}
	same := func(a, b, how string) {
		x, err := os.ReadFile(a)
		must(err)
		y, err := os.ReadFile(b)
		must(err)
		c.Count("files_compared", 1)
		if !bytes.Equal(x, y) {
			c.Viol("bytes-"+how, "the same calls made different files (%s)\n%s", how, p.listing())
		}
	}
	same(path, again, "again")
	same(path, inter, "interleaved")
	same(alone, other, "interleaved")
}

// shareAtts gives a call the attributes of another call.
func (p *wprog) shareAtts(op, from *wOp) {
	op.Atts, op.NoMap = from.Atts, false
	var exp []Att
	for _, a := range from.Atts {
		exp = append(exp, a.exp)
	}
	g := p.grps[op.Grp]
	if op.Kind == opVar {
		for i := range g.Vars {
			if g.Vars[i].Name == op.Name {
				g.Vars[i].Atts = exp
			}
		}
		return
	}
	// the last such call on a group decides
	last := true
	seen := false
	for _, o := range p.ops {
		if o == op {
			seen = true
		} else if seen && o.Kind == opAtts && o.Grp == op.Grp {
			last = false
		}
	}
	if last {
		g.Atts = exp
	}
}

// ---- N20 ----

type mapModel struct {
	keys   []string
	vals   map[string]any
	hidden map[string]bool
}

var mapVals = []struct {
	v       any
	cdl, gt string
}{
	{int8(1), "byte", "int8"}, {int16(-2), "short", "int16"}, {int32(3), "int", "int32"}, {int64(4), "int64", "int64"},
	{uint8(5), "ubyte", "uint8"}, {uint16(6), "ushort", "uint16"}, {uint32(7), "uint", "uint32"}, {uint64(8), "uint64", "uint64"},
	{float32(1.5), "float", "float32"}, {float64(2.5), "double", "float64"}, {"text", "string", "string"}, {"", "string", "string"},
	{[]int8{1, 2}, "byte(2)", "[]int8"}, {[]int16{1}, "short(1)", "[]int16"}, {[]int32{1, 2, 3}, "int(3)", "[]int32"},
	{[]int64{9, 8}, "int64(2)", "[]int64"}, {[]uint8{1, 2, 3, 4}, "ubyte(4)", "[]uint8"}, {[]uint16{1, 2}, "ushort(2)", "[]uint16"},
	{[]uint32{4}, "uint(1)", "[]uint32"}, {[]uint64{4, 4, 4}, "uint64(3)", "[]uint64"}, {[]float32{1}, "float(1)", "[]float32"},
	{[]float64{1, 2}, "double(2)", "[]float64"}, {[]string{"a", "bc"}, "string(2)", "[]string"}, {[]int32{}, "int(*)", "[]int32"},
	{[][]int32{{1, 2, 3}, {4, 5, 6}}, "int(2,3)", "[][]int32"}, {[][][]float64{{{1, 2}}, {{3, 4}}, {{5, 6}}}, "double(3,1,2)", "[][][]float64"},
	{[2]int16{1, 2}, "short(2)", "[2]int16"}, {[2][3]uint8{}, "ubyte(2,3)", "[2][3]uint8"}, {[]float64{}, "double(*)", "[]float64"},
}

func runN20(c *Ctx) {
	r := c.R
	names := []string{"a", "b", "c", "long name", "Ж", "_FillValue", "z", "", "d1", "d2", "0"}
	m := &mapModel{vals: map[string]any{}, hidden: map[string]bool{}}
	vi := map[string]int{}
	val := func() int { return r.Intn(len(mapVals)) }
	// construction
	var om *util.OrderedMap
	n := r.Intn(6)
	var keys []string
	vals := map[string]any{}
	for _, i := range r.Perm(len(names))[:n] {
		k := val()
		keys = append(keys, names[i])
		vals[names[i]] = mapVals[k].v
		vi[names[i]] = k
	}
	// arguments that do not match are refused
	for range 1 + r.Intn(3) {
		bk := append([]string{}, keys...)
		bv := map[string]any{}
		for k, v := range vals {
			bv[k] = v
		}
		switch r.Intn(6) {
		case 0:
			bk = append(bk, "extra")
		case 1:
			bv["extra"] = int32(1)
		case 2:
			bk = append(bk, "more")
			bv["extra"] = int32(1)
		case 3:
			if n == 0 {
				continue
			}
			bk = append(bk, bk[0])
		case 4:
			if n == 0 {
				continue
			}
			bk[r.Intn(n)] = "other"
		case 5:
			if n < 2 {
				continue
			}
			bk[0] = bk[1] // twice the same, one missing
		}
		c.Eval()
		c.Count("refused", 1)
		if _, err := util.NewOrderedMap(bk, bv); err == nil {
			c.Viol("mismatch-accepted", "keys %q with values %v accepted", bk, bv)
		}
	}
	ck := append(make([]string, 0, n+4), keys...)
	var err error
	if n == 0 && chance(r, 0.5) {
		om, err = util.NewOrderedMap(nil, nil)
	} else {
		om, err = util.NewOrderedMap(ck, vals)
	}
	if err != nil {
		c.Viol("refused", "keys %q with values %v: %v", keys, vals, err)
		return
	}
	m.keys = append(m.keys, keys...)
	for k, v := range vals {
		m.vals[k] = v
	}
	hist := fmt.Sprintf("new %q", keys)
	for range 10 + r.Intn(50) {
		k := pick(r, names)
		c.Eval()
		kind := r.Intn(10)
		_, present := m.vals[k]
		c.Distinct(fmt.Sprint(kind, present, m.hidden[k], len(m.keys)))
		switch kind {
		case 0, 1, 2:
			i := val()
			hist += fmt.Sprintf("; add %q %v", k, mapVals[i].v)
			om.Add(k, mapVals[i].v)
			if present {
				c.Count("adds_of_present_keys", 1)
			} else if !m.hidden[k] {
				m.keys = append(m.keys, k)
			}
			if m.hidden[k] {
				c.Count("adds_of_hidden_keys", 1)
			}
			m.vals[k] = mapVals[i].v
			vi[k] = i
		case 3:
			if chance(r, 0.5) {
				hist += fmt.Sprintf("; hide %q", k)
				om.Hide(k)
				m.hidden[k] = true
			}
		case 4:
			// callers change what they passed and got
			hist += "; scribble"
			c.Count("scribbles", 1)
			for i := range ck {
				ck[i] = "scribbled"
			}
			_ = append(ck, "spare")
			for x := range vals {
				vals[x] = "scribbled"
			}
			vals["new"] = int32(1)
			got := om.Keys()
			for i := range got {
				got[i] = "scribbled"
			}
			_ = append(got, "tail")
		}
		// full comparison
		var want []string
		for _, x := range m.keys {
			if !m.hidden[x] {
				want = append(want, x)
			}
		}
		if got := om.Keys(); !sameStrings(got, want) {
			c.Viol("keys", "keys %q, want %q after %s", got, want, hist)
			return
		}
		for _, x := range append([]string{"new", "scribbled", "extra"}, names...) {
			got, has := om.Get(x)
			w, whas := m.vals[x]
			if has != whas || (has && canonAny(got) != canonAny(w)) {
				c.Viol("get", "%q is %v %v, want %v %v after %s", x, got, has, w, whas, hist)
				return
			}
			ty, has := om.GetType(x)
			gt, ghas := om.GetGoType(x)
			if has != whas || ghas != whas {
				c.Viol("type-has", "types of %q: %v %v, want %v after %s", x, has, ghas, whas, hist)
				return
			}
			if whas && (ty != mapVals[vi[x]].cdl || gt != mapVals[vi[x]].gt) {
				c.Viol("type", "types of %q holding %T %v: %q %q, want %q %q", x, w, w, ty, gt, mapVals[vi[x]].cdl, mapVals[vi[x]].gt)
				return
			}
		}
	}
	c.Sample("%s", hist)
}
