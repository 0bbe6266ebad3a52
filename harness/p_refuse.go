package main

// N12: the writers refuse what they cannot represent, and refused calls leave no trace.

import (
	"bytes"
	"maps"
	"math/rand"
	"os"
	"reflect"
	"strings"
)

func init() {
	register(&Prop{ID: "N12", Level: "exploration",
		Rule:  "random writer programs of both formats with calls mixed in that cannot be represented (40 kinds: names, values, shapes, dimensions, attributes, groups); each must be refused without panicking, and the file must be byte for byte the one the accepted calls alone make; names of refused calls are reused by accepted ones; distinct by kind of bad call and format",
		Cases: func(t string) int { return tierN(t, 6000, 100000) },
		Run:   runN12, Min: map[string]int64{"bad_calls": 10000, "files_compared": 4000, "names_reused": 1000}})
}

type badState struct {
	dims  map[string]*Dim
	used  []map[string]bool
	dused map[string]bool
	rdims []Dim
}

func (p *wprog) save() badState {
	s := badState{dims: maps.Clone(p.dims), dused: maps.Clone(p.dused), rdims: append([]Dim{}, p.root.Dims...)}
	for _, u := range p.used {
		s.used = append(s.used, maps.Clone(u))
	}
	return s
}

func (p *wprog) restore(s badState) {
	p.dims, p.used, p.dused, p.root.Dims = s.dims, s.used, s.dused, s.rdims
}

var badNames = []string{"", "/", "a/b", "tab\tname", "trail ", "nl\n", "\x00", "bell\a", "del\x7f", "\xff\xfe", "bad\xc3", "/abs", "a/", " lead",
	strings.Repeat("n", 257), strings.Repeat("é", 129), "_under", "nul\x00mid", "%start"[:0] + "\u0085x"}

type myInt int32
type myStr string

// badValues are values no variable or attribute can have.
func badValue(r *rand.Rand) any {
	var np *int32
	i := int32(3)
	return pick(r, []any{nil, int(1), uint(7), true, complex64(1), complex128(2), uintptr(3), struct{}{}, struct{ A int32 }{1},
		map[string]int32{"a": 1}, &i, np, []int{1, 2}, []uint{1}, []bool{true}, []any{int32(1), int32(2)}, [][]int{{1}}, []any{"a"},
		[]*int32{&i}, []map[string]int{}, make(chan int32), func() {}, []struct{ A int32 }{{1}}, [][]any{{int32(1)}}, []complex64{1}, []error{nil}, []any{}, []any{nil}, [][]bool{}, []int{}})
}

// ragged shortens or lengthens one row somewhere in a value of at least two levels.
func ragged(r *rand.Rand, v any) any {
	c := reflect.ValueOf(deepCopy(v))
	x := c
	depth := 0
	for y := c; y.Kind() == reflect.Slice; depth++ {
		if y.Len() == 0 {
			return nil
		}
		y = y.Index(0)
	}
	if depth < 2 {
		return nil
	}
	for range r.Intn(depth - 1) {
		x = x.Index(r.Intn(x.Len()))
	}
	if x.Len() < 2 {
		return nil
	}
	row := x.Index(r.Intn(x.Len()))
	if chance(r, 0.5) && row.Len() > 0 {
		row.Set(row.Slice(0, row.Len()-1))
	} else {
		row.Set(reflect.Append(row, reflect.Zero(row.Type().Elem())))
		if row.Index(0).Kind() == reflect.Slice {
			row.Index(row.Len() - 1).Set(row.Index(0))
		}
	}
	return c.Interface()
}

func deepCopy(v any) any {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() != reflect.Slice {
		return v
	}
	if rv.IsNil() {
		return v
	}
	out := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
	for i := range rv.Len() {
		if rv.Type().Elem().Kind() == reflect.Slice {
			out.Index(i).Set(reflect.ValueOf(deepCopy(rv.Index(i).Interface())))
		} else {
			out.Index(i).Set(rv.Index(i))
		}
	}
	return out.Interface()
}

func nested(depth, n int) any {
	t := reflect.TypeOf(int16(0))
	v := reflect.ValueOf(int16(5))
	for d := range depth {
		t = reflect.SliceOf(t)
		k := 1
		if d == 0 {
			k = n
		}
		s := reflect.MakeSlice(t, k, k)
		for i := range k {
			s.Index(i).Set(v)
		}
		v = s
	}
	return v.Interface()
}

// genBad makes a call that must be refused; nil when this kind does not apply here.
func (p *wprog) genBad(r *rand.Rand) *wOp {
	st := p.save()
	defer p.restore(st)
	g := r.Intn(len(p.grps))
	op := p.genVarOp(r, g, false, 60)
	op.Bad = true
	kinds := []string{"name", "attname", "dup", "value", "attvalue", "ragged", "manydims", "dimlen", "dimname", "gattname", "gattvalue", "group", "samedim"}
	if p.h5 {
		kinds = append(kinds, "dupgroup", "groupvar", "dimvar", "vardim", "reserved", "nul", "rank", "bigatt", "groupdim", "dimgroup", "nulatt")
	} else {
		kinds = append(kinds, "unlim2", "unlimnotfirst", "named", "array", "attmulti", "attslice2")
	}
	op.Why = pick(r, kinds)
	bad := func() string { return pick(r, badNames) }
	addAtt := func(n string, v any) {
		i := r.Intn(len(op.Atts) + 1)
		op.NoMap = false
		op.Atts = append(op.Atts[:i:i], append([]wAtt{{Name: n, Val: v}}, op.Atts[i:]...)...)
	}
	rank := len(op.exp.Shape)
	isChar := op.exp.T.K == "char"
	someVar := func(g int) string {
		if len(p.grps[g].Vars) == 0 {
			return ""
		}
		return pick(r, p.grps[g].Vars).Name
	}
	switch op.Why {
	case "name":
		op.Name = bad()
	case "attname":
		addAtt(bad(), int32(1))
	case "dup":
		if op.Name = someVar(g); op.Name == "" {
			return nil
		}
	case "value":
		op.Val = badValue(r)
		if chance(r, 0.5) {
			op.Dims = nil
		}
	case "named":
		op.Val, op.Dims = pick(r, []any{myInt(1), []myInt{1}, myStr("x"), []myStr{"x", "y"}}), nil
	case "array":
		op.Val, op.Dims = pick(r, []any{[2]int32{1, 2}, [][2]int16{{1, 2}}}), nil
	case "attvalue":
		addAtt("bad", badValue(r))
	case "attmulti":
		addAtt("bad", pick(r, []any{[]string{"a", "b"}, []string{"a"}, []string{}, []myInt{1}, myStr("q"), [1]int8{1}}))
	case "attslice2":
		addAtt("bad", pick(r, []any{[][]int32{{1}, {2}}, [][]float64{{1}}, [][]string{{"a"}}, [][]int8{}}))
	case "ragged":
		if isChar || (p.h5 && rank < 2) {
			return nil
		}
		if op.Val = ragged(r, op.Val); op.Val == nil {
			return nil
		}
		if p.h5 && len(op.Dims) != rank {
			return nil
		}
	case "manydims":
		if isChar && rank == 0 {
			return nil
		}
		for len(op.Dims) < rank {
			op.Dims = append(op.Dims, p.dimFor(r, op.exp.Shape[len(op.Dims)]))
		}
		op.Dims = append(op.Dims, p.dimFor(r, 1))
		if chance(r, 0.3) {
			op.Dims = append(op.Dims, "more")
		}
	case "samedim":
		// one new name for two lengths
		if rank < 2 || op.exp.Shape[0] == op.exp.Shape[1] || isChar {
			return nil
		}
		op.Dims = append([]string{"twice", "twice"}, op.exp.Dims[2:]...)
	case "dimlen":
		if rank == 0 || isChar || len(op.Dims) == 0 {
			return nil
		}
		i := r.Intn(len(op.Dims))
		name := ""
		for _, d := range st.rdims {
			if d.Len != op.exp.Shape[i] && !strings.HasPrefix(d.Name, "_") {
				name = d.Name
			}
		}
		if name == "" {
			return nil
		}
		op.Dims = append([]string{}, op.Dims...)
		op.Dims[i] = name
	case "dimname":
		if len(op.Dims) == 0 {
			return nil
		}
		op.Dims = append([]string{}, op.Dims...)
		b := bad()
		for b == "" || b == "_under" {
			b = bad()
		}
		op.Dims[r.Intn(len(op.Dims))] = b
	case "unlim2":
		has := ""
		for _, d := range st.rdims {
			if d.Unlim {
				has = d.Name
			}
		}
		if has == "" {
			return nil
		}
		op.Val, op.Dims = []int32{}, []string{"second" + op.Name}
		if len(op.Dims[0]) > 256 {
			return nil
		}
	case "unlimnotfirst":
		op.Val, op.Dims = [][]int32{{}, {}}, pick(r, [][]string{{"first1", "rest0"}, nil, {"first1"}})
	case "gattname", "gattvalue", "reserved", "bigatt", "nulatt":
		if op.Why == "reserved" {
			addAtt(pick(r, []string{"CLASS", "NAME", "REFERENCE_LIST", "DIMENSION_LIST"}), pick(r, []any{"x", int32(1)}))
		} else if op.Why == "bigatt" {
			addAtt("big", pick(r, []any{make([]float64, 8200), make([]int8, 65536), strings.Repeat("y", 65600), make([]string, 4200)}))
		} else if op.Why == "nulatt" {
			addAtt("nul", pick(r, []any{"a\x00b", []string{"a", "b\x00"}, "\x00"}))
		} else if op.Why == "gattname" {
			addAtt(bad(), "x")
		} else {
			addAtt("bad", badValue(r))
		}
		if op.Why[0] == 'g' || chance(r, 0.5) {
			op.Kind = opAtts
		}
	case "nul":
		op.Val, op.Dims = pick(r, []any{"a\x00b", "\x00", "end\x00"}), nil
		if chance(r, 0.5) {
			op.Val, op.Dims = []string{"ok", "x\x00"}, []string{"nuldim"}
		}
	case "rank":
		op.Val, op.Dims = nested(33, 2), nil
		for i := range 33 {
			op.Dims = append(op.Dims, "one")
			if i == 32 {
				op.Dims[i] = "two"
			}
		}
	case "dimvar": // a variable named as a dimension that is not its own
		if len(st.rdims) == 0 {
			return nil
		}
		op.Grp = 0
		op.Name = pick(r, st.rdims).Name
		op.Val, op.Dims = int32(4), nil
		if chance(r, 0.5) {
			op.Val, op.Dims = []int32{4, 5}, []string{"other" + "dim"}
		}
	case "vardim": // a dimension named as a variable of the root group
		n := someVar(0)
		if n == "" || st.dims[n] != nil {
			return nil
		}
		op.Val, op.Dims = []int32{4, 5}, []string{n}
		if chance(r, 0.5) {
			op.Val, op.Dims = [][]int32{{4, 5}}, []string{"odim", n}
		}
	case "group":
		op.Kind, op.Why = opGroup, "groupname"
		op.Name = bad()
		op.New = -1
		if !p.h5 {
			op.Name = pick(r, []string{"g", "/", "", "a b", "group1"})
		}
	case "dupgroup": // a variable named as a group
		if len(p.grps[g].Groups) == 0 {
			return nil
		}
		op.Name = pick(r, p.grps[g].Groups).Name
	case "groupvar": // a group named as a variable
		op.Kind = opGroup
		op.New = -1
		if op.Name = someVar(g); op.Name == "" {
			return nil
		}
	case "groupdim": // a group named as a dimension
		if len(st.rdims) == 0 {
			return nil
		}
		op.Kind, op.Grp = opGroup, 0
		op.New = -1
		op.Name = pick(r, st.rdims).Name
	case "dimgroup": // a dimension named as a group of the root group
		if len(p.root.Groups) == 0 {
			return nil
		}
		op.Val, op.Dims = []int32{4, 5}, []string{pick(r, p.root.Groups).Name}
	}
	if op.Kind == opVar && op.Why != "name" && op.Why != "dup" && op.Why != "dupgroup" && op.Why != "dimvar" {
		p.suggest = append(p.suggest, op.Name)
	}
	if op.Kind == opVar && op.Why != "vardim" && op.Why != "dimgroup" {
		for _, d := range op.Dims {
			if st.dims[d] == nil && d != "" && d[0] != '_' && op.Why != "dimname" {
				p.dsuggest = append(p.dsuggest, d)
			}
		}
	}
	return op
}

func runN12(c *Ctx) {
	h5 := c.Case%2 == 1
	var p *wprog
	if h5 {
		p = newProg(true)
	} else {
		p = newProg(false)
	}
	n := 1 + c.R.Intn(6)
	classic := chance(c.R, 0.5)
	for range n {
		for range c.R.Intn(4) {
			if op := p.genBad(c.R); op != nil {
				p.add(op)
			}
		}
		var op *wOp
		switch k := c.R.Intn(10); {
		case k < 1:
			op = &wOp{Kind: opAtts, Grp: c.R.Intn(len(p.grps)), Atts: p.genAtts(c.R, classic, 4, nil)}
		case k < 4 && h5:
			p.genGroupOp(c.R)
			continue
		case k < 5 && h5:
			if op = p.genCoordOp(c.R, c.R.Intn(len(p.grps))); op != nil {
				break
			}
			fallthrough
		default:
			s, d := len(p.suggest), len(p.dsuggest)
			op = p.genVarOp(c.R, c.R.Intn(len(p.grps)), classic, 80)
			if len(p.suggest)+len(p.dsuggest) < s+d {
				c.Count("names_reused", 1)
			}
		}
		p.add(op)
		p.accept(op)
	}
	for range c.R.Intn(3) {
		if op := p.genBad(c.R); op != nil {
			p.add(op)
		}
	}
	c.Sample("%s", p.listing())
	with, without := c.Path("with.nc"), c.Path("without.nc")
	accepted := false
	err := p.run(c, with, func(op *wOp, err error) {
		c.Eval()
		if op.Bad {
			c.Count("bad_calls", 1)
			c.Distinct(op.Why + map[bool]string{true: "h", false: "c"}[h5])
			if err == nil {
				accepted = true
				c.Viol("accepted:"+op.Why, "accepted: %s", op)
			}
		} else if err != nil {
			accepted = true
			c.Viol("refused", "refused after bad calls: %s: %v\n%s", op, err, p.listing())
		}
	})
	if accepted {
		return
	}
	if err != nil {
		c.Viol("close", "close failed after refused calls: %v\n%s", err, p.listing())
		return
	}
	q := *p
	q.ops = nil
	for _, op := range p.ops {
		if !op.Bad {
			q.ops = append(q.ops, op)
		}
	}
	if err := q.run(c, without, nil); err != nil {
		c.Viol("close", "close failed: %v\n%s", err, q.listing())
		return
	}
	a, err := os.ReadFile(with)
	must(err)
	b, err := os.ReadFile(without)
	must(err)
	c.Count("files_compared", 1)
	if !bytes.Equal(a, b) {
		c.Viol("trace", "the file with refused calls differs from the one without (%d and %d bytes)\n%s", len(a), len(b), p.listing())
	}
}
