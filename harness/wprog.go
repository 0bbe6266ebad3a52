package main

// Writer programs: sequences of writer calls with the file they must produce.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

const (
	opVar = iota
	opAtts
	opGroup
)

type wAtt struct {
	Name string
	Val  any
	exp  Att
}

type wOp struct {
	Kind  int
	Grp   int // index of the group writer the call is made on
	Name  string
	Val   any
	Dims  []string
	Atts  []wAtt
	NoMap bool // pass a nil attribute map
	// what the file must then contain
	exp Var
	New int  // opGroup: index of the writer it returns
	Bad bool // must be refused
	Why string
}

type wprog struct {
	h5    bool
	ops   []*wOp
	root  *Grp
	grps  []*Grp
	paths []string
	dims  map[string]*Dim
	used  []map[string]bool // names taken per group
	dused map[string]bool
	// names that refused calls used, good for accepted ones
	suggest, dsuggest []string
	manyStrings       int // the next variable has so many different strings
}

func newProg(h5 bool) *wprog {
	root := &Grp{}
	return &wprog{h5: h5, root: root, grps: []*Grp{root}, paths: []string{"/"}, dims: map[string]*Dim{},
		used: []map[string]bool{{}}, dused: map[string]bool{}}
}

func mkAtts(as []wAtt) api.AttributeMap {
	var keys []string
	vals := map[string]any{}
	for _, a := range as {
		keys = append(keys, a.Name)
		vals[a.Name] = a.Val
	}
	m, err := util.NewOrderedMap(keys, vals)
	must(err)
	return m
}

// writeType picks an element type for a writer.
func (p *wprog) elemTypes(classic bool) []string {
	if p.h5 {
		return []string{"byte", "short", "int", "float", "double", "ubyte", "ushort", "uint", "int64", "uint64", "string"}
	}
	if classic {
		return classicTypes
	}
	return v5Types
}

func genText(r *rand.Rand, n int) string {
	if chance(r, 0.2) {
		for {
			if s := genString(r); s != "" {
				return s
			}
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + r.Intn(90))
	}
	return string(b)
}

func (p *wprog) genAtts(r *rand.Rand, classic bool, max int, used map[string]bool) []wAtt {
	n := r.Intn(max + 1)
	if used == nil {
		used = map[string]bool{}
	}
	var out []wAtt
	for range n {
		a := wAtt{Name: genName(r, used)}
		k := pick(r, p.elemTypes(classic))
		if p.h5 && chance(r, 0.2) {
			k = "char"
		}
		t := prims[k]
		cnt := pick(r, []int{1, 1, 2, 3, r.Intn(12)})
		scalar := chance(r, 0.5)
		if k == "char" {
			s := genText(r, r.Intn(20))
			if chance(r, 0.1) {
				s = ""
			}
			a.Val = s
			a.exp = Att{a.Name, t, len(s), []byte(s)}
			out = append(out, a)
			continue
		}
		data := genData(r, t, cnt)
		if cnt == 1 && scalar && k != "string" {
			a.Val = goValue(t, nil, data)
		} else {
			a.Val = goValue(t, []int{cnt}, data)
		}
		a.exp = Att{a.Name, t, cnt, data}
		out = append(out, a)
	}
	return out
}

// dimFor picks a dimension of this length: a name used before when there is one, or a new one.
func (p *wprog) dimFor(r *rand.Rand, n int) string {
	if chance(r, 0.5) {
		var have []string
		for _, d := range p.root.Dims {
			if d.Len == n && !strings.HasPrefix(d.Name, "_") {
				have = append(have, d.Name)
			}
		}
		if len(have) > 0 {
			return pick(r, have)
		}
	}
	for len(p.dsuggest) > 0 && chance(r, 0.8) {
		s := p.dsuggest[len(p.dsuggest)-1]
		p.dsuggest = p.dsuggest[:len(p.dsuggest)-1]
		if !p.dused[s] && !(p.h5 && p.used[0][s]) {
			p.dused[s] = true
			if p.h5 {
				p.used[0][s] = true
			}
			return s
		}
	}
	for {
		s := p.longest(r, genName(r, p.dused), p.dused)
		// in HDF5 a dimension takes its name from the group's other objects
		if p.h5 && p.used[0][s] {
			continue
		}
		p.used[0][s] = true
		return s
	}
}

func (p *wprog) addDim(name string, n int) int {
	if d, ok := p.dims[name]; ok {
		return d.ID
	}
	d := Dim{name, n, n == 0, len(p.root.Dims)}
	p.root.Dims = append(p.root.Dims, d)
	p.dims[name] = &d
	return d.ID
}

func (p *wprog) hasUnlim() bool {
	for _, d := range p.root.Dims {
		if d.Unlim {
			return true
		}
	}
	return false
}

// genVarOp makes a call that adds a variable.
func (p *wprog) genVarOp(r *rand.Rand, g int, classic bool, maxElems int) *wOp {
	op := &wOp{Kind: opVar, Grp: g}
	for {
		if len(p.suggest) > 0 && chance(r, 0.6) {
			op.Name = p.suggest[len(p.suggest)-1]
			p.suggest = p.suggest[:len(p.suggest)-1]
			if p.used[g][op.Name] {
				continue
			}
			p.used[g][op.Name] = true
		} else {
			op.Name = p.longest(r, genName(r, p.used[g]), p.used[g])
		}
		if p.h5 && g == 0 && p.dused[op.Name] {
			continue
		}
		break
	}
	k := pick(r, p.elemTypes(classic))
	t := prims[k]
	rank := pick(r, []int{0, 1, 1, 1, 2, 2, 3, 4, 5})
	if chance(r, 0.05) {
		rank = 6 + r.Intn(pick(r, []int{3, 27}))
	}
	var shape []int
	tot := 1
	for range rank {
		n := 1 + r.Intn(6)
		if chance(r, 0.1) {
			n = 1 + r.Intn(60)
		}
		if rank > 5 && chance(r, 0.5) {
			n = 1 + r.Intn(2)
		}
		if tot*n > maxElems {
			n = 1
		}
		shape = append(shape, n)
		tot *= n
	}
	many := p.manyStrings
	if p.manyStrings = 0; many > 0 {
		k, t, rank, shape = "string", prims["string"], 1, []int{many}
	}
	empty := false
	if rank == 1 && many == 0 && chance(r, 0.08) && (p.h5 || !p.hasUnlim()) {
		shape[0] = 0
		empty = true
	}
	var data []byte
	if k == "char" {
		// strings of differing lengths, padded to the longest
		if rank == 0 {
			s := string([]byte{byte(33 + r.Intn(90))})
			op.Val, data = s, []byte(s)
		} else {
			rows := prod(shape[:rank-1])
			strs := make([]string, rows)
			longest := 0
			for i := range strs {
				if !empty {
					strs[i] = genText(r, r.Intn(shape[rank-1]+1))
				}
				if len(strs[i]) > longest {
					longest = len(strs[i])
				}
			}
			if longest == 0 && !empty {
				strs[0] = "x"
				longest = 1
			}
			shape[rank-1] = longest
			for _, s := range strs {
				data = append(data, s...)
				data = append(data, make([]byte, longest-len(s))...)
			}
			op.Val = nestStrings(strs, shape[:rank-1])
		}
	} else {
		data = genData(r, t, prod(shape))
		if many > 0 {
			data = nil
			for i := range many {
				s := fmt.Sprintf("%x", i*7)
				data = append(binary.LittleEndian.AppendUint32(data, uint32(len(s))), s...)
			}
		}
		op.Val = goValue(t, shape, data)
	}
	// dimension names
	nd := rank
	if !p.h5 {
		switch r.Intn(5) {
		case 0:
			nd = 0
		case 1:
			nd = r.Intn(rank + 1)
		}
		if k == "char" && rank == 1 && len(data) == 1 && nd == 0 {
			nd = 1 // a string of one character without dimensions is a scalar
		}
	}
	names := make([]string, rank)
	for i := range names {
		if i < nd && (p.h5 || !chance(r, 0.05) || (k == "char" && rank == 1)) {
			names[i] = p.dimFor(r, shape[i])
		}
	}
	op.Dims = append([]string{}, names[:nd]...)
	if chance(r, 0.5) {
		// callers often share one backing array between variables
		op.Dims = append(make([]string, 0, nd+3), op.Dims...)
	}
	if nd == 0 && chance(r, 0.5) {
		op.Dims = nil
	}
	ev := Var{Name: op.Name, T: t, Shape: shape, Data: data}
	for i := range names {
		if names[i] == "" {
			if k == "char" && i == rank-1 {
				names[i] = "_stringlen_" + op.Name
			}
			if names[i] == "" || len(names[i]) > 256 {
				names[i] = fmt.Sprintf("_dimid_%d", len(p.root.Dims))
			}
		}
		ev.DimIDs = append(ev.DimIDs, p.addDim(names[i], shape[i]))
	}
	ev.Dims = names
	op.Atts = p.genAtts(r, classic, 3, nil)
	op.NoMap = len(op.Atts) == 0 && chance(r, 0.5)
	for _, a := range op.Atts {
		ev.Atts = append(ev.Atts, a.exp)
	}
	op.exp = ev
	return op
}

func nestStrings(s []string, shape []int) any {
	switch len(shape) {
	case 0:
		return s[0]
	case 1:
		return s
	}
	w := &wire{}
	for _, x := range s {
		w.b = append(binary.LittleEndian.AppendUint32(w.b, uint32(len(x))), x...)
	}
	return goValue(prims["string"], shape, w.b)
}

// accept records what an accepted call adds to the file.
func (p *wprog) accept(op *wOp) {
	g := p.grps[op.Grp]
	switch op.Kind {
	case opVar:
		g.Vars = append(g.Vars, op.exp)
	case opAtts:
		g.Atts = nil
		for _, a := range op.Atts {
			g.Atts = append(g.Atts, a.exp)
		}
	}
}

func (p *wprog) add(op *wOp) { p.ops = append(p.ops, op) }

// longest makes some names as long as names can be. The reference library doesn't find objects
// with such names in NetCDF-4 files.
func (p *wprog) longest(r *rand.Rand, s string, used map[string]bool) string {
	if p.h5 || !chance(r, 0.005) {
		return s
	}
	s += strings.Repeat("y", max(0, 256-len(s)))
	used[s] = true
	return s
}

// genCDFProg makes a program every call of which must be accepted.
func genCDFProg(r *rand.Rand, maxVars, maxElems int) *wprog {
	p := newProg(false)
	classic := chance(r, 0.5)
	n := r.Intn(maxVars + 1)
	attAt := r.Intn(n + 1)
	for i := range n + 1 {
		if i == attAt && chance(r, 0.8) {
			for range 1 + r.Intn(2)*r.Intn(2) {
				op := &wOp{Kind: opAtts, Atts: p.genAtts(r, classic || chance(r, 0.5), 4, nil)}
				p.add(op)
				p.accept(op)
			}
		}
		if i < n {
			op := p.genVarOp(r, 0, classic, maxElems)
			p.add(op)
			p.accept(op)
		}
	}
	return p
}

// wrun is a writer on which a program's calls are made.
type wrun struct {
	c  *Ctx
	ws map[int]api.Writer
}

func (p *wprog) start(c *Ctx, path string) *wrun {
	kind := netcdf.KindCDF
	if p.h5 {
		kind = netcdf.KindHDF5
	}
	w, err := netcdf.OpenWriter(path, kind)
	if err != nil {
		hfail("OpenWriter: %v", err)
	}
	return &wrun{c, map[int]api.Writer{0: w}}
}

// step makes one call, with this attribute map and dimension list.
func (x *wrun) step(op *wOp, m api.AttributeMap, dims []string) (err error) {
	x.c.note = op.String()
	tw := x.ws[op.Grp]
	if tw == nil {
		return nil
	}
	switch op.Kind {
	case opVar:
		err = tw.AddVar(op.Name, api.Variable{Values: op.Val, Dimensions: dims, Attributes: m})
	case opAtts:
		err = tw.AddAttributes(m)
	case opGroup:
		var ng api.Writer
		ng, err = tw.CreateGroup(op.Name)
		if err == nil {
			x.ws[op.New] = ng
		}
	}
	return err
}

func (op *wOp) attMap() api.AttributeMap {
	if op.NoMap {
		return nil
	}
	return mkAtts(op.Atts)
}

func (x *wrun) finish() error {
	x.c.note = "close"
	for i := len(x.ws) - 1; i > 0; i-- {
		if x.ws[i] != nil {
			x.ws[i].Close()
		}
	}
	return x.ws[0].Close()
}

// run makes the calls. onOp, if given, sees each call's error; otherwise an error is a violation.
func (p *wprog) run(c *Ctx, path string, onOp func(op *wOp, err error)) error {
	x := p.start(c, path)
	for i, op := range p.ops {
		err := x.step(op, op.attMap(), op.Dims)
		if onOp != nil {
			onOp(op, err)
		} else if err != nil {
			c.Viol("refused", "call %d (%s) refused: %v", i, op, err)
			x.ws[0].Close()
			return err
		}
	}
	return x.finish()
}

func (op *wOp) String() string {
	var as []string
	for _, a := range op.Atts {
		as = append(as, fmt.Sprintf("%q=%s", a.Name, clip(fmt.Sprintf("%T %v", a.Val, a.Val))))
	}
	switch op.Kind {
	case opVar:
		return fmt.Sprintf("[%d]AddVar(%q, %T %s, dims %q, atts %v) %s", op.Grp, op.Name, op.Val, clip(fmt.Sprint(op.Val)), op.Dims, as, op.Why)
	case opAtts:
		return fmt.Sprintf("[%d]AddAttributes(%v) %s", op.Grp, as, op.Why)
	}
	return fmt.Sprintf("[%d]CreateGroup(%q) -> %d %s", op.Grp, op.Name, op.New, op.Why)
}

// ---- comparing two neutral views ----

func sameAtts(a, b []Att, where string, ordered bool) error {
	if len(a) != len(b) {
		return fmt.Errorf("%s: %d attributes %v, want %d %v", where, len(a), attNames(a), len(b), attNames(b))
	}
	for i := range b {
		x := a[i]
		if !ordered {
			found := false
			for _, y := range a {
				if y.Name == b[i].Name {
					x, found = y, true
				}
			}
			if !found {
				return fmt.Errorf("%s: no attribute %q", where, b[i].Name)
			}
		}
		y := b[i]
		if x.Name != y.Name || x.T.String() != y.T.String() || x.N != y.N || string(x.Data) != string(y.Data) {
			return fmt.Errorf("%s: attribute %d is %q %s x%d %s, want %q %s x%d %s", where, i,
				x.Name, x.T, x.N, clip(fmt.Sprintf("%x", x.Data)), y.Name, y.T, y.N, clip(fmt.Sprintf("%x", y.Data)))
		}
	}
	return nil
}

func attNames(a []Att) (out []string) {
	for _, x := range a {
		out = append(out, fmt.Sprintf("%q", x.Name))
	}
	return
}

// sameFile compares a decoded view with the expected one.
func sameFile(got, want *Grp, where string, ordered bool) error {
	if err := sameAtts(got.Atts, want.Atts, where, ordered); err != nil {
		return err
	}
	if len(got.Dims) != len(want.Dims) {
		return fmt.Errorf("%s: dimensions %v, want %v", where, got.Dims, want.Dims)
	}
	gd := map[int]string{}
	for _, d := range got.Dims {
		gd[d.ID] = d.Name
	}
	for i := range want.Dims {
		x := got.Dims[i]
		if !ordered {
			for _, y := range got.Dims {
				if y.Name == want.Dims[i].Name {
					x = y
				}
			}
		}
		y := want.Dims[i]
		if x.Name != y.Name || x.Len != y.Len || x.Unlim != y.Unlim {
			return fmt.Errorf("%s: dimension %d is %+v, want %+v", where, i, x, y)
		}
	}
	if len(got.Vars) != len(want.Vars) {
		return fmt.Errorf("%s: %d variables, want %d", where, len(got.Vars), len(want.Vars))
	}
	for i := range want.Vars {
		x, y := got.Vars[i], want.Vars[i]
		if !ordered {
			found := false
			for _, z := range got.Vars {
				if z.Name == y.Name {
					x, found = z, true
				}
			}
			if !found {
				return fmt.Errorf("%s: no variable %q", where, y.Name)
			}
		}
		if x.Name != y.Name || x.T.String() != y.T.String() {
			return fmt.Errorf("%s: variable %d is %q %s, want %q %s", where, i, x.Name, x.T, y.Name, y.T)
		}
		if !sameStrings(x.Dims, y.Dims) || fmt.Sprint(x.Shape) != fmt.Sprint(y.Shape) {
			return fmt.Errorf("%s: variable %q has dimensions %q %v, want %q %v", where, x.Name, x.Dims, x.Shape, y.Dims, y.Shape)
		}
		if string(x.Data) != string(y.Data) {
			return fmt.Errorf("%s: variable %q (%s%v) holds\n%s, want\n%s", where, x.Name, x.T, x.Shape,
				clip(fmt.Sprintf("%x", x.Data)), clip(fmt.Sprintf("%x", y.Data)))
		}
		if err := sameAtts(x.Atts, y.Atts, where+x.Name, ordered); err != nil {
			return err
		}
	}
	if len(got.Groups) != len(want.Groups) {
		return fmt.Errorf("%s: %d groups, want %d", where, len(got.Groups), len(want.Groups))
	}
	for i := range want.Groups {
		x, y := got.Groups[i], want.Groups[i]
		if !ordered {
			for _, z := range got.Groups {
				if z.Name == y.Name {
					x = z
				}
			}
		}
		if x.Name != y.Name {
			return fmt.Errorf("%s: group %q, want %q", where, x.Name, y.Name)
		}
		if err := sameFile(x, y, where+y.Name+"/", ordered); err != nil {
			return err
		}
	}
	return nil
}

// genH5Prog makes a program of HDF5 writer calls every one of which must be accepted.
func genH5Prog(r *rand.Rand, maxVars, maxElems int) *wprog {
	return genH5ProgStrings(r, maxVars, maxElems, 0)
}

// genH5ProgStrings makes the first variable one of very many different strings, unless it is zero.
func genH5ProgStrings(r *rand.Rand, maxVars, maxElems, manyStrings int) *wprog {
	p := newProg(true)
	p.manyStrings = manyStrings
	n := r.Intn(maxVars + 1)
	ngrp := 0
	if chance(r, 0.6) {
		ngrp = r.Intn(4)
	}
	if chance(r, 0.05) {
		ngrp = 12
	}
	steps := n + ngrp
	made := 0
	for i := range steps {
		if chance(r, 0.25) {
			g := r.Intn(len(p.grps))
			op := &wOp{Kind: opAtts, Grp: g, Atts: p.genAtts(r, false, 4, nil)}
			op.NoMap = len(op.Atts) == 0 && chance(r, 0.5)
			p.add(op)
			p.accept(op)
		}
		if made < ngrp && (r.Intn(steps) < ngrp || steps-i <= ngrp-made) {
			made++
			p.genGroupOp(r)
			continue
		}
		g := r.Intn(len(p.grps))
		var op *wOp
		if chance(r, 0.15) {
			op = p.genCoordOp(r, g)
		}
		if op == nil {
			op = p.genVarOp(r, g, false, maxElems)
		}
		p.add(op)
		p.accept(op)
	}
	return p
}

func (p *wprog) genGroupOp(r *rand.Rand) {
	par := r.Intn(len(p.grps))
	op := &wOp{Kind: opGroup, Grp: par, New: len(p.grps)}
	for {
		op.Name = genName(r, p.used[par])
		if par == 0 && p.dused[op.Name] {
			continue
		}
		break
	}
	ng := &Grp{Name: op.Name}
	p.grps[par].Groups = append(p.grps[par].Groups, ng)
	p.grps = append(p.grps, ng)
	p.paths = append(p.paths, p.paths[par]+op.Name+"/")
	p.used = append(p.used, map[string]bool{})
	p.add(op)
	if chance(r, 0.2) {
		// making the same group again gives the same group
		again := *op
		again.New = op.New
		p.add(&again)
	}
}

// genCoordOp makes a coordinate variable: a variable named as its only dimension.
func (p *wprog) genCoordOp(r *rand.Rand, g int) *wOp {
	name := ""
	n := 1 + r.Intn(6)
	for _, d := range p.root.Dims {
		free := !p.used[g]["v:"+d.Name]
		if g != 0 {
			free = !p.used[g][d.Name]
		}
		if free && chance(r, 0.5) {
			name, n = d.Name, d.Len
		}
	}
	if name == "" {
		name = p.dimFor(r, n)
		if _, ok := p.dims[name]; ok {
			return nil
		}
		if g != 0 && p.used[g][name] {
			return nil
		}
	}
	p.used[g][name] = true
	p.used[g]["v:"+name] = true
	k := pick(r, p.elemTypes(false))
	t := prims[k]
	op := &wOp{Kind: opVar, Grp: g, Name: name, Dims: []string{name}}
	data := genData(r, t, n)
	op.Val = goValue(t, []int{n}, data)
	op.Atts = p.genAtts(r, false, 3, nil)
	op.exp = Var{Name: name, T: t, Shape: []int{n}, Data: data, Dims: []string{name}, DimIDs: []int{p.addDim(name, n)}}
	for _, a := range op.Atts {
		op.exp.Atts = append(op.exp.Atts, a.exp)
	}
	return op
}

// hdf5View is how the reference library reports what the HDF5 writer stores: everything but the
// order of things and of character data's trailing NULs.
func trimChars(g *Grp) {
	fix := func(as []Att) {
		for i := range as {
			if as[i].T.K == "char" {
				as[i].Data = []byte(strings.TrimRight(string(as[i].Data), "\x00"))
				as[i].N = len(as[i].Data)
			}
		}
	}
	fix(g.Atts)
	for i := range g.Vars {
		fix(g.Vars[i].Atts)
	}
	for _, s := range g.Groups {
		trimChars(s)
	}
}
