package main

// Random content: types, values, names, and reference-library scripts.

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"strings"
)

func pick[T any](r *rand.Rand, a []T) T   { return a[r.Intn(len(a))] }
func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

var nameFirst = []rune("abcdefgzABZ019éλЖ中日")
var nameRest = []rune("abcxyzABZ0189_.-+@ éλЖ中日()!#$&*:;<=>?[]^`{|}~")

// genName makes a NetCDF name that is valid for this library and for the reference library.
func genName(r *rand.Rand, used map[string]bool) string {
	for {
		n := 1 + r.Intn(8)
		if chance(r, 0.05) {
			n = 20 + r.Intn(60)
		}
		longest := chance(r, 0.01) // a very long name
		var b strings.Builder
		if chance(r, 0.6) {
			// plain identifiers, so that everything else varies more often than names
			b.WriteRune(rune('a' + r.Intn(26)))
			for range n - 1 {
				b.WriteRune(pick(r, []rune("abcdefghij0123456789_")))
			}
		} else {
			b.WriteRune(pick(r, nameFirst))
			for range n - 1 {
				b.WriteRune(pick(r, nameRest))
			}
		}
		if longest {
			b.WriteString(strings.Repeat("x", max(0, 255-b.Len())))
		}
		s := strings.TrimRight(b.String(), " ")
		if s == "" || used[s] {
			continue
		}
		used[s] = true
		return s
	}
}

func genPrim(r *rand.Rand, k string) []byte {
	switch k {
	case "byte", "ubyte":
		return []byte{byte(pick(r, []int{0, 1, 127, 128, 255, 129, r.Intn(256), r.Intn(256), r.Intn(256)}))}
	case "char":
		if r.Intn(8) == 0 {
			return []byte{byte(128 + r.Intn(128))} // chars are bytes
		}
		return []byte{byte(32 + r.Intn(95))}
	case "short", "ushort":
		return binary.LittleEndian.AppendUint16(nil, uint16(pick(r, []int{0, 1, 0x7fff, 0x8000, 0xffff, 0x8001, r.Intn(65536), r.Intn(65536), r.Intn(65536)})))
	case "int", "uint":
		return binary.LittleEndian.AppendUint32(nil, pick(r, []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x80000001, r.Uint32(), r.Uint32(), r.Uint32(), r.Uint32()}))
	case "int64", "uint64":
		return binary.LittleEndian.AppendUint64(nil, pick(r, []uint64{0, 1, math.MaxInt64, 1 << 63, math.MaxUint64, 1<<63 + 2, r.Uint64(), r.Uint64(), r.Uint64(), r.Uint64()}))
	case "float":
		return binary.LittleEndian.AppendUint32(nil, pick(r, []uint32{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00001, 0xffc12345, 0x7f800001, 0xffa00000, 1, 0x7f7fffff, 0x7cf00000, math.Float32bits(r.Float32()), math.Float32bits(float32(r.NormFloat64())), r.Uint32() & 0xbfffffff}))
	case "double":
		return binary.LittleEndian.AppendUint64(nil, pick(r, []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000001, 0x7ff0000000000001, 0xfff4000000000000, 1, 0x7fefffffffffffff, 0x479e000000000000, math.Float64bits(r.NormFloat64()), math.Float64bits(r.NormFloat64()), r.Uint64() & 0xbfffffffffffffff}))
	case "string":
		s := genString(r)
		return append(binary.LittleEndian.AppendUint32(nil, uint32(len(s))), s...)
	}
	hfail("genPrim %s", k)
	return nil
}

func genString(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ""
	case 1:
		return pick(r, []string{"é", "日本語", "a b", "\n\t\"'\\", "λЖ中", "x"})
	case 2:
		n := 1 + r.Intn(300)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(1 + r.Intn(126))
		}
		return string(b)
	}
	n := 1 + r.Intn(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.Intn(95))
	}
	return string(b)
}

// genWire makes the wire form of one element.
func genWire(r *rand.Rand, t *TD) []byte {
	switch t.K {
	case "vlen":
		n := pick(r, []int{0, 1, 2, 3, 1 + r.Intn(9)})
		out := binary.LittleEndian.AppendUint32(nil, uint32(n))
		for range n {
			out = append(out, genWire(r, t.Base)...)
		}
		return out
	case "opaque":
		b := make([]byte, t.Size)
		r.Read(b)
		return b
	case "enum":
		return pick(r, t.Members).Val
	case "compound":
		var out []byte
		for _, f := range t.Fields {
			for range prod(f.Dims) {
				out = append(out, genWire(r, f.T)...)
			}
		}
		return out
	}
	return genPrim(r, t.K)
}

func genData(r *rand.Rand, t *TD, n int) []byte {
	var out []byte
	if n > 64 && t.isPrim() && t.K != "string" && t.K != "char" {
		// a recognisable ramp with noise: every element differs from its neighbours
		base := r.Uint64()
		for i := range n {
			v := base + uint64(i)*0x9E3779B97F4A7C15
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], v)
			e := b[:primSize[t.K]]
			if t.K == "float" || t.K == "double" {
				e[len(e)-1] &= 0xbf // finite
			}
			out = append(out, e...)
		}
		return out
	}
	for range n {
		out = append(out, genWire(r, t)...)
	}
	return out
}

// genCharData makes character data for a char array: text with trailing NULs only at row ends.
func genCharData(r *rand.Rand, shape []int) []byte {
	if len(shape) == 0 {
		return genPrim(r, "char")
	}
	row := shape[len(shape)-1]
	n := prod(shape[:len(shape)-1])
	var out []byte
	for range n {
		l := row
		if chance(r, 0.3) && row > 0 {
			l = r.Intn(row + 1)
		}
		for i := range row {
			if i < l {
				out = append(out, genPrim(r, "char")...)
			} else {
				out = append(out, 0)
			}
		}
	}
	return out
}

// typed user-type generation -------------------------------------------------

type utGen struct {
	r       *rand.Rand
	types   []*TD // user types in definition order
	grp     []int // group of each
	used    map[string]bool
	noChar  bool
	maxEnum int
	max     int
	prefix  string
	edges   bool // compounds of sizes at which the encoding of offsets changes
}

func (u *utGen) base(depth int, allowString bool) *TD {
	r := u.r
	if len(u.types) > 0 && depth > 0 && chance(r, 0.4) {
		return pick(r, u.types)
	}
	for {
		k := pick(r, nc4Types)
		if k == "char" && u.noChar {
			continue
		}
		if k == "string" && !allowString {
			continue
		}
		return prims[k]
	}
}

var intTypes = []string{"byte", "ubyte", "short", "ushort", "int", "uint", "int64", "uint64"}

func (u *utGen) add(kind string) *TD {
	r := u.r
	t := &TD{K: kind, Name: u.prefix + genIdent(r, u.used)}
	switch kind {
	case "enum":
		t.Base = prims[pick(r, intTypes)]
		n := 1 + r.Intn(6)
		if u.maxEnum > 0 && chance(r, 0.1) {
			n = 1 + r.Intn(u.maxEnum)
		}
		names := map[string]bool{}
		vals := map[string]bool{}
		for len(t.Members) < n && len(vals) < 1000 {
			v := genPrim(r, t.Base.K)
			if vals[string(v)] {
				if primSize[t.Base.K] == 1 && len(vals) > 120 {
					break
				}
				continue
			}
			vals[string(v)] = true
			t.Members = append(t.Members, Member{genIdent(r, names), v})
		}
	case "opaque":
		t.Size = pick(r, []int{1, 2, 3, 4, 5, 8, 11, 16, 17, 1 + r.Intn(40)})
	case "vlen":
		t.Base = u.base(1, true)
	case "compound":
		if u.edges && chance(r, 0.3) {
			u.addEdge(t)
			break
		}
		n := 1 + r.Intn(5)
		names := map[string]bool{}
		for range n {
			f := Field{Name: genIdent(r, names), T: u.base(1, true)}
			if chance(r, 0.3) {
				for range 1 + r.Intn(2) {
					f.Dims = append(f.Dims, 1+r.Intn(3))
				}
			}
			t.Fields = append(t.Fields, f)
		}
	}
	u.types = append(u.types, t)
	return t
}

// addEdge makes a compound of a size at which the encoding of offsets changes, or about that.
func (u *utGen) addEdge(t *TD) {
	r := u.r
	size := 253 + r.Intn(6)
	var last *TD
	for last == nil || last.K == "string" || last.K == "char" {
		last = prims[pick(r, nc4Types)]
	}
	size -= primSize[last.K]
	filler := &TD{K: "opaque", Name: u.prefix + genIdent(r, u.used), Size: size}
	u.types = append(u.types, filler)
	t.Fields = []Field{{Name: "filler", T: filler}, {Name: "last", T: last}}
}

func genIdent(r *rand.Rand, used map[string]bool) string {
	for {
		var b strings.Builder
		b.WriteRune(rune('a' + r.Intn(26)))
		for range r.Intn(6) {
			b.WriteRune(pick(r, []rune("abcdefghij0123456789_")))
		}
		if s := b.String(); !used[s] {
			used[s] = true
			return s
		}
	}
}

// ---- reference scripts ------------------------------------------------------

// Formats of nc_create.
const (
	fmtClassic = 0
	fmt64      = 0x200
	fmtCDF5    = 0x20
	fmtNC4     = 0x1000
	fmtNC4C    = 0x1100
)

type script struct {
	lines []string
	ng    int
	nd    int
	nv    int
	nu    int
	uidx  map[*TD]int
	// the file does not keep the order of variables, groups or attributes
	unordered bool
	// what was written whole, by variable name; nil when written more than once
	written map[string][]byte
	// what there is to edit
	path   string
	gpath  []string
	vgrp   []int
	vname  []string
	atts   []attName
	edited bool
}

type attName struct {
	g, v int // v is -1 for attributes of the group
	name string
}

func (s *script) add(format string, a ...any) {
	s.lines = append(s.lines, fmt.Sprintf(format, a...))
}

func newScript(path string, mode int) *script {
	s := &script{ng: 1, uidx: map[*TD]int{}, written: map[string][]byte{}, path: path, gpath: []string{""}}
	s.add("create %s %d", hx(path), mode)
	return s
}

func hxb(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	return hex.EncodeToString(b)
}

func (s *script) tref(t *TD) string {
	if c, ok := primCode[t.K]; ok {
		return fmt.Sprint(c)
	}
	i, ok := s.uidx[t]
	if !ok {
		hfail("type %s not defined", t)
	}
	return fmt.Sprintf("u%d", i)
}
func (s *script) grp(parent int, name string) int {
	s.add("grp %d %s", parent, hx(name))
	s.gpath = append(s.gpath, s.gpath[parent]+"/"+name)
	s.ng++
	return s.ng - 1
}
func (s *script) dim(g int, name string, n int) int {
	s.add("dim %d %s %d", g, hx(name), n)
	s.nd++
	return s.nd - 1
}
func (s *script) typ(g int, t *TD) {
	switch t.K {
	case "enum":
		l := fmt.Sprintf("enum %d %s %d %d", g, hx(t.Name), primCode[t.Base.K], len(t.Members))
		for _, m := range t.Members {
			l += " " + hx(m.Name) + " " + hxb(m.Val)
		}
		s.add("%s", l)
	case "opaque":
		s.add("opaque %d %s %d", g, hx(t.Name), t.Size)
	case "vlen":
		s.add("vlen %d %s %s", g, hx(t.Name), s.tref(t.Base))
	case "compound":
		l := fmt.Sprintf("compound %d %s %d", g, hx(t.Name), len(t.Fields))
		for _, f := range t.Fields {
			l += fmt.Sprintf(" %s %s %d", hx(f.Name), s.tref(f.T), len(f.Dims))
			for _, d := range f.Dims {
				l += fmt.Sprintf(" %d", d)
			}
		}
		s.add("%s", l)
	}
	s.uidx[t] = s.nu
	s.nu++
}
func (s *script) vari(g int, name string, t *TD, dims []int) int {
	l := fmt.Sprintf("var %d %s %s %d", g, hx(name), s.tref(t), len(dims))
	for _, d := range dims {
		l += fmt.Sprintf(" %d", d)
	}
	s.add("%s", l)
	s.vgrp = append(s.vgrp, g)
	s.vname = append(s.vname, name)
	s.nv++
	return s.nv - 1
}
func (s *script) att(g, v int, name string, t *TD, n int, data []byte) {
	s.add("att %d %d %s %s %d %s", g, v, hx(name), s.tref(t), n, hxb(data))
	if name != "_FillValue" {
		s.atts = append(s.atts, attName{g, v, name})
	}
}
func (s *script) put(v int, start, count []int, data []byte) {
	l := fmt.Sprintf("put %d %d", v, len(start))
	for _, x := range start {
		l += fmt.Sprintf(" %d", x)
	}
	for _, x := range count {
		l += fmt.Sprintf(" %d", x)
	}
	s.add("%s %s", l, hxb(data))
}

// genOpts bounds a generated reference file.
type genOpts struct {
	Mode      int
	UserTypes bool
	Groups    bool
	Storage   bool // vary chunking and filters (nc4)
	Partial   bool // leave parts unwritten
	MaxVars   int
	Records   bool
	MaxElems  int
	FillDecl  bool
	FillAny   bool // and for strings and user-defined types
	NoStrFill bool
	BigEnums  bool
	Knobs     bool // vary how the library stores things
	PlainOnly bool // plain identifiers only as names
	Edit      bool // sometimes open the file again and change it
	Many      int  // 1: very many attributes; 2: much attribute data; 3: very many variables
}

type gdim struct {
	idx   int
	name  string
	n     int // current/final length
	unlim bool
}

// genRef writes a script for a random file. Records: the final length of unlimited dims is decided here.
func genRef(c *Ctx, path string, o genOpts) *script {
	r := c.R
	nc4 := o.Mode == fmtNC4
	// a netCDF-4 file that keeps to the classic model
	strict := nc4 && o.Many == 0 && chance(r, 0.1)
	mode := o.Mode
	if strict {
		mode = fmtNC4C
		o.Groups, o.UserTypes = false, false
		c.Count("classic_model_files", 1)
	}
	s := newScript(path, mode)
	if o.Knobs && nc4 {
		knobs, ordered := genKnobs(r)
		s.lines = append(knobs, s.lines...)
		s.unordered = !ordered
	}
	if o.MaxElems == 0 {
		o.MaxElems = 1500
	}
	if o.MaxVars == 0 {
		o.MaxVars = 6
	}
	types := classicTypes
	switch o.Mode {
	case fmtCDF5:
		types = v5Types
	case fmtNC4:
		if !strict {
			types = nc4Types
		}
	}
	nofill := chance(r, 0.1) && !o.Partial && !nc4
	if nofill {
		s.add("nofill")
	}
	name := func(used map[string]bool) string {
		if o.PlainOnly {
			return genIdent(r, used)
		}
		for {
			if n := genName(r, used); !s.unordered || n[0] != '0' {
				return n
			}
		}
	}
	type grpInfo struct {
		idx  int
		dims []gdim
		used map[string]bool
	}
	groups := []*grpInfo{{idx: 0, used: map[string]bool{}}}
	if o.Groups {
		for range r.Intn(4) {
			p := pick(r, groups)
			g := &grpInfo{idx: s.grp(p.idx, name(p.used)), used: map[string]bool{}}
			g.dims = p.dims
			groups = append(groups, g)
		}
	}
	ut := &utGen{r: r, used: groups[0].used}
	if s.unordered {
		ut.prefix = "000" // the reference must come across types before it comes across their variables
	}
	if o.BigEnums {
		ut.maxEnum, ut.edges = 700, true
	}
	if o.UserTypes && nc4 {
		for range 1 + r.Intn(4) {
			n := len(ut.types)
			ut.add(pick(r, []string{"enum", "opaque", "vlen", "compound", "compound"}))
			for _, t := range ut.types[n:] {
				// root group, so that every group can use it
				s.typ(0, t)
				groups[0].used[t.Name] = true
				ut.grp = append(ut.grp, 0)
			}
		}
	}
	sizes := []int{1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 16, 17, 33}
	unlimTotal := 0
	allDims := [][]gdim{}
	for gi, g := range groups {
		g.dims = append([]gdim{}, g.dims...)
		nd := 1 + r.Intn(4)
		if gi > 0 {
			// inherit the parent's dims through the root only (dims of root are visible everywhere)
			g.dims = append([]gdim{}, groups[0].dims...)
			nd = r.Intn(3)
		}
		for range nd {
			d := gdim{name: name(g.used), n: pick(r, sizes)}
			if o.Records && chance(r, 0.35) && (nc4 && !strict || unlimTotal == 0) {
				d.unlim = true
				unlimTotal++
				d.n = pick(r, []int{0, 1, 2, 3, 5, 8, 11})
			}
			n := d.n
			if d.unlim {
				n = 0
			}
			d.idx = s.dim(g.idx, d.name, n)
			g.dims = append(g.dims, d)
		}
		allDims = append(allDims, g.dims)
	}
	genAtts := func(gi, v int, used map[string]bool, max int) {
		for range r.Intn(max + 1) {
			t := prims[pick(r, types)]
			if len(ut.types) > 0 && chance(r, 0.4) {
				t = pick(r, ut.types)
				if nestedVlenArray(t) {
					continue // the reference library writes dangling heap references for these
				}
			}
			n := pick(r, []int{1, 1, 2, 3, 5, 9})
			if t.K == "char" {
				n = pick(r, []int{0, 1, 2, 3, 4, 5, 20, 100})
			}
			data := genData(r, t, n)
			s.att(gi, v, name(used), t, n, data)
		}
	}
	type pend struct {
		v     int
		t     *TD
		shape []int
		dims  []gdim
		name  string
	}
	var pends []pend
	for gi, g := range groups {
		gused := map[string]bool{}
		genAtts(g.idx, -1, gused, 3)
		nv := 1 + r.Intn(o.MaxVars)
		if gi == 0 && o.Many == 1 {
			// enough attributes for an index two levels deep
			for range 550 + r.Intn(900) {
				t := prims[pick(r, types)]
				n := pick(r, []int{1, 1, 2})
				s.att(g.idx, -1, name(gused), t, n, genData(r, t, n))
			}
		}
		if gi == 0 && o.Many == 2 {
			// enough attribute data for heap blocks behind an indirect block
			for range 20 + r.Intn(60) {
				t := prims[pick(r, []string{"int", "double", "byte", "float"})]
				n := 500 + r.Intn(6500)
				if chance(r, 0.05) {
					n += 8000 + r.Intn(10000) // longer than a header message can be
				}
				s.att(g.idx, -1, name(gused), t, n, genData(r, t, n))
			}
		}
		if gi == 0 && o.Many == 3 {
			// and the same for links
			for range 400 + r.Intn(1200) {
				t := prims[pick(r, types)]
				nm := name(g.used)
				v := s.vari(g.idx, nm, t, nil)
				pends = append(pends, pend{v, t, nil, nil, nm})
			}
		}
		if gi > 0 {
			nv = r.Intn(4)
		}
		dimVarDone := map[string]bool{}
		for range nv {
			t := prims[pick(r, types)]
			if len(ut.types) > 0 && chance(r, 0.6) {
				t = pick(r, ut.types)
			}
			rank := pick(r, []int{0, 1, 1, 2, 2, 3, 3, 4, 5})
			var dims []gdim
			total := 1
			seenDim := map[int]bool{}
			for len(dims) < rank {
				d := pick(r, g.dims)
				if d.unlim && (!nc4 || strict) && len(dims) > 0 {
					// record dimension must come first in classic files
					if dims[0].unlim {
						d = g.dims[0]
						if d.unlim {
							break
						}
					} else {
						continueOK := false
						for _, x := range g.dims {
							if !x.unlim {
								d = x
								continueOK = true
							}
						}
						if !continueOK {
							break
						}
					}
				}
				if seenDim[d.idx] && chance(r, 0.8) {
					rank--
					continue
				}
				seenDim[d.idx] = true
				if d.n > 0 && total*d.n > o.MaxElems {
					break
				}
				if d.n > 0 {
					total *= d.n
				}
				dims = append(dims, d)
			}
			vname := ""
			// sometimes a coordinate variable
			if len(dims) > 0 && chance(r, 0.2) {
				d := dims[0]
				own := false
				for _, x := range allDims[gi] {
					if x.idx == d.idx {
						own = gi == 0
						for _, y := range groups[0].dims {
							if gi != 0 && y.idx == d.idx {
								own = false
							}
						}
						if gi != 0 && !inDims(groups[0].dims, d.idx) {
							own = true
						}
					}
				}
				if own && !dimVarDone[d.name] {
					vname = d.name
					dimVarDone[d.name] = true
					if !nc4 || chance(r, 0.5) {
						dims = dims[:1]
					}
					if len(dims) > 1 {
						c.Count("multi_dim_coordinates", 1)
					}
				}
			}
			// or one named like a dimension that is not its first
			if nc4 && vname == "" && chance(r, 0.15) {
				d := pick(r, allDims[gi])
				own := gi == 0 || !inDims(groups[0].dims, d.idx)
				if own && !dimVarDone[d.name] && len(d.name) < 240 && (len(dims) == 0 || dims[0].idx != d.idx) {
					vname = d.name
					dimVarDone[d.name] = true
					c.Count("non_coordinates", 1)
				}
			}
			if vname == "" {
				vname = name(g.used)
			}
			var ids, shape []int
			hasUnlim := false
			for _, d := range dims {
				ids = append(ids, d.idx)
				shape = append(shape, d.n)
				hasUnlim = hasUnlim || d.unlim
			}
			v := s.vari(g.idx, vname, t, ids)
			if nc4 && o.Storage {
				genStorage(r, s, v, t, dims, hasUnlim)
			}
			used := map[string]bool{}
			if o.FillAny && nc4 && (!t.isPrim() || t.K == "string") && !nestedVlenArray(t) && !nestedVlen(t) && chance(r, 0.5) {
				s.add("varfill %d 0 %s", v, hxb(genData(r, t, 1)))
				used["_FillValue"] = true
			}
			if o.FillDecl && (t.isPrim() && t.K != "string") && chance(r, 0.4) {
				fv := genPrim(r, t.K)
				if nc4 {
					s.add("varfill %d 0 %s", v, hxb(fv))
				} else {
					s.att(g.idx, v, "_FillValue", t, 1, fv)
				}
				used["_FillValue"] = true
			}
			genAtts(g.idx, v, used, 3)
			pends = append(pends, pend{v, t, shape, dims, vname})
		}
	}
	if !nc4 || strict || chance(r, 0.5) {
		s.add("enddef")
	}
	for _, i := range r.Perm(len(pends)) {
		p := pends[i]
		if prod(p.shape) == 0 {
			continue
		}
		data := func(shape []int) []byte {
			if p.t.K == "char" {
				return genCharData(r, shape)
			}
			return genData(r, p.t, prod(shape))
		}
		if o.Partial && (chance(r, 0.6)) {
			// random hyperslabs, possibly none
			mask := make([]bool, prod(p.shape))
			np := r.Intn(3)
			defer func() {
				n := 0
				for _, w := range mask {
					if w {
						n++
					}
				}
				c.Count("unwritten_elements", int64(len(mask)-n))
				if n > 0 && n < len(mask) {
					c.Count("partly_written_variables", 1)
				} else if n == 0 {
					c.Count("unwritten_variables", 1)
				}
			}()
			for range np {
				st := make([]int, len(p.shape))
				ct := make([]int, len(p.shape))
				for k, n := range p.shape {
					st[k] = r.Intn(n)
					ct[k] = 1 + r.Intn(n-st[k])
				}
				s.put(p.v, st, ct, data(ct))
				markBox(mask, p.shape, st, ct)
			}
			continue
		}
		st := make([]int, len(p.shape))
		if len(p.shape) > 0 && p.dims[0].unlim && chance(r, 0.3) {
			// record by record
			for k := range p.shape[0] {
				st2 := append([]int{}, st...)
				st2[0] = k
				ct := append([]int{}, p.shape...)
				ct[0] = 1
				s.put(p.v, st2, ct, data(ct))
			}
			continue
		}
		d := data(p.shape)
		s.put(p.v, st, p.shape, d)
		if _, dup := s.written[p.name]; dup {
			d = nil
		}
		s.written[p.name] = d
	}
	if o.Edit && chance(r, 0.4) {
		eds := []editable{}
		for _, p := range pends {
			eds = append(eds, editable{p.v, p.t, p.shape, p.dims})
		}
		for range 1 + r.Intn(3) {
			genEdits(c, s, types, nc4, strict, name, groups[0].used, eds)
		}
		// libnetcdf never removes a variable, but libhdf5 does
		if nc4 && len(s.vname) > 1 && chance(r, 0.4) {
			dims := map[string]bool{}
			for _, l := range s.lines {
				if w := strings.Fields(l); w[0] == "dim" || w[0] == "e-dim" {
					dims[w[len(w)-2]] = true
				}
			}
			for v, n := range s.vname {
				if !dims[hx(n)] && chance(r, 0.4) && s.gpath[s.vgrp[v]]+n != "" {
					s.add("h5del %s %s", hx(s.path), hx(s.gpath[s.vgrp[v]]+"/"+n))
					c.Count("edit_unlinked", 1)
				}
			}
		}
	}
	return s
}

type editable struct {
	v     int
	t     *TD
	shape []int
	dims  []gdim
}

// genEdits opens the file again and changes it: attributes, names, new variables, more data. What
// becomes of the file is what the reference library says afterwards.
func genEdits(c *Ctx, s *script, types []string, nc4, strict bool, name func(map[string]bool) string, used map[string]bool, eds []editable) {
	r := c.R
	s.edited = true
	c.Count("edits", 1)
	s.add("edit %s", hx(s.path))
	if !nc4 || strict {
		s.add("redef")
	}
	at := func(g, v int) string {
		if v < 0 {
			return hx(s.gpath[g]) + " -"
		}
		return hx(s.gpath[g]) + " " + hx(s.vname[v])
	}
	fresh := map[string]bool{}
	for k := range used {
		fresh[k] = true
	}
	for _, a := range s.atts {
		fresh[a.name] = true
	}
	for _, v := range s.vname {
		fresh[v] = true
	}
	data := func(t *TD, shape []int) []byte {
		if t.K == "char" {
			return genCharData(r, shape)
		}
		return genData(r, t, prod(shape))
	}
	putAtt := func(g, v int, n string) {
		t := prims[pick(r, types)]
		k := pick(r, []int{1, 1, 2, 3, 8, 20, 100})
		s.add("e-att %s %s %d %d %s", at(g, v), hx(n), primCode[t.K], k, hxb(data(t, []int{k})))
	}
	var later []func()
	put := func(where func() string, t *TD, st, ct []int) {
		l := fmt.Sprint(len(st))
		for _, x := range append(append([]int{}, st...), ct...) {
			l += fmt.Sprintf(" %d", x)
		}
		l += " " + hxb(data(t, ct))
		later = append(later, func() { s.add("e-put %s %s", where(), l) })
	}
	for range 1 + r.Intn(10) {
		switch k := r.Intn(10); {
		case k < 3 && len(s.atts) > 0: // delete
			i := r.Intn(len(s.atts))
			a := s.atts[i]
			s.add("e-del %s %s", at(a.g, a.v), hx(a.name))
			s.atts = append(append([]attName{}, s.atts[:i]...), s.atts[i+1:]...)
			c.Count("edit_deleted", 1)
		case k < 5 && len(s.atts) > 0: // replace
			a := pick(r, s.atts)
			putAtt(a.g, a.v, a.name)
		case k == 5 && len(s.atts) > 0:
			i := r.Intn(len(s.atts))
			a := s.atts[i]
			n := name(fresh)
			s.add("e-ren %s %s %s", at(a.g, a.v), hx(a.name), hx(n))
			s.atts[i].name = n
		case k == 6: // add
			a := attName{0, -1, name(fresh)}
			if len(s.vname) > 0 && chance(r, 0.7) {
				v := r.Intn(len(s.vname))
				a.g, a.v = s.vgrp[v], v
			}
			putAtt(a.g, a.v, a.name)
			s.atts = append(s.atts, a)
		case k == 7 && len(s.vname) > 0: // rename; in NetCDF-4 libnetcdf leaves references to the wrong objects behind
			if nc4 {
				continue
			}
			v := r.Intn(len(s.vname))
			n := name(fresh)
			s.add("e-vren %s %s", at(s.vgrp[v], v), hx(n))
			s.vname[v] = n
			c.Count("edit_renamed", 1)
		case k == 8: // a new variable
			var dims []int
			l := ""
			for range r.Intn(3) {
				d, n := 1+r.Intn(6), name(fresh)
				s.add("e-dim - - %s %d", hx(n), d)
				dims = append(dims, d)
				l += " " + hx(n)
			}
			n := name(fresh)
			t := prims[pick(r, types)]
			s.add("e-var - - %s %d %d%s", hx(n), primCode[t.K], len(dims), l)
			if chance(r, 0.8) {
				put(func() string { return "- " + hx(n) }, t, make([]int, len(dims)), dims)
			}
			c.Count("edit_variables", 1)
		case len(eds) > 0: // write over, or more
			e := pick(r, eds)
			if !e.t.isPrim() || len(e.shape) == 0 {
				continue
			}
			st, ct := make([]int, len(e.shape)), append([]int{}, e.shape...)
			unlims := 0
			for _, d := range e.dims {
				if d.unlim {
					unlims++
				}
			}
			if unlims == 1 && e.dims[0].unlim {
				st[0], ct[0] = e.shape[0]+r.Intn(3), 1+r.Intn(3)
				if prod(ct) == 0 || prod(ct) > 2000 {
					continue
				}
				c.Count("edit_records", 1)
			} else if prod(e.shape) == 0 {
				continue
			} else {
				for k, n := range e.shape {
					st[k] = r.Intn(n)
					ct[k] = 1 + r.Intn(n-st[k])
				}
			}
			put(func() string { return at(s.vgrp[e.v], e.v) }, e.t, st, ct)
		}
	}
	if !nc4 && chance(r, 0.4) {
		s.add("minfree %d %d %d %d", r.Intn(3)*r.Intn(200), pick(r, []int{1, 4, 8, 64, 512}), r.Intn(3)*r.Intn(200), pick(r, []int{1, 4, 8, 64, 512}))
		c.Count("edit_padding", 1)
	} else if !nc4 || strict {
		s.add("enddef")
	}
	for _, f := range later {
		f()
	}
}

// markBox sets the elements of a hyperslab.
func markBox(mask []bool, shape, st, ct []int) {
	var rec func(k, at int)
	rec = func(k, at int) {
		if k == len(shape) {
			mask[at] = true
			return
		}
		for i := range ct[k] {
			rec(k+1, at*shape[k]+st[k]+i)
		}
	}
	rec(0, 0)
}

func inDims(ds []gdim, idx int) bool {
	for _, d := range ds {
		if d.idx == idx {
			return true
		}
	}
	return false
}

func genStorage(r *rand.Rand, s *script, v int, t *TD, dims []gdim, hasUnlim bool) {
	if len(dims) == 0 {
		return
	}
	mode := r.Intn(10)
	tot := 1
	unlims := 0
	for _, d := range dims {
		tot *= d.n
		if d.unlim {
			unlims++
		}
	}
	// default chunks are large when several dimensions are unlimited
	byDefault := map[bool]float64{true: 0.2, false: 0.01}[unlims < 2]
	switch {
	case !hasUnlim && mode < 3: // contiguous (default)
		if chance(r, 0.3) {
			s.add("chunk %d 1 0", v)
		}
	case !hasUnlim && mode == 3 && t.isPrim() && tot*8 < 30000:
		s.add("chunk %d 2 0", v) // compact
	default:
		if !(hasUnlim && chance(r, byDefault)) {
			l := fmt.Sprintf("chunk %d 0 %d", v, len(dims))
			for _, d := range dims {
				m := d.n
				if d.unlim {
					m = 4
				}
				if m < 1 {
					m = 1
				}
				k := 1 + r.Intn(m)
				if d.n > 8 && k < d.n/6 {
					k = d.n / 6
				}
				l += fmt.Sprintf(" %d", k)
			}
			s.add("%s", l)
		}
		varlen := t.K == "string" || !fixedSize(t)
		if !varlen && chance(r, 0.5) {
			s.add("deflate %d %d 1 %d", v, r.Intn(2), 1+r.Intn(9))
		} else if !varlen && chance(r, 0.3) {
			s.add("deflate %d 1 0 0", v)
		}
		if !varlen && chance(r, 0.4) {
			s.add("fletcher %d", v)
		}
	}
	if t.isPrim() && t.K != "string" && t.K != "char" && chance(r, 0.3) {
		s.add("endian %d %d", v, 1+r.Intn(2))
	}
}

func fixedSize(t *TD) bool {
	switch t.K {
	case "string", "vlen":
		return false
	case "compound":
		for _, f := range t.Fields {
			if !fixedSize(f.T) {
				return false
			}
		}
	}
	return true
}

// nestedVlen says whether a variable-length value has other variable-length values below it. When
// libhdf5 1.10 writes over fill values of such a type, it drops what other fill values still use.
func nestedVlen(t *TD) bool {
	switch t.K {
	case "vlen":
		return !fixedSize(t.Base)
	case "compound":
		for _, f := range t.Fields {
			if nestedVlen(f.T) {
				return true
			}
		}
	}
	return false
}

// nestedVlenArray says whether a variable-length value sits inside an array field somewhere.
func nestedVlenArray(t *TD) bool {
	switch t.K {
	case "vlen":
		return nestedVlenArray(t.Base)
	case "compound":
		for _, f := range t.Fields {
			if len(f.Dims) > 0 && !fixedSize(f.T) || nestedVlenArray(f.T) {
				return true
			}
		}
	}
	return false
}
