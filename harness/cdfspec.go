package main

// A decoder of the classic file formats written from the published specification
// (NetCDF Classic Format Specification and its 64-bit-offset and 64-bit-data variants).
// It is strict: anything the specification does not allow is an error.

import (
	"encoding/binary"
	"fmt"
	"sort"
	"unicode/utf8"
)

type cdfDec struct {
	b   []byte
	p   int
	ver byte
}

type cdfErr struct{ s string }

func (d *cdfDec) fail(format string, a ...any) {
	panic(cdfErr{fmt.Sprintf("offset %d: ", d.p) + fmt.Sprintf(format, a...)})
}
func (d *cdfDec) take(n int) []byte {
	if n < 0 || d.p+n > len(d.b) {
		d.fail("%d bytes run past the end (%d)", n, len(d.b))
	}
	x := d.b[d.p : d.p+n]
	d.p += n
	return x
}
func (d *cdfDec) u32() uint32 { return binary.BigEndian.Uint32(d.take(4)) }
func (d *cdfDec) nonneg() int {
	var v int64
	if d.ver == 5 {
		v = int64(binary.BigEndian.Uint64(d.take(8)))
	} else {
		v = int64(int32(d.u32()))
	}
	if v < 0 {
		d.fail("negative number %d", v)
	}
	return int(v)
}
func (d *cdfDec) padding() {
	for d.p%4 != 0 {
		if d.take(1)[0] != 0 {
			d.fail("header padding is not zero")
		}
	}
}
func (d *cdfDec) name() string {
	n := d.nonneg()
	s := string(d.take(n))
	d.padding()
	if s == "" || !utf8.ValidString(s) {
		d.fail("invalid name %q", s)
	}
	return s
}

var cdfTypeName = map[uint32]string{1: "byte", 2: "char", 3: "short", 4: "int", 5: "float", 6: "double",
	7: "ubyte", 8: "ushort", 9: "uint", 10: "int64", 11: "uint64"}

func (d *cdfDec) typ() *TD {
	c := d.u32()
	n, ok := cdfTypeName[c]
	if !ok || d.ver < 5 && c > 6 {
		d.fail("type code %d in a version %d file", c, d.ver)
	}
	return prims[n]
}

func swapped(b []byte, sz int) []byte {
	out := make([]byte, len(b))
	for i := 0; i+sz <= len(b); i += sz {
		for j := range sz {
			out[i+j] = b[i+sz-1-j]
		}
	}
	return out
}

func (d *cdfDec) list(tag uint32, what string) int {
	t := d.u32()
	n := d.nonneg()
	if t != tag && !(t == 0 && n == 0) {
		d.fail("%s list has tag %d and %d entries", what, t, n)
	}
	return n
}

func (d *cdfDec) atts() []Att {
	n := d.list(12, "attribute")
	var out []Att
	seen := map[string]bool{}
	for range n {
		a := Att{Name: d.name()}
		if seen[a.Name] {
			d.fail("attribute %q twice", a.Name)
		}
		seen[a.Name] = true
		a.T = d.typ()
		a.N = d.nonneg()
		a.Data = swapped(d.take(a.N*primSize[a.T.K]), primSize[a.T.K])
		d.padding()
		out = append(out, a)
	}
	return out
}

// cdfRegion is where one variable, or one record of one, has its data.
type cdfRegion struct{ from, to, v int }

// specCDF decodes a whole file.
func specCDF(b []byte) (*File, error) {
	f, _, _, err := specCDFRegions(b)
	return f, err
}

// specCDFRegions also tells where the data are, in file order, and where the header ends.
func specCDFRegions(b []byte) (f *File, regions []cdfRegion, end int, err error) {
	d := &cdfDec{b: b}
	defer func() {
		if r := recover(); r != nil {
			ce, ok := r.(cdfErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", ce.s)
		}
	}()
	if string(d.take(3)) != "CDF" {
		d.fail("magic")
	}
	d.ver = d.take(1)[0]
	if d.ver != 1 && d.ver != 2 && d.ver != 5 {
		d.fail("version %d", d.ver)
	}
	g := &Grp{}
	f = &File{Format: int(d.ver), Root: g}
	numrecs := d.nonneg()
	nd := d.list(10, "dimension")
	rec := -1
	seen := map[string]bool{}
	for i := range nd {
		x := Dim{Name: d.name(), ID: i}
		x.Len = d.nonneg()
		if seen[x.Name] {
			d.fail("dimension %q twice", x.Name)
		}
		seen[x.Name] = true
		if x.Len == 0 {
			if rec >= 0 {
				d.fail("second record dimension %q", x.Name)
			}
			rec = i
			x.Unlim, x.Len = true, numrecs
		}
		g.Dims = append(g.Dims, x)
	}
	if rec < 0 && numrecs != 0 {
		d.fail("%d records without a record dimension", numrecs)
	}
	g.Atts = d.atts()
	nv := d.list(11, "variable")
	type place struct{ begin, size, vsize int }
	var places []place
	var isRec []bool
	seen = map[string]bool{}
	for range nv {
		v := Var{Name: d.name()}
		if seen[v.Name] {
			d.fail("variable %q twice", v.Name)
		}
		seen[v.Name] = true
		nd := d.nonneg()
		r := false
		per := 1
		for i := range nd {
			id := d.nonneg()
			if id >= len(g.Dims) {
				d.fail("variable %q uses dimension %d of %d", v.Name, id, len(g.Dims))
			}
			if id == rec {
				if i != 0 {
					d.fail("variable %q has the record dimension in place %d", v.Name, i)
				}
				r = true
			} else {
				per *= g.Dims[id].Len
			}
			v.DimIDs = append(v.DimIDs, id)
			v.Dims = append(v.Dims, g.Dims[id].Name)
			v.Shape = append(v.Shape, g.Dims[id].Len)
		}
		v.Atts = d.atts()
		v.T = d.typ()
		vsize := d.nonneg()
		if d.ver == 1 {
			d.p += 0
		}
		var begin int
		if d.ver == 1 {
			begin = int(int32(d.u32()))
		} else {
			begin = int(int64(binary.BigEndian.Uint64(d.take(8))))
		}
		size := per * primSize[v.T.K]
		if want := (size + 3) / 4 * 4; vsize != want && want < 1<<31 {
			d.fail("variable %q: vsize %d, want %d", v.Name, vsize, want)
		}
		places = append(places, place{begin, size, (size + 3) / 4 * 4})
		isRec = append(isRec, r)
		g.Vars = append(g.Vars, v)
	}
	end = d.p
	// the data regions
	nrec := 0
	recsize := 0
	for i := range places {
		if isRec[i] {
			nrec++
			recsize += places[i].vsize
		}
	}
	if nrec == 1 {
		for i := range places {
			if isRec[i] {
				recsize = places[i].size
			}
		}
	}
	lastFixed, firstRec := end, -1
	for i, pl := range places {
		v := &g.Vars[i]
		n, step := 1, 0
		if isRec[i] {
			n, step = numrecs, recsize
			if firstRec < 0 || pl.begin < firstRec {
				firstRec = pl.begin
			}
		} else if pl.begin+pl.size > lastFixed {
			lastFixed = pl.begin + pl.size
		}
		if pl.begin < end {
			d.fail("data of %q begin at %d, inside the header (%d)", v.Name, pl.begin, end)
		}
		for k := range n {
			from := pl.begin + k*step
			if from+pl.size > len(b) {
				d.fail("data of %q at %d+%d run past the end of the file (%d)", v.Name, from, pl.size, len(b))
			}
			v.Data = append(v.Data, swapped(b[from:from+pl.size], primSize[v.T.K])...)
			regions = append(regions, cdfRegion{from, from + pl.size, i})
		}
	}
	if firstRec >= 0 && firstRec < lastFixed {
		d.fail("record data begin at %d, before the end of the fixed-size data (%d)", firstRec, lastFixed)
	}
	sort.Slice(regions, func(i, j int) bool { return regions[i].from < regions[j].from })
	for i := 1; i < len(regions); i++ {
		if regions[i].from < regions[i-1].to {
			d.fail("data of %q and %q overlap", g.Vars[regions[i-1].v].Name, g.Vars[regions[i].v].Name)
		}
	}
	return f, regions, end, nil
}
