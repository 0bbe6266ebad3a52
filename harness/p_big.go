package main

// N21: a slice costs what it needs. N23: positions beyond 32 bits are addressed correctly.
// Both read small slices of variables that are far larger than memory. Classic files consist of a
// header made here from the published format and of bytes that are a function of their position;
// HDF5 files are made by the reference library, and the bytes of their contiguous variables are
// replaced by the same function.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func init() {
	register(&Prop{ID: "N23", Level: "exploration", Plain: true,
		Rule:  "slices of variables and records of 2^31 to 2^50 bytes or elements at positions around 2^31, 2^32, the ends and at random, in classic files of the three formats whose bytes are a function of their position, and in reference HDF5 files with contiguous, chunked and string variables and groups beyond 4 GiB; one evaluation per slice compared; distinct by kind, type, rank and magnitude of the position",
		Cases: func(t string) int { return tierN(t, 2500, 60000) },
		Run:   runN23, Min: map[string]int64{"slices": 10000, "beyond_2g": 5000, "beyond_4g": 5000, "index_beyond_32_bits": 1000, "hdf5_slices": 2000, "record_slices": 1000}})
	register(&Prop{ID: "N21", Level: "exploration", Plain: true, Workers: 7,
		Rule:  "the files of N23 and reference NetCDF-4 files with large compressed, string, variable-length and compound variables; the bytes the reader hands out and the bytes allocated are measured around opening, getters, and every slice call, and compared with a bound computed from the slice, the chunks it touches and the chunk index; one evaluation per measured call; distinct by kind, type, rank and size of the slice",
		Cases: func(t string) int { return tierN(t, 800, 12000) },
		Run:   runN21, Min: map[string]int64{"slices": 4000, "measured_reads": 4000, "chunked_slices": 500, "record_slices": 300, "variables_beyond_memory": 100}})
}

// hashByte is the byte at an offset of a virtual file.
func hashByte(off int64) byte {
	x := uint64(off)/8*0x9e3779b97f4a7c15 + 12345
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return byte(x >> (uint64(off) % 8 * 8))
}

// bigVar is a variable with known content.
type bigVar struct {
	path   []string
	name   string
	t      *TD
	kind   string // fixed, record, contiguous, chunked, strings...
	shape  []int64
	elem   func(idx []int64) []byte // the wire form of an element
	offset func(idx []int64) int64  // its place in the file, if known
	hot    [][]int64                // interesting positions
	// for costs
	stride []int64 // bytes between neighbors, unless chunked
	chunk  []int64
	csize  int64 // bytes of a whole chunk
	index  int64 // number of chunks stored
	extra  int64 // bytes per element kept elsewhere
	heap   int64 // largest heap collection
}

type bigFile struct {
	f    *fio
	vars []*bigVar
	h5   bool
	desc string
	meta int64
	done func()
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// genBigCDF makes a classic file.
func genBigCDF(r *rand.Rand) *bigFile {
	version := pick(r, []int{1, 2, 5})
	num := func(n int64) []byte {
		if version == 5 {
			return binary.BigEndian.AppendUint64(nil, uint64(n))
		}
		if n > 1<<32-1 {
			hfail("number %d", n)
		}
		return binary.BigEndian.AppendUint32(nil, uint32(n))
	}
	off := func(n int64) []byte {
		if version == 1 {
			if n > 1<<31-1 {
				hfail("offset %d", n)
			}
			return binary.BigEndian.AppendUint32(nil, uint32(n))
		}
		return binary.BigEndian.AppendUint64(nil, uint64(n))
	}
	u32 := func(n int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(n)) }
	name := func(s string) []byte {
		b := append(num(int64(len(s))), s...)
		for len(b)%4 > 0 {
			b = append(b, 0)
		}
		return b
	}
	types := classicTypes
	if version == 5 {
		types = v5Types
	}
	maxDim := int64(1<<31 - 1)
	if version == 5 {
		maxDim = 1 << 44
	}
	// dimensions
	type dim struct {
		name string
		n    int64
	}
	dims := []dim{{"rec", 0}}
	for i := range 7 {
		n := pick(r, []int64{1, 2, 3, 7, 100, 4097, 70000, 1 << 20, 1<<30 + 1, 1<<31 - 5, 3 << 33, 1<<40 + 3})
		if n > maxDim {
			n = maxDim - int64(r.Intn(10))
		}
		dims = append(dims, dim{fmt.Sprint("d", i), n})
	}
	small := []int{}
	for i, d := range dims {
		if i > 0 && d.n <= 100 {
			small = append(small, i)
		}
	}
	type cvar struct {
		bigVar
		dimids []int
		begin  int64
		size   int64 // of the whole or of a record
		rec    bool
	}
	var vars []*cvar
	nv := 2 + r.Intn(5)
	maxFixed := int64(1)<<32 - 4
	if version == 5 {
		maxFixed = 1 << 50
	}
	for i := range nv {
		v := &cvar{}
		v.name = fmt.Sprint("v", i)
		v.t = prims[pick(r, types)]
		v.rec = r.Intn(3) == 0
		es := int64(primSize[v.t.K])
		size := es
		limit := maxFixed
		if i == nv-1 && !v.rec { // the last one may be as large as it likes
			limit = 1 << 50
		}
		if v.rec {
			v.dimids = append(v.dimids, 0)
			v.shape = append(v.shape, 0)
			limit = pick(r, []int64{1000, 1 << 20, maxFixed})
		}
		for range 1 + r.Intn(3) {
			d := 1 + r.Intn(len(dims)-1)
			if dims[d].n > limit/size {
				if len(small) == 0 || dims[small[0]].n > limit/size {
					continue
				}
				d = pick(r, small)
				if dims[d].n > limit/size {
					continue
				}
			}
			size *= dims[d].n
			v.dimids = append(v.dimids, d)
			v.shape = append(v.shape, dims[d].n)
		}
		v.size = size
		v.kind = "fixed"
		if v.rec {
			v.kind = "record"
		}
		vars = append(vars, v)
	}
	nrec := 0
	recSize := int64(0)
	for _, v := range vars {
		if v.rec {
			nrec++
			recSize += (v.size + 3) / 4 * 4
		}
	}
	if nrec == 1 {
		for _, v := range vars {
			if v.rec {
				recSize = v.size
			}
		}
	}
	numRecs := int64(0)
	if nrec > 0 {
		numRecs = pick(r, []int64{3, 1000, 1 << 20, 1<<31 - 2, 1 << 40})
		if version != 5 && numRecs > 1<<31-2 {
			numRecs = 1<<31 - 2
		}
		if m := int64(1<<52) / recSize; numRecs > m {
			numRecs = m
		}
	}
	if version == 1 {
		// the records must begin in the first 2 GiB, and so must all variables but the last
		// fixed one; so keep one large fixed variable, and only if there are no records
		at := int64(0)
		for i, v := range vars {
			if !v.rec {
				last := true
				for _, w := range vars[i+1:] {
					last = last && w.rec
				}
				if !last || nrec > 0 {
					if v.size > 100000 {
						v.size = int64(primSize[v.t.K])
						v.shape, v.dimids = nil, nil
					}
				}
				at += v.size
			}
		}
		if nrec > 0 && recSize > 1<<30 {
			return genBigCDF(r)
		}
	}
	// data are placed after the header, which has a fixed size
	place := func(begin int64) {
		at := begin
		for _, v := range vars {
			if !v.rec {
				v.begin = at
				at += (v.size + 3) / 4 * 4
			}
		}
		for _, v := range vars {
			if v.rec {
				v.begin = at
				at += (v.size + 3) / 4 * 4
			}
		}
	}
	header := func() []byte {
		h := cat([]byte{'C', 'D', 'F', byte(version)}, num(numRecs), u32(10), num(int64(len(dims))))
		for _, d := range dims {
			h = cat(h, name(d.name), num(d.n))
		}
		h = cat(h, u32(0), num(0), u32(11), num(int64(len(vars))))
		for _, v := range vars {
			h = cat(h, name(v.name), num(int64(len(v.dimids))))
			for _, d := range v.dimids {
				h = cat(h, num(int64(d)))
			}
			vsize := (v.size + 3) / 4 * 4
			if version != 5 && vsize > 1<<32-4 {
				vsize = 1<<32 - 1
			}
			h = cat(h, u32(0), num(0), u32(primCode[v.t.K]), num(vsize), off(v.begin))
		}
		return h
	}
	place(0)
	begin := int64(len(header())+3) / 4 * 4
	if version != 1 && r.Intn(3) == 0 { // room after the header
		begin += pick(r, []int64{1 << 31, 1<<32 - 8, 5 << 30}) / 4 * 4
	}
	for _, v := range vars {
		if version == 1 && v.begin > 1<<30 {
			return genBigCDF(r)
		}
	}
	place(begin)
	head := header()
	end := begin
	bf := &bigFile{desc: fmt.Sprintf("CDF version %d", version), meta: int64(len(head)), done: func() {}}
	for _, v := range vars {
		es := int64(primSize[v.t.K])
		if v.rec {
			v.shape[0] = numRecs
			end = max(end, v.begin+(numRecs-1)*recSize+v.size)
		} else {
			end = max(end, v.begin+v.size)
		}
		stride := make([]int64, len(v.shape))
		s := es
		for i := len(stride) - 1; i >= 0; i-- {
			stride[i] = s
			s *= v.shape[i]
		}
		if v.rec {
			stride[0] = recSize
		}
		v.stride = stride
		v.offset = func(idx []int64) int64 {
			o := v.begin
			for i, x := range idx {
				o += x * stride[i]
			}
			return o
		}
		v.elem = func(idx []int64) []byte {
			o := v.offset(idx)
			b := make([]byte, es)
			for i := range b {
				b[int(es)-1-i] = hashByte(o + int64(i))
			}
			return b
		}
		bf.vars = append(bf.vars, &v.bigVar)
	}
	bf.f = &fio{size: end, failAt: -1, at: func(p []byte, off int64) {
		for i := range p {
			o := off + int64(i)
			if o < int64(len(head)) {
				p[i] = head[o]
			} else {
				p[i] = hashByte(o)
			}
		}
	}}
	return bf
}

var reOffset = regexp.MustCompile(`OFFSET (\d+)`)

// genBigH5 has the reference library make a file with variables beyond 4 GiB.
func genBigH5(c *Ctx, r *rand.Rand) *bigFile {
	p := c.Path("big.nc")
	s := newScript(p, fmtNC4)
	bf := &bigFile{h5: true, desc: "HDF5"}
	type later func()
	var puts []later
	types := []string{"byte", "short", "int", "float", "double", "ubyte", "ushort", "uint", "int64", "uint64"}
	groups := []int{0}
	gpaths := [][]string{nil}
	used := 0
	dim := func(g int, n int64) int {
		used++
		return s.dim(g, fmt.Sprint("d", used), int(n))
	}
	huge := 0
	contiguous := func(total int64) {
		g := r.Intn(len(groups))
		v := &bigVar{path: gpaths[g], name: fmt.Sprint("c", len(bf.vars)), kind: "contiguous", t: prims[pick(r, types)]}
		es := int64(primSize[v.t.K])
		n := total / es
		switch r.Intn(4) {
		case 0:
			v.shape = []int64{n}
		case 1:
			k := pick(r, []int64{3, 1000, 65536})
			v.shape = []int64{n/k + 1, k}
		case 2:
			k := pick(r, []int64{3, 1000, 65536})
			v.shape = []int64{k, n/k + 1}
		default:
			v.shape = []int64{3, n/150 + 1, 50}
		}
		var ds []int
		for _, n := range v.shape {
			ds = append(ds, dim(groups[g], n))
		}
		id := s.vari(groups[g], v.name, v.t, ds)
		s.add("varfill %d 1 -", id)
		s.add("chunk %d 1 0", id)
		if r.Intn(3) == 0 {
			s.add("endian %d 2", id)
			v.extra = -1 // big-endian
		}
		// one element, so that it is allocated
		st := make([]int, len(v.shape))
		ct := make([]int, len(v.shape))
		for i := range ct {
			ct[i] = 1
		}
		puts = append(puts, func() { s.put(id, st, ct, genData(r, v.t, 1)) })
		bf.vars = append(bf.vars, v)
		huge++
	}
	chunked := func() {
		g := r.Intn(len(groups))
		v := &bigVar{path: gpaths[g], name: fmt.Sprint("k", len(bf.vars)), kind: "chunked", t: prims[pick(r, types)]}
		es := int64(primSize[v.t.K])
		rank := 1 + r.Intn(3)
		l := ""
		for i := range rank {
			n := pick(r, []int64{5, 1000, 1<<31 + 7, 1 << 33, 1<<40 + 1})
			if rank > 1 {
				n = pick(r, []int64{5, 100, 70000, 1<<20 + 1, 1<<32 + 5})
				if i > 0 && v.shape[0] > 1<<20 {
					n = pick(r, []int64{5, 100, 70000})
				}
				if rank == 3 {
					n = pick(r, []int64{5, 100, 70000, 1 << 19})
				}
			}
			v.shape = append(v.shape, n)
			ch := 1 + r.Int63n(min(n, []int64{0, 4000, 70, 20}[rank]))
			v.chunk = append(v.chunk, ch)
			l += fmt.Sprintf(" %d", ch)
			_ = i
		}
		v.csize = es
		for _, ch := range v.chunk {
			v.csize *= ch
		}
		var ds []int
		unlim := r.Intn(3) == 0
		for i, n := range v.shape {
			if i == 0 && unlim {
				n = 0
			}
			ds = append(ds, dim(groups[g], n))
		}
		id := s.vari(groups[g], v.name, v.t, ds)
		s.add("chunk %d 0 %d%s", id, rank, l)
		if r.Intn(3) == 0 {
			s.add("deflate %d %d 1 1", id, r.Intn(2))
		}
		if r.Intn(3) == 0 {
			s.add("fletcher %d", id)
		}
		if r.Intn(3) == 0 {
			s.add("endian %d 2", id)
		}
		fill := genPrim(r, v.t.K)
		s.add("varfill %d 0 %s", id, hxb(fill))
		type part struct {
			st, ct []int64
			data   []byte
		}
		var parts []part
		for k := range 2 + r.Intn(4) {
			st := make([]int, rank)
			ct := make([]int, rank)
			var p part
			n := 1
			for i, d := range v.shape {
				x := hotIndex(r, d)
				if k == 0 {
					x = d - 1 // the last one, so that an unlimited dimension gets its length
				}
				m := 1 + r.Int63n(min(d-x, 12))
				st[i], ct[i] = int(x), int(m)
				p.st, p.ct = append(p.st, x), append(p.ct, m)
				n *= int(m)
				c := int64(1)
				c = (x+m-1)/v.chunk[i] - x/v.chunk[i] + 1
				_ = c
			}
			p.data = genData(r, v.t, n)
			parts = append(parts, p)
			v.hot = append(v.hot, p.st)
			puts = append(puts, func() { s.put(id, st, ct, p.data) })
			v.index += 1 << rank * 12
		}
		v.elem = func(idx []int64) []byte {
			for k := len(parts) - 1; k >= 0; k-- {
				p := parts[k]
				at, in := int64(0), true
				for i, x := range idx {
					in = in && x >= p.st[i] && x < p.st[i]+p.ct[i]
					at = at*p.ct[i] + x - p.st[i]
				}
				if in {
					return p.data[at*es : (at+1)*es]
				}
			}
			return fill
		}
		bf.vars = append(bf.vars, v)
	}
	strs := func() {
		g := r.Intn(len(groups))
		v := &bigVar{path: gpaths[g], name: fmt.Sprint("s", len(bf.vars)), kind: "strings", t: prims["string"]}
		n := 1 + r.Intn(50)
		v.shape = []int64{int64(n)}
		id := s.vari(groups[g], v.name, v.t, []int{dim(groups[g], int64(n))})
		var elems [][]byte
		var all []byte
		for range n {
			e := genWire(r, v.t)
			elems = append(elems, e)
			all = append(all, e...)
		}
		puts = append(puts, func() { s.put(id, []int{0}, []int{n}, all) })
		v.elem = func(idx []int64) []byte { return elems[idx[0]] }
		v.heap, v.extra = 1<<16, 1<<12
		bf.vars = append(bf.vars, v)
	}
	flush := func() {
		for _, f := range puts {
			f()
		}
		puts = nil
	}
	if r.Intn(2) == 0 {
		chunked()
	}
	contiguous(pick(r, []int64{3 << 30, 5 << 30, 1 << 40}))
	flush()
	// what follows is beyond it, the metadata of new groups too
	if r.Intn(2) == 0 {
		groups = append(groups, s.grp(0, "g"))
		gpaths = append(gpaths, []string{"g"})
	}
	for range 1 + r.Intn(2) {
		chunked()
	}
	contiguous(pick(r, []int64{1000, 1 << 20, 5 << 30}))
	strs()
	flush()
	must(c.ref.Make(s.lines))
	f, err := os.Open(p)
	must(err)
	st, err := f.Stat()
	must(err)
	// where the contiguous variables are
	type region struct{ from, to int64 }
	var regs []region
	for _, v := range bf.vars {
		if v.kind != "contiguous" {
			continue
		}
		path := "/" + strings.Join(append(append([]string{}, v.path...), v.name), "/")
		out, err := exec.Command("h5dump", "-H", "-p", "-d", path, p).Output()
		m := reOffset.FindSubmatch(out)
		if err != nil || m == nil {
			hfail("h5dump %s: %v %s", path, err, out)
		}
		begin, _ := strconv.ParseInt(string(m[1]), 10, 64)
		es := int64(primSize[v.t.K])
		v.stride = make([]int64, len(v.shape))
		n := es
		for i := len(v.shape) - 1; i >= 0; i-- {
			v.stride[i] = n
			n *= v.shape[i]
		}
		big := v.extra == -1
		v.extra = 0
		regs = append(regs, region{begin, begin + n})
		v.offset = func(idx []int64) int64 {
			o := begin
			for i, x := range idx {
				o += x * v.stride[i]
			}
			return o
		}
		v.elem = func(idx []int64) []byte {
			o := v.offset(idx)
			b := make([]byte, es)
			for i := range b {
				k := i
				if big {
					k = int(es) - 1 - i
				}
				b[k] = hashByte(o + int64(i))
			}
			return b
		}
	}
	bf.f = &fio{size: st.Size(), failAt: -1, at: func(p []byte, off int64) {
		if _, err := f.ReadAt(p, off); err != nil {
			hfail("reading the file: %v", err)
		}
		for _, g := range regs {
			for o := max(off, g.from); o < min(off+int64(len(p)), g.to); o++ {
				p[o-off] = hashByte(o)
			}
		}
	}}
	bf.meta = 1 << 16
	bf.done = func() { f.Close(); os.Remove(p) }
	return bf
}

// hotIndex is an index around the places where something could overflow.
func hotIndex(r *rand.Rand, n int64) int64 {
	x := r.Int63n(n)
	switch r.Intn(6) {
	case 0:
		x = 0
	case 1:
		x = n - 1
	case 2:
		x = pick(r, []int64{1 << 31, 1 << 32, 1 << 29, 1 << 30, 1 << 33, 1<<32 + 1<<31}) + int64(r.Intn(9)) - 4
	}
	if x < 0 || x >= n {
		x = r.Int63n(n)
	}
	return x
}

// bigBox picks a part of a variable of a few elements.
func (v *bigVar) bigBox(r *rand.Rand, most int64) (b, e []int64) {
	b = make([]int64, len(v.shape))
	e = make([]int64, len(v.shape))
	var at []int64
	if len(v.hot) > 0 && r.Intn(2) == 0 {
		at = pick(r, v.hot)
	}
	// a target position in bytes, from time to time
	if at == nil && v.offset != nil && len(v.shape) > 0 && r.Intn(2) == 0 {
		want := pick(r, []int64{1 << 31, 1 << 32, 1 << 33, 1 << 40}) + int64(r.Intn(200)) - 100
		zero := make([]int64, len(v.shape))
		rem := want - v.offset(zero)
		if rem > 0 {
			idx := make([]int64, len(v.shape))
			ok := true
			for i, s := range v.stride {
				if s > 0 {
					idx[i] = rem / s
					rem %= s
				}
				if idx[i] >= v.shape[i] {
					ok = false
				}
			}
			if ok {
				at = idx
			}
		}
	}
	left := most
	order := r.Perm(len(v.shape))
	for _, i := range order {
		n := v.shape[i]
		if n == 0 {
			continue
		}
		x := hotIndex(r, n)
		if at != nil {
			x = max(0, min(n-1, at[i]-int64(r.Intn(3))))
		}
		m := 1 + r.Int63n(min(n-x, max(left, 1)))
		if r.Intn(3) == 0 {
			m = 1
		}
		if r.Intn(4) == 0 && n <= left {
			x, m = 0, n
		}
		b[i], e[i] = x, x+m
		left /= m
	}
	return b, e
}

// rows says whether a box is one of whole rows, which can be asked for with GetSlice.
func (v *bigVar) rows(b, e []int64) bool {
	for i := range b {
		if i > 0 && (b[i] != 0 || e[i] != v.shape[i]) {
			return false
		}
	}
	return len(b) > 0
}

// want is the wire form of a box, and its shape.
func (v *bigVar) want(b, e []int64) (data []byte, shape []int) {
	shape = make([]int, len(b))
	for i := range b {
		shape[i] = int(e[i] - b[i])
	}
	if prod(shape) == 0 {
		return nil, shape
	}
	idx := append([]int64{}, b...)
	for {
		data = append(data, v.elem(idx)...)
		i := len(idx) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < e[i] {
				break
			}
			idx[i] = b[i]
		}
		if i < 0 {
			return data, shape
		}
	}
}

func magnitude(x int64) int {
	n := 0
	for ; x > 0; x >>= 1 {
		n++
	}
	return n
}

// slice asks for a box in one of the ways there are.
func (v *bigVar) slice(r *rand.Rand, g api.VarGetter, b, e []int64) (any, error) {
	if v.rows(b, e) && r.Intn(2) == 0 {
		return g.GetSlice(b[0], e[0])
	}
	if len(b) == 0 {
		return g.Values()
	}
	return g.GetSliceMD(b, e)
}

func runN23(c *Ctx) {
	r := c.R
	var bf *bigFile
	if c.Case%4 == 3 {
		bf = genBigH5(c, r)
	} else {
		bf = genBigCDF(r)
	}
	defer bf.done()
	root, err := openAny(bf.f, bf.h5, r.Intn(2))
	if err != nil {
		c.Viol("open", "%s of %d bytes does not open: %v", bf.desc, bf.f.size, err)
		return
	}
	defer root.Close()
	for _, v := range bf.vars {
		g, err := groupAt(root, v.path)
		if err != nil {
			c.Viol("group", "%s: GetGroup(%q): %v", bf.desc, v.path, err)
			return
		}
		get, err := g.GetVarGetter(v.name)
		if err != nil {
			c.Viol("getter", "%s: GetVarGetter(%q), %s %v: %v", bf.desc, v.name, v.t, v.shape, err)
			continue
		}
		if fmt.Sprint(get.Shape()) != fmt.Sprint(v.shape) || len(v.shape) > 0 && get.Len() != v.shape[0] {
			c.Viol("shape", "%s: %s has shape %v and length %d instead of %v", bf.desc, v.name, get.Shape(), get.Len(), v.shape)
		}
		for range 12 {
			b, e := v.bigBox(r, pick(r, []int64{1, 20, 400}))
			c.note = fmt.Sprintf("%s: %s %s %s%v [%v,%v)", bf.desc, v.kind, v.t, v.name, v.shape, b, e)
			x, err := v.slice(r, get, b, e)
			c.Eval()
			if err != nil {
				c.Viol("refused:"+v.kind, "%s: %v", c.note, err)
				continue
			}
			c.Count("slices", 1)
			data, shape := v.want(b, e)
			if err := cmpVarValue(x, v.t, shape, data, bf.h5); err != nil {
				c.Viol("data:"+v.kind, "%s: %v", c.note, err)
			}
			at := int64(0)
			if v.offset != nil && prod(shape) > 0 {
				at = v.offset(b)
				if at >= 1<<31 {
					c.Count("beyond_2g", 1)
				}
				if at >= 1<<32 {
					c.Count("beyond_4g", 1)
				}
			}
			lin := int64(0)
			for i, n := range v.shape {
				lin = lin*n + b[i]
			}
			if lin >= 1<<32 {
				c.Count("index_beyond_32_bits", 1)
			}
			if bf.h5 {
				c.Count("hdf5_slices", 1)
			}
			if v.kind == "record" {
				c.Count("record_slices", 1)
			}
			c.Distinct(fmt.Sprint(bf.desc, v.kind, v.t.K, len(b), magnitude(at), magnitude(lin)))
		}
		if len(v.path) > 0 {
			g.Close()
		}
	}
	c.Sample("%s, %d bytes, %d variables", bf.desc, bf.f.size, len(bf.vars))
}

// measure runs a call and tells what it read and allocated.
func measure(f *fio, call func()) (read, reads, alloc int64) {
	var a, b runtime.MemStats
	r0, n0 := f.read, f.reads
	runtime.ReadMemStats(&a)
	call()
	runtime.ReadMemStats(&b)
	return f.read - r0, f.reads - n0, int64(b.TotalAlloc - a.TotalAlloc)
}

// genCostH5 has the reference library make a file whose variables have all of their data.
func genCostH5(c *Ctx, r *rand.Rand) *bigFile {
	p := c.Path("cost.nc")
	s := newScript(p, fmtNC4)
	bf := &bigFile{h5: true, desc: "HDF5 with data", meta: 1 << 17}
	nd := 0
	dim := func(n int64) int {
		nd++
		return s.dim(0, fmt.Sprint("d", nd), int(n))
	}
	ut := &TD{K: "compound", Name: "comp", Fields: []Field{{Name: "a", T: prims["int"]}, {Name: "b", T: prims["double"]}, {Name: "c", T: prims["short"], Dims: []int{3}}}}
	vt := &TD{K: "vlen", Name: "vl", Base: prims["int"]}
	st := &TD{K: "compound", Name: "withstr", Fields: []Field{{Name: "a", T: prims["int"]}, {Name: "s", T: prims["string"]}}}
	for _, t := range []*TD{ut, vt, st} {
		s.typ(0, t)
	}
	var puts []func()
	for i := range 3 + r.Intn(4) {
		v := &bigVar{name: fmt.Sprint("v", i), kind: "stored"}
		v.t = pick(r, []*TD{prims["int"], prims["double"], prims["byte"], prims["short"], prims["string"], ut, vt, st})
		es := int64(0)
		switch v.t {
		case ut:
			es = 24
		case vt, st, prims["string"]:
			es = 16
			if v.t == st {
				es = 24
			}
			v.extra = 70000
		default:
			es = int64(primSize[v.t.K])
		}
		total := int64(1<<17 + r.Intn(1<<19)) // bytes
		if v.extra > 0 {
			total = 1 << 15
		}
		n := total / es
		switch r.Intn(3) {
		case 0:
			v.shape = []int64{n}
		case 1:
			k := 1 + r.Int63n(300)
			v.shape = []int64{n/k + 1, k}
		default:
			k, l := 1+r.Int63n(30), 1+r.Int63n(30)
			v.shape = []int64{n/k/l + 1, k, l}
		}
		var ds []int
		tot := 1
		for _, n := range v.shape {
			ds = append(ds, dim(n))
			tot *= int(n)
		}
		id := s.vari(0, v.name, v.t, ds)
		if r.Intn(4) == 0 {
			s.add("chunk %d 1 0", id)
			v.kind = "contiguous"
			v.stride = make([]int64, len(v.shape))
			n := es
			for i := len(v.shape) - 1; i >= 0; i-- {
				v.stride[i] = n
				n *= v.shape[i]
			}
		} else {
			l := ""
			v.csize, v.index = es, 1
			for _, n := range v.shape {
				ch := 1 + r.Int63n(n)
				if ch < n/20 {
					ch = n/20 + 1
				}
				v.chunk = append(v.chunk, ch)
				v.csize *= ch
				v.index *= (n + ch - 1) / ch
				l += fmt.Sprintf(" %d", ch)
			}
			s.add("chunk %d 0 %d%s", id, len(v.shape), l)
			if v.extra == 0 && r.Intn(2) == 0 {
				s.add("deflate %d %d 1 1", id, r.Intn(2))
			}
			if v.extra == 0 && r.Intn(3) == 0 {
				s.add("fletcher %d", id)
			}
		}
		// few different elements, cheap to make
		elems := make([][]byte, 50)
		for i := range elems {
			elems[i] = genWire(r, v.t)
			n := 600 + r.Intn(800)
			text := []byte(strings.Repeat("x", n-4) + fmt.Sprintf("%04d", i))
			switch v.t {
			case vt:
				elems[i] = binary.LittleEndian.AppendUint32(nil, uint32(n/4))
				for range n / 4 {
					elems[i] = append(elems[i], genPrim(r, "int")...)
				}
			case st, prims["string"]:
				elems[i] = append(binary.LittleEndian.AppendUint32(nil, uint32(n)), text...)
				if v.t == st {
					elems[i] = append(genPrim(r, "int"), elems[i]...)
				}
			}
		}
		at := func(lin int) []byte { return elems[(lin*7+lin/50*3)%50] }
		v.elem = func(idx []int64) []byte {
			lin := int64(0)
			for i, n := range v.shape {
				lin = lin*n + idx[i]
			}
			return at(int(lin))
		}
		v.csize += 64
		puts = append(puts, func() {
			var all []byte
			for i := range tot {
				all = append(all, at(i)...)
			}
			ct := make([]int, len(v.shape))
			for i, n := range v.shape {
				ct[i] = int(n)
			}
			s.put(id, make([]int, len(ct)), ct, all)
		})
		v.heap = es
		bf.vars = append(bf.vars, v)
	}
	for _, f := range puts {
		f()
	}
	must(c.ref.Make(s.lines))
	b, err := os.ReadFile(p)
	must(err)
	bf.f = newFio(b)
	bf.done = func() { os.Remove(p) }
	return bf
}

// cost bounds what reading a box may read and allocate.
func (v *bigVar) cost(b, e []int64) (read, alloc int64) {
	es := v.heap
	if es == 0 || v.kind == "strings" {
		es = int64(primSize[v.t.K])
		if v.t.K == "string" {
			es = 16
		}
	}
	n, runs, touched := int64(1), int64(1), int64(1)
	full := true
	for i := len(b) - 1; i >= 0; i-- {
		n *= e[i] - b[i]
		if !full || v.kind == "record" && i == 0 {
			runs *= e[i] - b[i]
		}
		full = full && e[i]-b[i] == v.shape[i]
	}
	if n == 0 {
		return 1 << 16, 1 << 17
	}
	need := n * (es + v.extra)
	fixedRead, perElem := int64(1<<16), int64(64)
	if v.extra > 0 {
		fixedRead += 1 << 18 // a collection may be large
	}
	if !v.t.isPrim() || v.t.K == "string" {
		perElem = 1 << 15 // there is no quick way to make one
	}
	if v.extra > 0 {
		perElem = 1 << 19 // each may be in its own collection
	}
	fixedAlloc := fixedRead*4 + n*perElem
	if v.extra > 0 {
		fixedAlloc += 1 << 22
	}
	if v.chunk == nil {
		return fixedRead + need + runs*4608, fixedAlloc + need*24 + runs*12288
	}
	for i, c := range v.chunk {
		touched *= (e[i]-1)/c - b[i]/c + 1
	}
	if touched > v.index {
		touched = v.index
	}
	return fixedRead + need + touched*(v.csize+8192) + v.index*200,
		fixedAlloc + need*24 + touched*(v.csize*12+65536) + v.index*1000
}

func runN21(c *Ctx) {
	r := c.R
	var bf *bigFile
	switch c.Case % 4 {
	case 3:
		bf = genBigH5(c, r)
	case 1:
		bf = genCostH5(c, r)
	default:
		bf = genBigCDF(r)
	}
	defer bf.done()
	worst := func(what string, got, bound int64) {
		k := "worst_permille_" + what
		if v := got * 1000 / bound; v > c.counts[k] {
			c.Count(k, v-c.counts[k])
		}
	}
	check := func(what string, read, alloc, maxRead, maxAlloc int64) {
		c.Eval()
		c.Count("measured_reads", 1)
		if read > maxRead {
			c.Viol("read:"+what, "%s reads %d bytes, more than %d", c.note, read, maxRead)
		}
		if alloc > maxAlloc {
			c.Viol("alloc:"+what, "%s allocates %d bytes, more than %d", c.note, alloc, maxAlloc)
		}
		if os.Getenv("VERIF_DEBUG") != "" {
			worst(what+"_read", read, maxRead)
			worst(what+"_alloc", alloc, maxAlloc)
		}
	}
	var root api.Group
	var err error
	via := r.Intn(2)
	c.note = "opening " + bf.desc
	read, _, alloc := measure(bf.f, func() { root, err = openAny(bf.f, bf.h5, via) })
	if err != nil {
		c.Viol("open", "%s of %d bytes does not open: %v", bf.desc, bf.f.size, err)
		return
	}
	defer root.Close()
	check("open", read, alloc, 1<<22+bf.meta*4, 1<<24+bf.meta*16)
	for _, v := range bf.vars {
		g, err := groupAt(root, v.path)
		if err != nil {
			c.Viol("group", "%s: GetGroup(%q): %v", bf.desc, v.path, err)
			return
		}
		var get api.VarGetter
		c.note = fmt.Sprintf("the getter of %s: %s %s%v", bf.desc, v.t, v.name, v.shape)
		read, _, alloc := measure(bf.f, func() {
			get, err = g.GetVarGetter(v.name)
			if err == nil {
				get.Shape()
				get.Len()
				get.Type()
				get.GoType()
				get.Dimensions()
				get.Attributes()
			}
		})
		if err != nil {
			c.Viol("getter", "%s: %v", c.note, err)
			continue
		}
		check("getter", read, alloc, 1<<17, 1<<20)
		size := int64(1)
		for _, n := range v.shape {
			if size < 1<<50 {
				size *= n
			}
		}
		if size > 1<<35 {
			c.Count("variables_beyond_memory", 1)
		}
		for range 10 {
			b, e := v.bigBox(r, pick(r, []int64{1, 20, 400, 5000}))
			if v.rows(b, e) && r.Intn(3) == 0 && len(b) > 0 { // nothing
				e[0] = b[0]
			}
			c.note = fmt.Sprintf("%s: %s %s %s%v [%v,%v)", bf.desc, v.kind, v.t, v.name, v.shape, b, e)
			maxRead, maxAlloc := v.cost(b, e)
			var x any
			read, _, alloc := measure(bf.f, func() { x, err = v.slice(r, get, b, e) })
			if err != nil {
				c.Viol("refused:"+v.kind, "%s: %v", c.note, err)
				continue
			}
			check(v.kind, read, alloc, maxRead, maxAlloc)
			c.Count("slices", 1)
			switch {
			case v.chunk != nil:
				c.Count("chunked_slices", 1)
			case v.kind == "record":
				c.Count("record_slices", 1)
			}
			data, shape := v.want(b, e)
			if err := cmpVarValue(x, v.t, shape, data, bf.h5); err != nil {
				c.Viol("data:"+v.kind, "%s: %v", c.note, err)
			}
			c.Distinct(fmt.Sprint(bf.desc, v.kind, v.t.K, len(b), magnitude(maxRead)))
		}
		if len(v.path) > 0 {
			g.Close()
		}
	}
	c.Sample("%s, %d bytes, %d variables", bf.desc, bf.f.size, len(bf.vars))
}
