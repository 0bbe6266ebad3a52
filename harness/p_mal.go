package main

// N16: malformed files produce errors, not crashes.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"syscall"
	"time"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func init() {
	register(&Prop{ID: "N16", Level: "exploration",
		Rule:     "reference and writer files of every kind mutated (bit flips, boundary numbers at any offset, addresses replaced by other addresses of the file, ranges copied, moved, removed or cut; metadata checksums put right again in most), and byte soup behind valid signatures, opened by every entry point and walked completely; panics, process deaths, CPU time and bytes allocated are watched; one evaluation per mutant; distinct by mutation kinds and outcome",
		Cases:    func(t string) int { return tierN(t, 1600, 12000) },
		Run:      runN16,
		Plain:    true,
		CPUKill:  60,
		MemLimit: 4 << 30,
		Min:      map[string]int64{"mutants": 80000, "opened": 20000, "refused": 40000, "walk_errors": 200000, "checksummed_blocks": 10000}})
}

// what a walk may allocate beyond what the declared shapes and the file's size explain
const walkSlack = 192 << 20

// what an element may take, several copies of it included
const maxElem = 128 << 20

var simple = map[string]bool{"byte": true, "ubyte": true, "char": true, "short": true, "ushort": true, "int": true, "uint": true,
	"int64": true, "uint64": true, "float": true, "double": true}

type walker struct {
	c      *Ctx
	budget int64 // what the declared shapes explain
	bytes  int64 // what long elements explain
	nerr   int64
	calls  int64
	depth  int
}

func (w *walker) err(e error) {
	w.calls++
	if e != nil {
		w.nerr++
	}
}

func (w *walker) atts(m api.AttributeMap) {
	if m == nil {
		return
	}
	for _, k := range append(append([]string{}, m.Keys()...), "nosuch", "DIMENSION_LIST") {
		m.Get(k)
		m.GetType(k)
		m.GetGoType(k)
	}
}

func (w *walker) group(g api.Group) {
	w.depth++
	defer func() { w.depth-- }()
	w.atts(g.Attributes())
	for _, d := range g.ListDimensions() {
		g.GetDimension(d)
	}
	for _, t := range append(g.ListTypes(), "nosuch") {
		g.GetType(t)
		g.GetGoType(t)
	}
	for _, n := range append(g.ListVariables(), "nosuch", "") {
		w.variable(g, n)
	}
	for _, n := range append(g.ListSubgroups(), "nosuch") {
		sg, err := g.GetGroup(n)
		w.err(err)
		if err != nil {
			continue
		}
		if w.depth < 40 {
			w.group(sg)
		}
		sg.Close()
	}
}

func (w *walker) variable(g api.Group, n string) {
	gt, err := g.GetVarGetter(n)
	w.err(err)
	size := int64(1)
	got := err == nil
	if got { // else its shape is unknown
		gt.Len()
		gt.Type()
		gt.GoType()
		gt.Dimensions()
		w.atts(gt.Attributes())
		shape := gt.Shape()
		zero := false
		for _, s := range shape {
			if s == 0 {
				zero = true
			}
			if s < 0 || size > 1<<17/max(s, 1) {
				size = 1 << 40
				break
			}
			size *= max(s, 1)
		}
		if zero {
			size = max(size, 1)
		}
		inner := size
		if len(shape) > 0 && size < 1<<40 {
			inner = size / max(shape[0], 1)
		} else if size >= 1<<40 {
			inner = 1
			for _, s := range shape[min(1, len(shape)):] {
				if s < 0 || inner > 1<<15/max(s, 1) {
					inner = 1 << 40
					break
				}
				inner *= max(s, 1)
			}
		}
		// What an element takes is not known for all types. It may be anything that is not refused, so
		// only few of them are read, and more only if they turn out to be small.
		rows, all := inner <= 1<<15, size <= 1<<17
		if !simple[gt.Type()] {
			rows, all = inner <= 32, all && inner <= 32
		}
		if rows {
			w.budget += inner * 2
			if gt.Len() > 0 {
				a0 := totalAlloc()
				_, err = gt.GetSlice(0, 1)
				w.err(err)
				if cost := totalAlloc() - a0; !simple[gt.Type()] && cost/max(inner, 1) < maxElem {
					w.bytes += cost * 3
					if all = all && cost < 64<<20/gt.Len(); all {
						w.bytes += 4 * cost * gt.Len()
					}
				}
				_, err = gt.GetSlice(gt.Len()-1, gt.Len())
				w.err(err)
			}
			b := make([]int64, len(shape))
			e := make([]int64, len(shape))
			for i := range e {
				e[i] = min(1, shape[i])
			}
			_, err = gt.GetSliceMD(b, e)
			w.err(err)
		}
		_, err = gt.GetSlice(-1, 1)
		w.err(err)
		_, err = gt.GetSlice(0, 1<<62)
		w.err(err)
		if !all {
			return
		}
		w.budget += 2 * size
		_, err = gt.Values()
		w.err(err)
	}
	if got || n == "" || n == "nosuch" {
		w.budget += size
		_, err := g.GetVariable(n)
		w.err(err)
	}
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func totalAlloc() int64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.TotalAlloc)
}

// walkBytes opens the bytes with an entry point and walks what it gives.
// It returns what that took.
func walkBytes(c *Ctx, b []byte, via int, kinds string, intact int64) (time.Duration, int64) {
	f := newFio(b)
	w := &walker{c: c}
	t0, a0 := cpuNow(), totalAlloc()
	var g api.Group
	var err error
	switch via % 6 {
	case 0, 1, 2:
		g, err = netcdf.New(f)
	case 3:
		g, err = hdf5.New(f)
	case 4:
		g, err = cdf.New(f)
	default:
		p := c.Path("m.nc")
		must(os.WriteFile(p, b, 0o644))
		g, err = netcdf.Open(p)
	}
	outcome := "refused"
	if err == nil {
		outcome = "opened"
		w.group(g)
		g.Close()
		c.Count("walk_calls", w.calls)
		c.Count("walk_errors", w.nerr)
	}
	c.Count(outcome, 1)
	dt, da := cpuNow()-t0, totalAlloc()-a0
	if k := os.Getenv("VERIF_KEEP"); k != "" && (dt > 8*time.Second || da > walkSlack+400*int64(len(b))+600*w.budget+w.bytes+4*intact) {
		must(os.WriteFile(k+"/bad.nc", b, 0o644))
	}
	if dt > 8*time.Second {
		c.Viol("time", "%.1f s of CPU to walk %d bytes (declared elements %d); mutations %s", dt.Seconds(), len(b), w.budget, kinds)
	}
	if limit := int64(walkSlack) + 400*int64(len(b)) + 600*w.budget + w.bytes + 4*intact; da > limit {
		c.Viol("memory", "%d MB allocated to walk %d bytes (declared elements %d); mutations %s", da>>20, len(b), w.budget, kinds)
	}
	c.Distinct(kinds + outcome + fmt.Sprint(w.nerr > 0))
	return dt, da
}

// addrs finds 8-byte numbers that look like addresses of the file.
func addrs(b []byte, big bool) []int {
	var out []int
	for p := 0; p+8 <= len(b); p++ {
		var v uint64
		if big {
			v = uint64(binary.BigEndian.Uint32(b[p:]))
		} else {
			v = binary.LittleEndian.Uint64(b[p:])
		}
		if v > 40 && v < uint64(len(b)) {
			out = append(out, p)
		}
	}
	return out
}

var edge = []uint64{0, 1, 2, 3, 7, 8, 16, 127, 128, 255, 256, 1000, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32,
	1 << 40, 1 << 47, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 1<<64 - 8, 1<<64 - 4096, 1 << 61, 1 << 60, 100000, 1 << 24, 1 << 28}

// mutate changes b and says how.
func mutate(r *rand.Rand, b []byte, ck []ckBlock, ads []int, h5 bool, hot []int) ([]byte, string) {
	b = append([]byte{}, b...)
	kinds := ""
	resized := false
	for range 1 + r.Intn(3) {
		if len(b) < 16 {
			break
		}
		pos := r.Intn(len(b))
		if len(hot) > 0 && r.Intn(4) > 0 {
			pos = pick(r, hot)
		}
		if pos >= len(b) {
			pos = len(b) - 1
		}
		switch k := r.Intn(12); k {
		case 0, 1:
			b[pos] ^= 1 << r.Intn(8)
			kinds += "bit "
		case 2, 3:
			b[pos] = byte(pick(r, edge))
			kinds += "byte "
		case 4, 5, 6:
			n := pick(r, []int{2, 4, 4, 8, 8})
			if pos+n > len(b) {
				continue
			}
			v := pick(r, edge)
			if r.Intn(3) == 0 {
				v = uint64(len(b) + r.Intn(64) - 32)
			}
			var t [8]byte
			if h5 {
				binary.LittleEndian.PutUint64(t[:], v)
				copy(b[pos:pos+n], t[:])
			} else {
				binary.BigEndian.PutUint64(t[:], v)
				copy(b[pos:pos+n], t[8-n:])
			}
			kinds += fmt.Sprintf("number%d ", n)
		case 7, 8:
			if len(ads) < 2 {
				continue
			}
			p, q := pick(r, ads), pick(r, ads)
			n := 8
			if !h5 {
				n = 4
			}
			if p+n > len(b) || q+n > len(b) {
				continue
			}
			if r.Intn(4) == 0 && h5 {
				binary.LittleEndian.PutUint64(b[p:], uint64(r.Intn(len(b))))
			} else {
				copy(b[p:p+n], append([]byte{}, b[q:q+n]...))
			}
			kinds += "address "
		case 9: // copy a range over another
			n := 1 + r.Intn(64)
			q := r.Intn(len(b))
			if pos+n > len(b) || q+n > len(b) {
				continue
			}
			copy(b[pos:pos+n], append([]byte{}, b[q:q+n]...))
			kinds += "copy "
		case 10: // small change of a number
			b[pos] += byte(r.Intn(5) - 2)
			kinds += "step "
		case 11:
			if r.Intn(3) > 0 {
				continue
			}
			switch r.Intn(3) {
			case 0:
				b = b[:pos]
				kinds += "cut "
			case 1:
				n := min(1+r.Intn(16), len(b)-pos)
				b = append(b[:pos], b[pos+n:]...)
				kinds += "remove "
			default:
				b = append(b[:pos], append(make([]byte, 1+r.Intn(16)), b[pos:]...)...)
				kinds += "insert "
			}
			resized = true
		}
	}
	if h5 && !resized && r.Intn(8) > 0 {
		// inner blocks do not contain one another, so the order does not matter
		for _, k := range ck {
			if k.from+k.n <= len(b) && k.sum+4 <= len(b) {
				k.fix(b)
			}
		}
		kinds += "fixed "
	}
	return b, kinds
}

func runN16(c *Ctx) {
	r := c.R
	path := c.Path("f.nc")
	h5 := true
	switch {
	case c.Case%10 == 9: // byte soup
		for i := range 60 {
			b := make([]byte, r.Intn(600))
			r.Read(b)
			if r.Intn(2) == 0 {
				for i := range b {
					if r.Intn(3) > 0 {
						b[i] = byte(r.Intn(4))
					}
				}
			}
			pre := pick(r, []string{"CDF\x01", "CDF\x02", "CDF\x05", "\x89HDF\r\n\x1a\n\x02\x08\x08\x00", "\x89HDF\r\n\x1a\n\x00\x00\x00\x00\x00\x08\x08\x00", "\x89HDF\r\n\x1a\n", ""})
			copy(b, pre)
			c.Eval()
			c.Count("mutants", 1)
			walkBytes(c, b, i, "soup "+fmt.Sprint(len(pre)), 0)
		}
		return
	case c.Case%7 == 6:
		h5 = c.Case%2 == 0
		var p *wprog
		if h5 {
			p = genH5Prog(r, 4, 60)
		} else {
			p = genCDFProg(r, 4, 60)
		}
		if err := p.run(c, path, nil); err != nil {
			c.Viol("write", "%v", err)
			return
		}
	default:
		o := genOpts{Mode: modeOf(c.Case), Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 40, MaxVars: 4, Partial: c.Case%3 == 0}
		_, _, h5 = refFile(c, o)
	}
	b, err := os.ReadFile(path)
	must(err)
	var ck []ckBlock
	if h5 {
		ck = ckBlocks(b)
		c.Count("checksummed_blocks", int64(len(ck)))
	}
	ads := addrs(b, !h5)
	// where the structure is
	var hot []int
	if h5 {
		for _, k := range ck {
			for i := k.from; i < k.from+k.n; i++ {
				hot = append(hot, i)
			}
		}
		for p := 0; p+8 < len(b); p++ {
			switch string(b[p : p+4]) {
			case "TREE", "HEAP", "SNOD", "GCOL":
				for i := range min(200, len(b)-p) {
					hot = append(hot, p+i)
				}
			}
		}
		for i := range min(100, len(b)) {
			hot = append(hot, i)
		}
	} else if _, _, end, err := specCDFRegions(b); err == nil {
		for i := range end {
			hot = append(hot, i)
		}
	}
	n := 70
	if c.Tier == "thorough" {
		n = 200
	}
	c.Sample("%d bytes, %d checksummed blocks, %d address-like numbers", len(b), len(ck), len(ads))
	// Chunks can be large, and then reading the intact file takes long too
	dt, intact := walkBytes(c, b, 0, "intact", 1<<40)
	if limit := time.Duration(n) * 80 * time.Millisecond; time.Duration(n)*dt > limit {
		n = int(limit / dt)
		c.Count("expensive_files", 1)
	}
	for i := range n {
		m, kinds := mutate(r, b, ck, ads, h5, hot)
		c.Eval()
		c.Count("mutants", 1)
		c.note = fmt.Sprintf("mutant %d %s", i, kinds)
		if k := os.Getenv("VERIF_KEEP"); k != "" {
			must(os.WriteFile(k+"/last.nc", m, 0o644))
		}
		walkBytes(c, m, r.Intn(6), kinds, intact)
	}
}
