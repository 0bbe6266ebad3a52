package main

// N17: altered bytes that a checksum covers never show as altered content.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func init() {
	register(&Prop{ID: "N17", Level: "exploration",
		Rule:  "HDF5 files of the reference library (all object versions, dense and indirect storage, chunks with fletcher32) and of the writer, altered inside blocks that carry a checksum (found by an independent parser; bits, bytes, bursts, swapped and copied ranges, zeroed ranges, the checksum itself), where the checksum no longer matches by the independent computation; every call of a full walk compared with the intact file; one evaluation per altered file; distinct by block kind, place in the block and kind of change",
		Cases: func(t string) int { return tierN(t, 160, 4000) },
		Run:   runN17, Plain: true, CPUKill: 60, MemLimit: 4 << 30,
		Min: map[string]int64{"altered": 20000, "detected": 10000,
			"detected:superblock": 200, "detected:OHDR": 2000, "detected:OCHK": 200, "detected:BTHD": 200, "detected:BTLF": 200,
			"detected:FRHP": 200, "detected:FHDB": 200, "detected:FHIB": 50, "detected:chunk": 500}})
}

// chunks gives the places of a dataset's chunks if they carry checksums, and whether the checksum
// is of what is in the file (nothing is applied after it).
func (r *Ref) Chunks(path, ds string) (at [][3]uint64, last bool) {
	line, err := r.roundtrip("chunks " + hx(path) + " " + hx(ds) + "\n")
	must(err)
	var x struct {
		Error   string
		Filters int
		At      int
		Chunks  [][3]uint64
	}
	if json.Unmarshal(line, &x) != nil {
		hfail("chunks: %s", line)
	}
	return x.Chunks, x.At == x.Filters-1
}

func fletcher32(b []byte) uint32 {
	// The sums are reduced modulo 65535, but not to zero.
	var s1, s2 uint32
	add := func(a, b uint32) uint32 {
		if a+b > 65535 {
			return a + b - 65535
		}
		return a + b
	}
	for i := 0; i < len(b); i += 2 {
		v := uint32(b[i]) << 8
		if i+1 < len(b) {
			v |= uint32(b[i+1])
		}
		s1 = add(s1, v)
		s2 = add(s2, s1)
	}
	return s2<<16 | s1
}

// alter changes some bytes of b[from:from+n] and says how.
func alter(r *rand.Rand, b []byte, from, n int) (what string, at int) {
	p := from + r.Intn(n)
	if r.Intn(3) == 0 { // near the start, where the fields are
		p = from + r.Intn(min(n, 24))
	}
	l := min(1+r.Intn(8), from+n-p)
	switch k := r.Intn(12); {
	case k < 4:
		b[p] ^= 1 << r.Intn(8)
		what = "bit"
	case k < 6:
		b[p] = byte(r.Intn(256))
		what = "byte"
	case k < 7:
		b[p] += byte(r.Intn(2)*2 + 255) // one more or less
		what = "step"
	case k < 8:
		for i := range l {
			b[p+i] ^= byte(1 + r.Intn(255))
		}
		what = "burst"
	case k < 9:
		for i := range l {
			b[p+i] = 0
		}
		what = "zero"
	case k < 10:
		q := from + r.Intn(n)
		b[p], b[q] = b[q], b[p]
		what = "swap"
	case k < 11:
		q := from + r.Intn(n)
		l = min(l, from+n-q)
		copy(b[p:p+l], append([]byte{}, b[q:q+l]...))
		what = "copy"
	default:
		// numbers change places
		w := pick(r, []int{2, 4, 8})
		if n < 3*w {
			b[p] ^= 255
			break
		}
		p = from + r.Intn(n-2*w)
		t := append([]byte{}, b[p:p+w]...)
		copy(b[p:], b[p+w:p+2*w])
		copy(b[p+w:], t)
		what = "numbers"
	}
	return what, p - from
}

func runN17(c *Ctx) {
	r := c.R
	p := c.Path("f.nc")
	var f *File
	if c.Case%8 == 7 {
		p = c.Path("w.nc")
		if err := genH5Prog(r, 5, 60).run(c, p, nil); err != nil {
			c.Viol("write", "%v", err)
			return
		}
		f = modelFromReader(c, p)
	} else {
		o := genOpts{Mode: fmtNC4, Records: true, FillDecl: true, UserTypes: c.Case%3 == 0, MaxElems: 60, MaxVars: 5}
		if c.Case%12 == 1 {
			o.Many, o.MaxVars = 1+r.Intn(3), 2
		}
		p, f, _ = refFile(c, o)
	}
	b, err := os.ReadFile(p)
	must(err)
	ops := append(allOps(f), genOps(r, f, 15)...)
	if len(ops) > 150 {
		r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		ops = ops[:150]
	}
	walk := func(b []byte, each func(o *rdOp, res string) bool) error {
		g, err := hdf5.New(newFio(b))
		if err != nil {
			return err
		}
		env := newEnv(c, g)
		defer func() { env.closeGroups(); g.Close() }()
		for i := range ops {
			ops[i].via = 0
			res, _ := env.exec(ops[i])
			if !each(&ops[i], res) {
				break
			}
		}
		return nil
	}
	base := map[string]string{}
	if err := walk(b, func(o *rdOp, res string) bool { base[o.key()] = res; return true }); err != nil {
		c.Viol("open", "the intact file does not open: %v", err)
		return
	}
	type target struct {
		kind    string
		from, n int
		still   func(b []byte) bool // the checksum may match
	}
	var ts []target
	kinds := map[string][]target{}
	for _, k := range ckBlocks(b) {
		t := target{k.sig, k.from, k.n, k.valid}
		if k.sum == k.from+k.n {
			t.n += 4
		}
		kinds[t.kind] = append(kinds[t.kind], t)
	}
	eachGroup(f.Root, nil, func(m *Grp, path []string) {
		for i := range m.Vars {
			if len(m.Vars[i].Shape) == 0 || c.Case%8 == 7 {
				continue
			}
			chunks, last := c.ref.Chunks(p, strings.Join(append(append([]string{""}, path...), storedName(m, m.Vars[i])), "/"))
			for _, k := range chunks {
				from, n := int(k[1]), int(k[2])
				if k[0] != 0 || n < 5 {
					continue
				}
				// A checksum below other filters is not computed here. It shows all changes of one byte.
				t := target{"chunk", from, n, func(mod []byte) bool {
					d := 0
					for i := from; i < from+n; i++ {
						if mod[i] != b[i] {
							d++
						}
					}
					return d != 1
				}}
				if last {
					t.still = func(b []byte) bool {
						b = b[from : from+n]
						s := fletcher32(b[:n-4])
						return s == uint32(b[n-4])|uint32(b[n-3])<<8|uint32(b[n-2])<<16|uint32(b[n-1])<<24
					}
					if !t.still(b) { // on the intact file
						hfail("fletcher32 of an intact chunk does not match")
					}
				}
				kinds["chunk"] = append(kinds["chunk"], t)
			}
		}
	})
	if len(kinds) == 0 {
		c.Count("no_checksums", 1)
		return
	}
	// some of each kind
	for _, k := range sortedKeys(kinds) {
		l := kinds[k]
		r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		for i := range 40 {
			ts = append(ts, l[i%len(l)])
		}
	}
	mod := append([]byte{}, b...)
	bad := map[string]bool{}
	for _, t := range ts {
		copy(mod[t.from:], b[t.from:t.from+t.n])
		what, at := alter(r, mod, t.from, t.n)
		if string(mod[t.from:t.from+t.n]) == string(b[t.from:t.from+t.n]) || t.still(mod) {
			copy(mod[t.from:], b[t.from:t.from+t.n])
			continue
		}
		c.note = fmt.Sprintf("%s at %d: %s at %d", t.kind, t.from, what, at)
		c.Eval()
		c.Count("altered", 1)
		c.Distinct(fmt.Sprint(t.kind, what, min(at, 64)))
		detected := false
		err := walk(mod, func(o *rdOp, res string) bool {
			if isErrResult(res) {
				detected = true
				return true
			}
			if res != base[o.key()] && !bad[t.kind+o.kind] {
				bad[t.kind+o.kind] = true
				c.Viol("altered:"+t.kind+":"+o.kind, "with a %s (%d bytes at %d) altered (%s at %d), %s gives\n %s\ninstead of\n %s",
					t.kind, t.n, t.from, what, at, o.key(), clip(res), clip(base[o.key()]))
				return false
			}
			return true
		})
		if err != nil || detected {
			c.Count("detected", 1)
			c.Count("detected:"+t.kind, 1)
			if err != nil {
				c.Count("open_failed", 1)
			}
		} else {
			c.Count("harmless", 1)
		}
		copy(mod[t.from:], b[t.from:t.from+t.n])
	}
	c.Sample("%d alterations of %d kinds of blocks in %d bytes, %s", len(ts), len(kinds), len(b), shapeKey(f.Root))
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
