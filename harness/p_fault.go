package main

// N14: read faults and truncation never turn into wrong data.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func init() {
	register(&Prop{ID: "N14", Level: "exploration",
		Rule:  "random reference files and files of the writers read through a reader that fails (read, seek, partial read, once or for good) at swept operations of opening and of every later call, that returns short reads, or that ends early at swept lengths; every result compared with the intact file's (or with the fill value past the end of classic files), and compared again once the fault is gone; one evaluation per faulted, truncated or short-read call; distinct by call, fault kind and position",
		Cases: func(t string) int { return tierN(t, 100, 2400) },
		Run:   runN14, Min: map[string]int64{"faults_in_open": 2000, "faults_in_calls": 5000, "after_fault": 2500, "truncations": 3000, "short_read_calls": 1500, "fill_past_end": 1000}})
}

func newEnv(c *Ctx, root api.Group) *rdEnv {
	return &rdEnv{c: c, root: root, groups: map[string]api.Group{}, getters: map[string]api.VarGetter{}}
}

func (v *rdEnv) closeGroups() {
	for _, g := range v.groups {
		g.Close()
	}
}

func isErrResult(s string) bool {
	return strings.HasPrefix(s, "error: ") || strings.HasPrefix(s, "group error: ")
}

// openAny opens with one of the entry points that take a reader.
func openAny(f api.ReadSeekerCloser, h5 bool, via int) (api.Group, error) {
	switch {
	case via%2 == 0:
		return netcdf.New(f)
	case h5:
		return hdf5.New(f)
	}
	return cdf.New(f)
}

// allOps are calls that between them see everything in a file.
func allOps(f *File) []rdOp {
	var out []rdOp
	eachGroup(f.Root, nil, func(m *Grp, path []string) {
		for _, k := range []string{"listvars", "listgroups", "listdims", "listtypes", "atts"} {
			out = append(out, rdOp{path: path, kind: k})
		}
		for _, d := range m.Dims {
			out = append(out, rdOp{path: path, kind: "getdim", name: d.Name})
		}
		for i := range m.Vars {
			out = append(out, rdOp{path: path, kind: "getvar", name: m.Vars[i].Name})
		}
	})
	return out
}

var cdfFill = map[string]uint64{"byte": 0x81, "char": 0, "short": 0x8001, "int": 0x80000001, "float": 0x7cf00000,
	"double": 0x479e000000000000, "ubyte": 255, "ushort": 65535, "uint": math.MaxUint32,
	"int64": 1<<63 + 2, "uint64": math.MaxUint64 - 1}

// fillBytes is the big-endian fill value of a classic variable.
func fillBytes(v *Var) []byte {
	n := primSize[v.T.K]
	for _, a := range v.Atts {
		if a.Name == "_FillValue" && a.T == v.T && a.N == 1 {
			return swapped(a.Data, n)
		}
	}
	b := binary.BigEndian.AppendUint64(nil, cdfFill[v.T.K])
	return b[8-n:]
}

// cdfCut gives the whole file that a classic file cut to n bytes should look like: every element
// that is not entirely there is the fill value.
func cdfCut(b []byte, f *File, regs []cdfRegion, n int) ([]byte, int) {
	out := append([]byte{}, b...)
	filled := 0
	for _, r := range regs {
		v := &f.Root.Vars[r.v]
		fb := fillBytes(v)
		for p := r.from; p < r.to; p += len(fb) {
			if p+len(fb) > n {
				copy(out[p:], fb)
				filled++
			}
		}
	}
	return out, filled
}

func sample(r *rand.Rand, n, max int) []int {
	if n <= max {
		out := make([]int, n)
		for i := range out {
			out[i] = i
		}
		return out
	}
	seen := map[int]bool{0: true, n - 1: true, 1: true}
	out := []int{0, 1, n - 1}
	for len(out) < max {
		k := r.Intn(n)
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func runN14(c *Ctx) {
	r := c.R
	o := genOpts{Mode: modeOf(c.Case), Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 200, MaxVars: 4, Partial: false}
	var path string
	var model *File
	h5 := o.Mode == fmtNC4
	if c.Case%7 == 6 { // one of the writers' own
		path = c.Path("w.nc")
		p := genH5Prog(r, 4, 100)
		if !h5 {
			p = genCDFProg(r, 4, 100)
		}
		if err := p.run(c, path, nil); err != nil {
			c.Viol("write", "%v", err)
			return
		}
		model = modelFromReader(c, path)
	} else {
		path, model, _ = refFile(c, o)
	}
	b, err := os.ReadFile(path)
	must(err)
	ops := append(allOps(model), genOps(r, model, 25)...)
	for i := range ops {
		ops[i].via = 0
	}
	base := map[string]string{}
	open := func(f *fio, via int) (*rdEnv, error) {
		g, err := openAny(f, h5, via)
		if err != nil {
			return nil, err
		}
		return newEnv(c, g), nil
	}
	mustEnv := func(f *fio) *rdEnv {
		e, err := open(f, 0)
		if err != nil {
			c.Viol("open", "an intact file does not open: %v", err)
			panic(stopCase{})
		}
		return e
	}
	// the intact file, twice over the same handle
	bf := newFio(b)
	env := mustEnv(bf)
	openOps := int(bf.ops)
	for _, op := range ops {
		res, _ := env.exec(op)
		base[op.key()] = res
	}
	env.closeGroups()
	env.root.Close()
	c.Sample("%d bytes, %d calls, %d operations to open; %s", len(b), len(ops), openOps, shapeKey(model.Root))

	// wrong reports a result that is neither an error nor what was expected.
	bad := 0
	wrong := func(what string, op rdOp, got, want string, canFail bool) bool {
		c.Eval()
		if got == want || canFail && isErrResult(got) {
			return false
		}
		bad++
		c.Viol(what+":"+op.kind, "%s %s gives\n %s\ninstead of\n %s", c.note, op.key(), clip(got), clip(want))
		return true
	}
	run := func(what string, env *rdEnv, canFail bool, ops []rdOp, want map[string]string) {
		for _, op := range ops {
			got, _ := env.exec(op)
			if wrong(what, op, got, want[op.key()], canFail) && bad > 6 {
				panic(stopCase{})
			}
		}
	}

	// faults while opening
	nopen := 40
	if c.Tier == "thorough" {
		nopen = 400
	}
	for _, k := range sample(r, openOps, nopen) {
		kind := r.Intn(nFaults)
		f := newFio(b)
		f.arm(int64(k), kind, r.Intn(3) == 0)
		c.note = fmt.Sprintf("fault kind %d at operation %d of opening:", kind, k)
		env, err := open(f, k)
		f.disarm()
		c.Count("faults_in_open", f.faults)
		c.Distinct(fmt.Sprint("open", kind, k))
		if err != nil {
			c.Eval()
			c.Count("failed_opens", 1)
			if f.closes > 0 {
				c.Viol("closed", "%s New failed and closed the file", c.note)
			}
			// the file is the caller's: it can be tried again
			if r.Intn(4) == 0 {
				f.Seek(0, 0)
				env, err := open(f, k)
				if err != nil {
					c.Viol("retry", "%s opening again: %v", c.note, err)
					return
				}
				run("after", env, false, ops[:len(ops)/2], base)
			}
			continue
		}
		run("open", env, false, ops, base)
	}

	// faults in calls
	per := 3
	if c.Tier == "thorough" {
		per = 12
	}
	for _, op := range ops {
		f := newFio(b)
		env := mustEnv(f)
		before := f.ops
		env.exec(op)
		n := int(f.ops - before)
		for _, k := range sample(r, n, per) {
			f := newFio(b)
			env := mustEnv(f)
			var warm []rdOp
			if r.Intn(2) == 0 { // something was read before
				warm = append(warm, pick(r, ops))
				run("warm", env, false, warm, base)
			}
			kind := r.Intn(nFaults)
			sticky := r.Intn(2) == 0
			f.arm(int64(k), kind, sticky)
			c.note = fmt.Sprintf("fault kind %d at operation %d of %d (for good: %v, after %v):", kind, k, n, sticky, warm)
			run("fault", env, true, []rdOp{op}, base)
			if f.faults > 0 && sticky { // more calls while it fails
				run("fault", env, true, []rdOp{pick(r, ops), op}, base)
			}
			f.disarm()
			c.Count("faults_in_calls", f.faults)
			c.Distinct(fmt.Sprint(op.kind, kind, k, sticky))
			if f.faults == 0 {
				continue
			}
			c.note = "after the " + c.note
			c.Count("after_fault", 1)
			run("after", env, false, []rdOp{op, pick(r, ops), pick(r, ops)}, base)
		}
	}

	// short reads
	for range 2 {
		f := newFio(b)
		f.short = rand.New(rand.NewSource(r.Int63()))
		c.note = "short reads:"
		env, err := open(f, 0)
		if err != nil {
			c.Viol("short:open", "short reads: does not open: %v", err)
			break
		}
		run("short", env, false, ops, base)
		c.Count("short_read_calls", int64(len(ops)))
	}

	// truncation
	lens := []int{}
	nt := 60
	if c.Tier == "thorough" {
		nt = 1500
	}
	var regs []cdfRegion
	var cf *File
	end := 0
	if !h5 {
		cf, regs, end, err = specCDFRegions(b)
		if err != nil {
			hfail("the specification decoder refuses a reference file: %v", err)
		}
	}
	for _, i := range sample(r, len(b), nt) {
		lens = append(lens, i)
	}
	for i := 1; i < 20; i++ {
		lens = append(lens, len(b)-i)
	}
	for _, n := range lens {
		if n < 0 {
			continue
		}
		f := newFio(b[:n:n])
		c.note = fmt.Sprintf("cut to %d of %d bytes:", n, len(b))
		c.Count("truncations", 1)
		c.Distinct(fmt.Sprint("cut", n))
		env, err := open(f, n)
		c.Eval()
		if err != nil {
			if !h5 && n >= end {
				c.Viol("cut:open", "%s the header (%d) is there but: %v", c.note, end, err)
			}
			if f.closes > 0 {
				c.Viol("closed", "%s New failed and closed the file", c.note)
			}
			continue
		}
		if h5 {
			run("cut", env, true, ops, base)
			continue
		}
		if n < end {
			c.Viol("cut:header", "%s opens although the header is %d bytes", c.note, end)
			continue
		}
		whole, filled := cdfCut(b, cf, regs, n)
		c.Count("fill_past_end", int64(filled))
		want := map[string]string{}
		wenv := mustEnv(newFio(whole))
		for _, op := range ops {
			want[op.key()], _ = wenv.exec(op)
		}
		run("cut", env, false, ops, want)
	}
}

// modelFromReader lists a file as the library sees it (names and shapes only).
func modelFromReader(c *Ctx, path string) *File {
	root := mustOpen(c, path)
	defer root.Close()
	var rec func(g api.Group) *Grp
	rec = func(g api.Group) *Grp {
		m := &Grp{}
		for _, n := range g.ListDimensions() {
			m.Dims = append(m.Dims, Dim{Name: n})
		}
		for _, n := range g.ListVariables() {
			gt, err := g.GetVarGetter(n)
			if err != nil {
				continue
			}
			v := Var{Name: n}
			for _, s := range gt.Shape() {
				v.Shape = append(v.Shape, int(s))
			}
			m.Vars = append(m.Vars, v)
		}
		for _, n := range g.ListSubgroups() {
			sg, err := g.GetGroup(n)
			if err != nil {
				continue
			}
			s := rec(sg)
			s.Name = n
			m.Groups = append(m.Groups, s)
		}
		return m
	}
	return &File{Root: rec(root)}
}
