package main

// N15: files are closed exactly once, when their last user closes.

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func init() {
	register(&Prop{ID: "N15", Level: "exploration",
		Rule:  "random histories of opening by path or reader, group opens (relative, absolute, nested, from closed handles), reads through open and closed handles and through kept getters, and closes (repeated, in any order, with a failing close underneath), checked after every step against a reference count model, with the descriptors of the process and a reader that counts closes and uses after close watched; failed opens of damaged, truncated, empty, missing and foreign files; writers with subgroups, finished or refused; one evaluation per step; distinct by step kind, handle count and state",
		Cases: func(t string) int { return tierN(t, 300, 6000) },
		Run:   runN15, Min: map[string]int64{"steps": 10000, "closed_exactly_once": 500, "failed_opens": 3000, "reads_after_close": 1000, "writers": 200}})
}

type lcHandle struct {
	g    api.Group
	path []string
	env  *rdEnv
	open bool
}

func runN15(c *Ctx) {
	r := c.R
	// descriptors must not be closed by the garbage collector
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	o := genOpts{Mode: modeOf(c.Case), Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 60, MaxVars: 3}
	path, model, h5 := refFile(c, o)
	path, err := filepath.EvalSymlinks(path)
	must(err)
	b, err := os.ReadFile(path)
	must(err)
	type where struct {
		m    *Grp
		path []string
	}
	var ws []where
	eachGroup(model.Root, nil, func(m *Grp, p []string) { ws = append(ws, where{m, p}) })
	all := map[string][]rdOp{}
	base := map[string]string{}
	env := newEnv(c, mustOpen(c, path))
	for _, op := range append(allOps(model), genOps(r, model, 30)...) {
		op.via = 0
		k := fmt.Sprintf("%q", op.path)
		if op.kind == "getgroup" {
			continue
		}
		base[op.key()], _ = env.exec(op)
		all[k] = append(all[k], op)
	}
	env.closeGroups()
	env.root.Close()
	if n := len(fdsOf(path)); n != 0 {
		c.Viol("fd", "%d descriptors are open after everything was closed", n)
		return
	}

	for round := range 4 {
		byPath := round%2 == 0
		var f *fio
		var root api.Group
		if byPath {
			switch {
			case r.Intn(2) == 0:
				root, err = netcdf.Open(path)
			case h5:
				root, err = hdf5.Open(path)
			default:
				root, err = cdf.Open(path)
			}
		} else {
			f = newFio(b)
			if r.Intn(3) == 0 {
				f.closeErr = errors.New("injected close failure")
			}
			root, err = openAny(f, h5, r.Intn(2))
		}
		if err != nil {
			c.Viol("open", "an intact file does not open: %v", err)
			return
		}
		hs := []*lcHandle{{g: root, open: true}}
		nopen := 1
		type kept struct {
			h  *lcHandle
			gt api.VarGetter
			op rdOp
		}
		var getters []kept
		var trail []string
		check := func(what string) bool {
			c.Eval()
			c.Count("steps", 1)
			c.Distinct(fmt.Sprint(what, nopen, len(hs), byPath))
			trail = append(trail, what)
			want := 0
			if nopen == 0 {
				want = 1
			}
			if byPath {
				if got := len(fdsOf(path)); got != 1-want {
					c.Viol("fd", "%d descriptors open with %d handles open, after %q", got, nopen, trail)
					return false
				}
				return true
			}
			if f.closes != want {
				c.Viol("closes", "closed %d times with %d handles open, after %q", f.closes, nopen, trail)
				return false
			}
			if f.afterEnd > 0 {
				c.Viol("use", "used after it was closed, after %q", trail)
				return false
			}
			return true
		}
		ok := check("open")
		steps := 20 + r.Intn(30)
		for i := 0; ok && i < steps; i++ {
			h := pick(r, hs)
			k := fmt.Sprintf("%q", h.path)
			switch x := r.Intn(10); {
			case x < 3: // open a group
				var w where
				var g api.Group
				name := ""
				switch r.Intn(4) {
				case 0: // absolute
					w = pick(r, ws)
					name = "/" + join(w.path)
				case 1: // itself
					w.path = h.path
					name = pick(r, []string{"", "/" + join(h.path)})
					if h5 {
						name = "/" + join(h.path)
					}
				case 2: // nonexistent
					name = pick(r, []string{"nosuch", "/no/such", "../x"})
				default:
					w = pick(r, ws)
					if len(w.path) < len(h.path) || join(w.path[:len(h.path)]) != join(h.path) || len(w.path) == len(h.path) {
						w = where{}
						name = "/"
					} else {
						name = join(w.path[len(h.path):])
					}
				}
				g, err = h.g.GetGroup(name)
				if err == nil {
					if nopen == 0 {
						c.Viol("reopened", "GetGroup(%q) succeeds on a closed file, after %q", name, trail)
						return
					}
					hs = append(hs, &lcHandle{g: g, path: w.path, open: true})
					nopen++
				} else if h.open && name != "nosuch" && name != "/no/such" && name != "../x" {
					c.Viol("getgroup", "GetGroup(%q) from %q: %v, after %q", name, h.path, err, trail)
					return
				}
				ok = check(fmt.Sprintf("getgroup %v %v", h.open, err == nil))
			case x < 6: // close
				for range 1 + r.Intn(2) {
					h.g.Close()
					if h.open {
						h.open = false
						nopen--
					}
				}
				ok = check("close")
			case x < 9: // read
				ops := all[k]
				if len(ops) == 0 {
					continue
				}
				op := pick(r, ops)
				e := &rdEnv{c: c, root: h.g, groups: map[string]api.Group{}, getters: map[string]api.VarGetter{}}
				p := op
				p.path = nil
				got, _ := e.exec(p)
				want := base[op.key()]
				if !h.open {
					c.Count("reads_after_close", 1)
				}
				if got != want && (h.open || !isErrResult(got)) {
					// listings of a closed handle have no way to fail
					c.Viol("read", "%s (handle open: %v, %d open) gives\n %s\ninstead of\n %s\nafter %q", op.key(), h.open, nopen, clip(got), clip(want), trail)
					return
				}
				ok = check(fmt.Sprintf("read %v", h.open))
				if op.kind == "values" || op.kind == "getvar" {
					if gt, err := h.g.GetVarGetter(op.name); err == nil {
						op.kind = "values"
						if _, has := base[op.key()]; has {
							getters = append(getters, kept{h, gt, op})
						}
					}
				}
			default: // a getter that was kept
				if len(getters) == 0 {
					continue
				}
				kp := pick(r, getters)
				v, err := kp.gt.Values()
				if err != nil {
					if kp.h.open {
						c.Viol("getter", "values of %q: %v although its group is open, after %q", kp.op.name, err, trail)
						return
					}
				} else if got := canon(v); got != base[kp.op.key()] {
					c.Viol("getter", "values of %q (open: %v) are %s, not %s", kp.op.name, kp.h.open, clip(got), clip(base[kp.op.key()]))
					return
				}
				ok = check(fmt.Sprintf("getter %v", kp.h.open))
			}
		}
		// close what is left, in any order
		for _, i := range r.Perm(len(hs)) {
			h := hs[i]
			h.g.Close()
			if h.open {
				h.open = false
				nopen--
			}
			if !ok {
				continue
			}
			ok = check("final close")
		}
		if !ok {
			return
		}
		for _, h := range hs {
			h.g.Close()
		}
		if check("close again") {
			c.Count("closed_exactly_once", 1)
		}
	}

	// failed opens
	for range 14 {
		bad := append([]byte{}, b...)
		kind := pick(r, []string{"cut", "flip", "empty", "text", "magic", "other", "missing", "dir"})
		p := c.Path("bad.nc")
		switch kind {
		case "cut":
			bad = bad[:r.Intn(len(bad))]
		case "flip":
			for range 1 + r.Intn(4) {
				bad[r.Intn(min(len(bad), 400))] ^= byte(1 + r.Intn(255))
			}
		case "empty":
			bad = nil
		case "text":
			bad = []byte("netcdf x { dimensions: a = 1; }")
		case "magic":
			bad = bad[:4+r.Intn(5)]
		case "other":
			bad = append([]byte{0x89}, bad[1:]...)
			if h5 {
				bad = append([]byte("CDF\x01"), bad[4:]...)
			}
		}
		must(os.WriteFile(p, bad, 0o644))
		if kind == "missing" {
			p = c.Path("missing.nc")
		}
		if kind == "dir" {
			p = c.Dir
		}
		abs, err := filepath.EvalSymlinks(c.Dir)
		must(err)
		abs = filepath.Join(abs, filepath.Base(p))
		if kind == "dir" {
			abs = filepath.Clean(filepath.Dir(abs))
			continue
		}
		c.note = "failed open " + kind
		for _, open := range []func(string) (api.Group, error){netcdf.Open, cdf.Open, hdf5.Open} {
			g, err := openQuiet(open, p)
			c.Eval()
			want := 0
			if err == nil {
				want = 1
			} else {
				c.Count("failed_opens", 1)
			}
			c.Distinct(fmt.Sprint("failed", kind, err == nil))
			if got := len(fdsOf(abs)); got != want {
				c.Viol("failed-fd", "%s: %d descriptors open after opening gave error %v", kind, got, err)
				return
			}
			if err == nil {
				g.Close()
				if got := len(fdsOf(abs)); got != 0 {
					c.Viol("fd", "%s: %d descriptors open after closing", kind, got)
					return
				}
			}
		}
		for _, open := range []func(api.ReadSeekerCloser) (api.Group, error){netcdf.New, cdf.New, hdf5.New} {
			f := newFio(bad)
			g, err := newQuiet(open, f)
			c.Eval()
			if f.closes != 0 {
				c.Viol("failed-close", "%s: New (error %v) closed the file", kind, err)
				return
			}
			if err == nil {
				g.Close()
				if f.closes != 1 {
					c.Viol("closes", "%s: closed %d times", kind, f.closes)
					return
				}
			} else {
				c.Count("failed_opens", 1)
			}
		}
	}

	// writers
	wp := genCDFProg(r, 3, 40)
	if c.Case%2 == 0 {
		wp = genH5Prog(r, 3, 40)
	}
	p := filepath.Join(filepath.Dir(path), "w.nc")
	x := wp.start(c, p)
	for _, op := range wp.ops {
		x.step(op, op.attMap(), op.Dims)
		if r.Intn(3) == 0 { // refused
			x.ws[0].AddVar("", api.Variable{Values: int32(1)})
			x.ws[0].CreateGroup("bad/name")
		}
	}
	if got := len(fdsOf(p)); got > 1 {
		c.Viol("writer-fd", "%d descriptors open while writing", got)
	}
	x.finish()
	for _, w := range x.ws {
		w.Close()
	}
	c.Eval()
	c.Count("writers", 1)
	if got := len(fdsOf(p)); got != 0 {
		c.Viol("writer-fd", "%d descriptors open after the writer was closed\n%s", got, wp.listing())
	}
}

func join(p []string) string {
	s := ""
	for i, n := range p {
		if i > 0 {
			s += "/"
		}
		s += n
	}
	return s
}

// openQuiet opens a damaged file. What damaged files do to the process is the business of N16: here
// a panic is only a failed open, whose descriptor may be lost.
func openQuiet(open func(string) (api.Group, error), p string) (g api.Group, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic %v", e)
		}
	}()
	return open(p)
}

func newQuiet(open func(api.ReadSeekerCloser) (api.Group, error), f api.ReadSeekerCloser) (g api.Group, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic %v", e)
		}
	}()
	return open(f)
}
