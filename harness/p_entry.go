package main

// N25: files are recognised by content and opened the same way by every entry point.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"syscall"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func init() {
	register(&Prop{ID: "N25", Level: "exploration",
		Rule:  "intact files of every kind under misleading names, through links and relative paths, opened by path and by reader (at any position, with short reads) through the generic and the format's own entry points, all views compared call by call; the other format's entry points, near-miss signatures, unknown and unsupported versions, empty, tiny and missing files, directories must give errors and no handle; writers of each kind must make files of that kind; one evaluation per open; distinct by entry point, kind of input and outcome",
		Cases: func(t string) int { return tierN(t, 400, 8000) },
		Run:   runN25, Min: map[string]int64{"views": 4000, "refused": 20000, "misnamed": 1000, "moved_readers": 1000, "writers": 300}})
}

var hostileFileNames = []string{"x", "data.cdf", "data.h5", "a.hdf5", "CDF", "\x89HDF", "-r", "a b.txt", "λ.nc", "%s%d", "x.nc.gz", "http:--x", ".nc", "a\\b", "nc", "#1", "x.NC", "x.json"}

func runN25(c *Ctx) {
	r := c.R
	path := c.Path("f.nc")
	var model *File
	h5 := modeOf(c.Case) == fmtNC4
	if c.Case%4 == 3 { // one of the writers' own
		p := genH5Prog(r, 4, 60)
		if !h5 {
			p = genCDFProg(r, 4, 60)
		}
		path = c.Path("w.nc")
		if err := p.run(c, path, nil); err != nil {
			c.Viol("write", "%v", err)
			return
		}
		model = modelFromReader(c, path)
	} else {
		path, model, _ = refFile(c, genOpts{Mode: modeOf(c.Case), Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 60, MaxVars: 3})
	}
	b, err := os.ReadFile(path)
	must(err)
	ops := append(allOps(model), genOps(r, model, 20)...)
	var base map[string]string
	view := func(what string, g api.Group, err error) bool {
		c.Eval()
		c.Distinct(fmt.Sprint(what, h5, err == nil))
		if err != nil || g == nil {
			c.Viol("open", "%s does not open: %v", what, err)
			return false
		}
		env := newEnv(c, g)
		defer func() { env.closeGroups(); g.Close() }()
		res := map[string]string{}
		for _, op := range ops {
			op.via = 0
			res[op.key()], _ = env.exec(op)
		}
		c.Count("views", 1)
		if base == nil {
			base = res
			return true
		}
		for _, op := range ops {
			op.via = 0
			if res[op.key()] != base[op.key()] {
				c.Viol("view:"+op.kind, "%s: %s gives\n %s\ninstead of\n %s", what, op.key(), clip(res[op.key()]), clip(base[op.key()]))
				return false
			}
		}
		return true
	}
	refused := func(what string, g api.Group, err error) bool {
		c.Eval()
		c.Distinct(fmt.Sprint(what, h5, err == nil))
		if err == nil {
			c.Viol("opened", "%s opens", what)
			if g != nil {
				g.Close()
			}
			return false
		}
		if g != nil {
			c.Viol("handle", "%s: a handle came with the error %v", what, err)
			return false
		}
		c.Count("refused", 1)
		return true
	}
	ownOpen, otherOpen := cdf.Open, hdf5.Open
	ownNew, otherNew := cdf.New, hdf5.New
	if h5 {
		ownOpen, otherOpen = otherOpen, ownOpen
		ownNew, otherNew = otherNew, ownNew
	}
	g, err := netcdf.Open(path)
	if !view("netcdf.Open", g, err) {
		return
	}

	// names
	for range 3 {
		name := pick(r, hostileFileNames)
		p := c.Path(name)
		must(os.WriteFile(p, b, 0o644))
		at := p
		switch r.Intn(4) {
		case 0:
			at = c.Path("link-" + name)
			os.Remove(at)
			must(os.Symlink(name, at))
		case 1:
			cwd, err := os.Getwd()
			must(err)
			abs, err := filepath.Abs(p)
			must(err)
			at, err = filepath.Rel(cwd, abs)
			must(err)
		case 2:
			d := c.Path("dir.nc")
			must(os.MkdirAll(d, 0o755))
			at = d + "/../" + name
		}
		g, err := netcdf.Open(at)
		if !view(fmt.Sprintf("netcdf.Open(%q)", at[len(at)-len(name):]), g, err) {
			return
		}
		g, err = ownOpen(at)
		if !view("own Open", g, err) {
			return
		}
		g, err = otherOpen(at)
		if !refused("the other format's Open", g, err) {
			return
		}
		c.Count("misnamed", 2)
		// as a file that was opened before
		for i, f := range []func(api.ReadSeekerCloser) (api.Group, error){netcdf.New, ownNew} {
			file, err := os.Open(at)
			must(err)
			file.Seek(r.Int63n(int64(len(b)+1)), 0)
			g, err := f(file)
			c.Count("moved_readers", 1)
			if !view(fmt.Sprintf("New %d of an *os.File", i), g, err) {
				return
			}
		}
		os.Remove(p)
		os.Remove(at)
	}

	// readers
	for i := range 4 {
		for j, f := range []func(api.ReadSeekerCloser) (api.Group, error){netcdf.New, ownNew, otherNew} {
			m := newFio(b)
			m.pos = pick(r, []int64{0, 1, 4, 8, int64(len(b) / 2), int64(len(b) - 1), int64(len(b)), int64(len(b) + 10)})
			if i == 3 {
				m.short = rand.New(rand.NewSource(r.Int63()))
			}
			if m.pos != 0 {
				c.Count("moved_readers", 1)
			}
			g, err := f(m)
			what := fmt.Sprintf("New %d of a reader", j)
			if j == 2 {
				if !refused(what+" of the other format", g, err) {
					return
				}
				continue
			}
			if !view(what, g, err) {
				return
			}
		}
	}

	// near misses and other contents
	nothing := func(what string, x []byte) bool {
		p := c.Path("bad.nc")
		must(os.WriteFile(p, x, 0o644))
		for i, f := range []func(string) (api.Group, error){netcdf.Open, cdf.Open, hdf5.Open} {
			g, err := f(p)
			if !refused(fmt.Sprintf("%s: Open %d", what, i), g, err) {
				return false
			}
		}
		for i, f := range []func(api.ReadSeekerCloser) (api.Group, error){netcdf.New, cdf.New, hdf5.New} {
			g, err := f(newFio(x))
			if !refused(fmt.Sprintf("%s: New %d", what, i), g, err) {
				return false
			}
		}
		return true
	}
	with := func(at int, v byte) []byte {
		x := append([]byte{}, b...)
		x[at] = v
		return x
	}
	nsig := 3
	if h5 {
		nsig = 8
	}
	for range 3 {
		at := r.Intn(nsig)
		v := b[at] ^ byte(1<<r.Intn(8))
		if r.Intn(2) == 0 {
			v = b[at] ^ byte(1+r.Intn(255))
		}
		if !nothing(fmt.Sprintf("signature byte %d", at), with(at, v)) {
			return
		}
	}
	// versions there are none of
	var v byte
	if h5 {
		v = byte(4 + r.Intn(252))
	} else {
		for v = byte(r.Intn(256)); v == 1 || v == 2 || v == 5; v = byte(r.Intn(256)) {
		}
		if r.Intn(2) == 0 {
			v = pick(r, []byte{0, 3, 4, 6, 0x81, 0x82, 0x85, '1', '2', '5'})
		}
	}
	if !nothing("version", with(map[bool]int{true: 8, false: 3}[h5], v)) {
		return
	}
	if !nothing("too short", b[:r.Intn(nsig+1)]) || !nothing("shifted", append([]byte{pick(r, []byte{0, 'C', 0x89, ' ', '\n'})}, b...)) ||
		!nothing("without its first byte", b[1:]) {
		return
	}
	other := pick(r, []string{"", "C", "\x89", "CD", "CDF", "cdf\x01", "CDF", "\x89HDF", "\x89PNG\r\n\x1a\n", "\x89HDF\r\n\x1a\n", "\x89HDF\n\x1a\n\n", "\x0e\x03\x13\x01", "GRIB", "netcdf x {\n}\n", "PK\x03\x04", "HDF", "\xef\xbb\xbfCDF\x01"})
	if !nothing("foreign", []byte(other)) || !nothing("foreign, long", append([]byte(other), make([]byte, 4000)...)) {
		return
	}
	g, err = netcdf.Open(c.Dir)
	refused("a directory", g, err)
	for i, f := range []func(string) (api.Group, error){netcdf.Open, cdf.Open, hdf5.Open} {
		g, err = f(c.Path("missing.nc"))
		refused(fmt.Sprintf("a missing file: Open %d", i), g, err)
		g, err = f(c.Path("missing") + "/x.nc")
		refused(fmt.Sprintf("a missing directory: Open %d", i), g, err)
		g, err = f("")
		refused(fmt.Sprintf("no name: Open %d", i), g, err)
		if _, err := os.Stat(c.Path("missing.nc")); err == nil {
			c.Viol("created", "opening a missing file created it")
		}
	}

	// writers
	for _, kind := range []netcdf.FileKind{netcdf.KindCDF, netcdf.KindHDF5, 7, -1} {
		p := c.Path(pick(r, hostileFileNames))
		os.Remove(p)
		w, err := netcdf.OpenWriter(p, kind)
		c.Eval()
		c.Count("writers", 1)
		if kind != netcdf.KindCDF && kind != netcdf.KindHDF5 {
			if err == nil || w != nil {
				c.Viol("kind", "writer of kind %d: %v, error %v", kind, w, err)
			}
			if _, err := os.Stat(p); err == nil {
				c.Viol("created", "a writer of kind %d created a file", kind)
			}
			continue
		}
		if err != nil {
			c.Viol("writer", "%v", err)
			continue
		}
		var st syscall.Stat_t
		want := []int32{r.Int31(), 5}
		must(w.AddVar("v", api.Variable{Values: want, Dimensions: []string{"d"}}))
		if err := w.Close(); err != nil {
			c.Viol("writer", "%v", err)
			continue
		}
		must(syscall.Stat(p, &st))
		good, bad := cdf.Open, hdf5.Open
		if kind == netcdf.KindHDF5 {
			good, bad = bad, good
		}
		g, err := bad(p)
		refused("written by the other writer", g, err)
		for _, f := range []func(string) (api.Group, error){good, netcdf.Open} {
			g, err := f(p)
			c.Eval()
			if err != nil {
				c.Viol("writer", "kind %d: %v", kind, err)
				continue
			}
			v, err := g.GetVariable("v")
			if err != nil || canon(v.Values) != canon(want) {
				c.Viol("writer", "kind %d: %v %v", kind, v, err)
			}
			g.Close()
		}
		os.Remove(p)
	}
}
