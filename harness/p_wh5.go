package main

import (
	"os/exec"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
)

func init() {
	register(&Prop{ID: "N02", Level: "exploration",
		Rule:  "random writer programs over the HDF5 writer (all types, ranks 0-32, strings, coordinate variables, nested groups sharing dimensions, attributes of every type) read back; one evaluation per file; distinct by structure",
		Cases: func(t string) int { return tierN(t, 3500, 50000) },
		Run:   runN02, Min: map[string]int64{"variables": 3000, "attributes": 3000, "groups": 500}})
	register(&Prop{ID: "N05", Level: "exploration",
		Rule:  "the files of random HDF5 writer programs read by the reference NetCDF and HDF5 C libraries; one evaluation per file and library",
		Cases: func(t string) int { return tierN(t, 3600, 50000) },
		Run:   runN05, Min: map[string]int64{"reference_dumps": 1500}})
}

func h5Prog(c *Ctx) *wprog {
	mv, me := 6, 300
	if c.Case%20 == 0 {
		mv, me = 40, 2000
	}
	if c.Case%50 == 1 {
		mv, me = 3, 60000
	}
	many := 0
	if c.Case%600 == 41 {
		// the objects of a heap are numbered with 16 bits
		mv, many = 3, pick(c.R, []int{65534, 65535, 65536, 70000, 131069, 131072})
	}
	return genH5ProgStrings(c.R, mv, me, many)
}

func runN02(c *Ctx) {
	p := h5Prog(c)
	path := c.Path("w.nc")
	if err := p.run(c, path, nil); err != nil {
		c.Viol("close", "write failed: %v\n%s", err, p.listing())
		return
	}
	c.Sample("%s", p.listing())
	c.Distinct(shapeKey(p.root))
	g, err := netcdf.Open(path)
	if err != nil {
		c.Viol("open", "cannot open what was written: %v\n%s", err, p.listing())
		return
	}
	defer g.Close()
	c.Eval()
	cmpGroup(c, "", g, p.root, cmpOpts{hdf5: true})
}

func runN05(c *Ctx) {
	p := h5Prog(c)
	path := c.Path("w.nc")
	if err := p.run(c, path, nil); err != nil {
		c.Viol("close", "write failed: %v\n%s", err, p.listing())
		return
	}
	c.Sample("%s", p.listing())
	c.Distinct(shapeKey(p.root))
	c.Eval()
	c.Count("reference_dumps", 1)
	if c.Case%8 == 0 {
		// libhdf5 itself must be able to read every object
		out, err := exec.Command("h5dump", "-o", c.Path("h5dump.out"), path).CombinedOutput()
		if _, missing := err.(*exec.Error); missing {
			hfail("h5dump: %v", err)
		}
		c.Count("h5dump_runs", 1)
		if err != nil || strings.Contains(string(out), "error") {
			c.Viol("h5dump", "h5dump fails on it: %v %s\n%s", err, clip(string(out)), p.listing())
			return
		}
	}
	f, err := c.ref.Dump(path)
	if err != nil {
		c.Viol("ref", "the reference library cannot read it: %v\n%s", err, p.listing())
		return
	}
	trimChars(f.Root)
	trimChars(p.root)
	if err := sameFile(f.Root, p.root, "/", false); err != nil {
		c.Viol("ref-content", "the reference library sees another content: %v\n%s", err, p.listing())
	}
}
