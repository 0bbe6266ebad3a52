package main

import (
	"os"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
)

func init() {
	register(&Prop{ID: "N01", Level: "exploration",
		Rule:  "random writer programs over the CDF writer (all types, ranks 0-32, string arrays, named, partly named and unnamed dimensions, attributes of every type, v5 and classic) read back; one evaluation per file; distinct by structure",
		Cases: func(t string) int { return tierN(t, 4000, 60000) },
		Run:   runN01, Min: map[string]int64{"variables": 5000, "attributes": 5000}})
	register(&Prop{ID: "N04", Level: "exploration",
		Rule:  "the files of random CDF writer programs decoded by the reference C library and by a strict decoder written from the format specification; one evaluation per decoder and file",
		Cases: func(t string) int { return tierN(t, 7000, 100000) },
		Run:   runN04, Min: map[string]int64{"reference_dumps": 3000, "spec_decodes": 3000}})
}

func cdfProg(c *Ctx) *wprog {
	mv, me := 6, 400
	if c.Case%20 == 0 {
		mv, me = 30, 4000
	}
	if c.Case%50 == 1 {
		mv, me = 3, 60000
	}
	return genCDFProg(c.R, mv, me)
}

func (p *wprog) listing() string {
	var l []string
	for _, op := range p.ops {
		l = append(l, op.String())
	}
	return strings.Join(l, "\n")
}

func runN01(c *Ctx) {
	p := cdfProg(c)
	path := c.Path("w.nc")
	if err := p.run(c, path, nil); err != nil {
		c.Viol("close", "write failed: %v\n%s", err, p.listing())
		return
	}
	c.Sample("%s", p.listing())
	c.Distinct(shapeKey(p.root))
	g, err := netcdf.Open(path)
	if err != nil {
		c.Viol("open", "cannot open what was written: %v\n%s", err, p.listing())
		return
	}
	defer g.Close()
	c.Eval()
	cmpGroup(c, "", g, p.root, cmpOpts{order: true})
	if d := g.ListDimensions(); !sameStrings(d, dimNames(p.root)) {
		c.Viol("dims-order", "dimensions %q, want %q", d, dimNames(p.root))
	}
}

func dimNames(g *Grp) (out []string) {
	for _, d := range g.Dims {
		out = append(out, d.Name)
	}
	return
}

func runN04(c *Ctx) {
	p := cdfProg(c)
	path := c.Path("w.nc")
	if err := p.run(c, path, nil); err != nil {
		c.Viol("close", "write failed: %v\n%s", err, p.listing())
		return
	}
	c.Sample("%s", p.listing())
	c.Distinct(shapeKey(p.root))
	b, err := os.ReadFile(path)
	must(err)
	c.Eval()
	c.Count("spec_decodes", 1)
	c.Count("bytes", int64(len(b)))
	if f, err := specCDF(b); err != nil {
		c.Viol("spec", "not a valid classic file: %v\n%s", err, p.listing())
	} else if err := sameFile(f.Root, p.root, "/", true); err != nil {
		c.Viol("spec-content", "the specification's decoder sees another content: %v\n%s", err, p.listing())
	}
	c.Eval()
	c.Count("reference_dumps", 1)
	if f, err := c.ref.Dump(path); err != nil {
		c.Viol("ref", "the reference library cannot read it: %v\n%s", err, p.listing())
	} else if err := sameFile(f.Root, p.root, "/", true); err != nil {
		c.Viol("ref-content", "the reference library sees another content: %v\n%s", err, p.listing())
	}
}
