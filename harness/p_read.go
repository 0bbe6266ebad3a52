package main

import (
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
)

func init() {
	register(&Prop{ID: "N06", Level: "exploration",
		Rule:  "random classic/64-bit-offset/CDF-5 files made by libnetcdf (mixed record and fixed variables, all types, ranks 0-5, attributes); one evaluation per file; non-trivial when the file has a variable; distinct by structure and format",
		Cases: func(t string) int { return tierN(t, 6000, 60000) },
		Run:   runN06, Min: map[string]int64{"variables": 1000, "record_variables": 200, "edits": 1000, "edit_padding": 200}})
	register(&Prop{ID: "N07", Level: "exploration",
		Rule:  "random NetCDF-4 files made by libnetcdf over storage configurations; one evaluation per file; distinct by structure",
		Cases: func(t string) int { return tierN(t, 2600, 24000) },
		Run:   runN07, Min: map[string]int64{"variables": 1000, "multi_dim_coordinates": 50, "non_coordinates": 50, "classic_model_files": 20, "edits": 300, "edit_unlinked": 300}})
}

func tierN(t string, q, th int) int {
	if t == "thorough" {
		return th
	}
	return q
}

func runN06(c *Ctx) {
	mode := []int{fmtClassic, fmt64, fmtCDF5}[c.Case%3]
	p := c.Path("f.nc")
	s := genRef(c, p, genOpts{Mode: mode, Records: true, FillDecl: true, Edit: true})
	err := c.ref.Make(s.lines)
	var f *File
	if err == nil {
		f, err = c.ref.Dump(p)
	}
	if err != nil && s.edited {
		c.Count("skipped_reference_refused", 1)
		c.ref.Close()
		return
	}
	must(err)
	g, err := netcdf.Open(p)
	if err != nil {
		c.Viol("open", "cannot open: %v\n%s", err, strings.Join(s.lines, "\n"))
		return
	}
	defer g.Close()
	c.Eval()
	if len(f.Root.Vars) > 0 {
		c.Distinct(shapeKey(f.Root))
	}
	for _, v := range f.Root.Vars {
		if len(v.DimIDs) > 0 && f.Root.Dims[v.DimIDs[0]].Unlim {
			c.Count("record_variables", 1)
		}
	}
	c.Sample("format %d: %s", f.Format, shapeKey(f.Root))
	cmpGroup(c, "", g, f.Root, cmpOpts{order: true})
}

func runN07(c *Ctx) {
	if c.Case%12 == 5 {
		runH5Strings(c)
		return
	}
	p := c.Path("f.nc")
	many := 0
	if c.Case%30 == 7 {
		many = 1 + c.Case/30%3
	}
	s := genRef(c, p, genOpts{Mode: fmtNC4, Records: true, FillDecl: true, Groups: true, Storage: true, UserTypes: c.Case%2 == 0, Many: many, Knobs: c.Case%5 > 1, Edit: true})
	err := c.ref.Make(s.lines)
	var f *File
	if err == nil {
		f, err = c.ref.Dump(p)
	}
	if err != nil && (c.Case%5 > 1 || s.edited) {
		c.Count("skipped_reference_refused", 1) // some combinations are too much for it
		return
	}
	must(err)
	if refBroken(s, f.Root) {
		c.Count("skipped_reference_lost_data", 1)
		return
	}
	g, err := netcdf.Open(p)
	if err != nil {
		c.Viol("open", "cannot open: %v\n%s", err, strings.Join(s.lines, "\n"))
		return
	}
	defer g.Close()
	c.Eval()
	c.Distinct(shapeKey(f.Root))
	c.Sample("format %d: %s", f.Format, shapeKey(f.Root))
	cmpGroup(c, "", g, f.Root, cmpOpts{hdf5: true, order: !s.unordered})
}

// refBroken recognises files the reference library itself damaged: libhdf5 1.10 drops or overwrites
// heap objects of variable-length values nested in array fields, and then reads them back as zeros.
func refBroken(s *script, g *Grp) bool {
	for _, v := range g.Vars {
		if nestedVlenArray(v.T) && string(s.written[v.Name]) != string(v.Data) {
			return true
		}
	}
	for _, sg := range g.Groups {
		if refBroken(s, sg) {
			return true
		}
	}
	return false
}
