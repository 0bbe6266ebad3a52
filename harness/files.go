package main

// Files to read: a mix of every kind the other checks use.

import (
	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"os"
)

// refFile makes a random reference file (three classic formats or NetCDF-4) and returns the
// reference library's view of it. HDF5 tells which family it is.
func refFile(c *Ctx, o genOpts) (path string, f *File, isH5 bool) {
	path = c.Path("f.nc")
	for try := 0; ; try++ {
		if o.Mode == fmtNC4 {
			o.Groups, o.Storage = true, true
			o.Knobs = try < 5 && chance(c.R, 0.5)
		}
		o.Edit = try < 5 && chance(c.R, 0.5)
		s := genRef(c, path, o)
		err := c.ref.Make(s.lines)
		if err != nil && (o.Knobs || s.edited) {
			c.ref.Close() // it may still have the file open
			os.Remove(path)
			continue
		}
		must(err)
		f, err := c.ref.Dump(path)
		if err != nil && (o.Partial || o.UserTypes || o.Knobs || s.edited) && try < 6 {
			c.ref.Close()
			os.Remove(path)
			continue // the reference library cannot always read what it left half written
		}
		must(err)
		if refBroken(s, f.Root) && try < 5 {
			continue
		}
		f.unordered = s.unordered
		return path, f, o.Mode == fmtNC4
	}
}

func modeOf(i int) int {
	return []int{fmtNC4, fmtClassic, fmtNC4, fmt64, fmtNC4, fmtCDF5}[i%6]
}

func mustOpen(c *Ctx, path string) api.Group {
	g, err := netcdf.Open(path)
	if err != nil {
		c.Viol("open", "cannot open %s, which the reference library reads: %v", path, err)
		panic(stopCase{})
	}
	return g
}

// groupAt opens the handle of a group given by its path from the root; an empty path means the root
// itself. The handles on the way are closed.
func groupAt(root api.Group, path []string) (api.Group, error) {
	g := root
	for i, n := range path {
		ng, err := g.GetGroup(n)
		if i > 0 {
			g.Close()
		}
		if err != nil {
			return nil, err
		}
		g = ng
	}
	return g, nil
}

// eachGroup visits every group of the model with its path.
func eachGroup(m *Grp, path []string, f func(m *Grp, path []string)) {
	f(m, path)
	for _, s := range m.Groups {
		eachGroup(s, append(append([]string{}, path...), s.Name), f)
	}
}
