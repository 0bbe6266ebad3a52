package main

// N18: data that was never written reads as the fill value.

func init() {
	register(&Prop{ID: "N18", Level: "exploration",
		Rule:  "reference files of every format whose variables are written in part (random hyperslabs, none at all, fewer records than other variables), over types, fill declarations, chunkings and filters; every value compared with the reference library's; one evaluation per file; distinct by structure and format",
		Cases: func(t string) int { return tierN(t, 2800, 24000) },
		Run:   runN18, Min: map[string]int64{"variables": 4000, "unwritten_elements": 100000, "partly_written_variables": 1000, "unwritten_variables": 700}})
}

func runN18(c *Ctx) {
	o := genOpts{Mode: modeOf(c.Case), Records: true, FillDecl: true, FillAny: c.Case%3 == 0, UserTypes: c.Case%4 < 2, Partial: true}
	path, f, h5 := refFile(c, o)
	c.Eval()
	c.Distinct(shapeKey(f.Root))
	c.Sample("format %d: %s", f.Format, shapeKey(f.Root))
	g := mustOpen(c, path)
	defer g.Close()
	cmpGroup(c, "", g, f.Root, cmpOpts{hdf5: h5, order: !f.unordered})
}
