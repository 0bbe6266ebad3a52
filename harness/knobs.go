package main

import (
	"fmt"
	"math/rand"
)

// genKnobs chooses how the reference library stores what it writes (see ref/shim.c): the versions
// of the objects, old and new groups, compact and dense links and attributes, layouts and
// allocation. What the files contain is not affected.
func genKnobs(r *rand.Rand) (out []string, ordered bool) {
	ordered = true
	knob := func(p float64, name string, a, b int) {
		if chance(r, p) {
			out = append(out, fmt.Sprintf("knob %s %d %d", name, a, b))
		}
	}
	lo := 1
	if chance(r, 0.6) {
		lo = 0
	}
	knob(1, "libver", lo, pick(r, []int{1, 2}))
	if chance(r, 0.4) {
		knob(1, "linkorder", 0, 0)
		ordered = false
	}
	if chance(r, 0.3) {
		knob(1, "attrorder", 0, 0)
		ordered = false
	}
	m := r.Intn(6)
	knob(0.4, "linkphase", m, r.Intn(m+1))
	m = r.Intn(6)
	knob(0.4, "attrphase", m, r.Intn(m+1))
	m = r.Intn(6)
	knob(0.3, "dsattrphase", m, r.Intn(m+1))
	knob(0.2, "estlink", r.Intn(300), 1+r.Intn(40))
	knob(0.2, "heaphint", 1+r.Intn(2000), 0)
	if lo == 0 { // otherwise they are in a superblock extension
		knob(0.4, "symk", pick(r, []int{1, 2, 3, 5, 16, 30}), 0)
		knob(0.4, "istorek", pick(r, []int{1, 2, 3, 8, 32, 100}), 0)
	}
	knob(0.5, "compact", pick(r, []int{64, 4000, 60000}), 0)
	knob(0.3, "alloc", 1+r.Intn(3), 0)
	knob(0.3, "times", r.Intn(2), 0)
	knob(0.3, "skipfilter", 1+r.Intn(4), 1+r.Intn(3))
	knob(0.2, "align", 1, pick(r, []int{8, 64, 512, 4096}))
	knob(0.2, "metablock", pick(r, []int{1, 100, 8192, 1 << 20}), 0)
	return out, ordered
}
