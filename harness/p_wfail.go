package main

// N13: a write that fails is reported.

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"syscall"

	"github.com/batchatco/go-native-netcdf/netcdf"
)

func init() {
	register(&Prop{ID: "N13", Level: "exploration",
		Rule:  "files of random writer programs of both formats written under a file size limit at every byte (small files) or at boundary and random bytes, to a full device, and with the descriptor made unwritable under the writer; one evaluation per failing write; distinct by format, size and limit",
		Cases: func(t string) int { return tierN(t, 300, 6000) },
		Run:   runN13, Min: map[string]int64{"limited_writes": 10000, "reported": 10000, "unwritable_descriptors": 200, "full_device": 200}})
}

// fdsOf lists the open descriptors of a path.
func fdsOf(path string) []int {
	var out []int
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && l == path {
			n, _ := strconv.Atoi(e.Name())
			out = append(out, n)
		}
	}
	return out
}

func setFsize(n uint64) {
	var lim syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim))
	lim.Cur = n
	if n > lim.Max {
		lim.Cur = lim.Max
	}
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
}

// tryWrite runs the program; the first error any call reports is the result.
func (p *wprog) tryWrite(c *Ctx, path string, before func()) (first, again error) {
	x := p.start(c, path)
	for _, op := range p.ops {
		if err := x.step(op, op.attMap(), op.Dims); err != nil && first == nil {
			first = err
		}
	}
	if before != nil {
		before()
	}
	if err := x.finish(); first == nil {
		first = err
	}
	return first, x.ws[0].Close()
}

func runN13(c *Ctx) {
	signal.Ignore(syscall.SIGXFSZ)
	h5 := c.Case%2 == 1
	mv, me := 3, 60
	if c.Case%6 >= 4 {
		mv, me = 8, 5000
	}
	var p *wprog
	if h5 {
		p = genH5Prog(c.R, mv, me)
	} else {
		p = genCDFProg(c.R, mv, me)
	}
	c.Sample("%s", p.listing())
	path := c.Path("w.nc")
	if err := p.run(c, path, nil); err != nil {
		c.Viol("close", "write failed: %v\n%s", err, p.listing())
		return
	}
	whole, err := os.ReadFile(path)
	must(err)
	S := len(whole)
	var limits []int
	if S <= 1500 && (!h5 || S <= 700 || c.Tier == "thorough") {
		for l := range S {
			limits = append(limits, l)
		}
	} else {
		for l := 4096; l <= S; l += 4096 {
			if len(limits) > 60 {
				break
			}
			limits = append(limits, l-1, l, l+1)
		}
		for i := range 40 {
			limits = append(limits, i, S-1-i, c.R.Intn(S))
		}
	}
	for _, l := range limits {
		if l < 0 || l >= S {
			continue
		}
		c.Eval()
		c.Count("limited_writes", 1)
		c.Distinct(fmt.Sprintf("%v %d %d", h5, S, l))
		c.note = fmt.Sprintf("limit %d of %d", l, S)
		var first, again error
		func() {
			// the limit also holds for whatever else this process writes: nothing, meanwhile
			setFsize(uint64(l))
			defer setFsize(1 << 62)
			first, again = p.tryWrite(c, path, nil)
		}()
		if first == nil {
			c.Viol("unreported", "no error although only %d of %d bytes could be written\n%s", l, S, p.listing())
			return
		}
		c.Count("reported", 1)
		if again == nil {
			c.Viol("forgotten", "closing again reports success although only %d of %d bytes could be written (first: %v)\n%s", l, S, first, p.listing())
			return
		}
	}
	// enough room: complete
	setFsize(uint64(S))
	first, _ := p.tryWrite(c, path, nil)
	setFsize(1 << 62)
	got, err := os.ReadFile(path)
	must(err)
	if first != nil || !bytes.Equal(got, whole) {
		c.Viol("enough", "with room for exactly the file: error %v, %d of %d bytes\n%s", first, len(got), S, p.listing())
	}
	// the descriptor cannot be written anymore
	abs, err := filepath.EvalSymlinks(path)
	must(err)
	ro, err := os.Open("/dev/null")
	must(err)
	defer ro.Close()
	n := 0
	first, again := p.tryWrite(c, path, func() {
		for _, fd := range fdsOf(abs) {
			must(syscall.Dup2(int(ro.Fd()), fd))
			n++
		}
	})
	if n > 0 {
		c.Eval()
		c.Count("unwritable_descriptors", 1)
		if first == nil || again == nil {
			c.Viol("unwritable", "no error although the descriptor could not be written (%v, %v)\n%s", first, again, p.listing())
		}
	}
	// a device that is full
	c.Eval()
	c.Count("full_device", 1)
	if first, again := p.tryWrite(c, "/dev/full", nil); first == nil || again == nil {
		c.Viol("full", "no error although the device was full (%v, %v)\n%s", first, again, p.listing())
	}
	// a path that cannot be created
	for _, k := range []netcdf.FileKind{netcdf.KindCDF, netcdf.KindHDF5} {
		if w, err := netcdf.OpenWriter(c.Path("no/such/dir/x.nc"), k); err == nil || w != nil && err == nil {
			c.Viol("create", "no error for a path that cannot be created")
		}
	}
}
