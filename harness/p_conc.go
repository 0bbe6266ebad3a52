package main

// N11: goroutines reading at the same time see what a single reader sees. Everything runs under the
// race detector; what each call returned is logged and checked against a sequential run afterwards.

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

func init() {
	register(&Prop{ID: "N11", Level: "exploration",
		Rule:  "2-8 goroutines under the race detector, reading (a) through their own handles of the same and of different files, by path and by reader, and (b) different variables through separate groups of one file, opened before or by the goroutines, with the reader giving way between seek and read, the root closed early, and other goroutines opening, failing to open, writing and closing other files; every logged result compared with a sequential run, the file closed once at the end; one evaluation per logged call; distinct by order of the call events of a round",
		Cases: func(t string) int { return tierN(t, 70, 2500) },
		Run:   runN11, Min: map[string]int64{"calls_own_handles": 5000, "calls_shared_file": 8000, "overlapping_calls": 5000, "other_handles": 500, "rounds": 400}})
}

type concEvent struct {
	op         rdOp
	res        string
	start, end int64
	busy       int64 // calls under way when it started
}

type concLog struct {
	seq, busy atomic.Int64
}

// call logs a call of one goroutine.
func (l *concLog) call(env *rdEnv, op rdOp) concEvent {
	e := concEvent{op: op, busy: l.busy.Add(1), start: l.seq.Add(1)}
	e.res, _ = env.exec(op)
	e.end = l.seq.Add(1)
	l.busy.Add(-1)
	return e
}

// varOps are calls that concern one variable.
func varOps(r *rand.Rand, path []string, v *Var, n int) []rdOp {
	var out []rdOp
	for range n {
		o := rdOp{path: path, name: v.Name, via: pick(r, []int{0, 2})}
		o.kind = pick(r, []string{"getvar", "desc", "values", "slice", "slicemd"})
		o.b, o.e = randBox(r, v.Shape)
		if len(v.Shape) == 0 && o.kind == "slice" {
			o.b, o.e = []int64{0}, []int64{1}
		}
		out = append(out, o)
	}
	return out
}

// groupOps are calls that concern a group.
func groupOps(r *rand.Rand, path []string, m *Grp, n int) []rdOp {
	var out []rdOp
	for range n {
		o := rdOp{path: path, kind: pick(r, []string{"listvars", "listgroups", "listdims", "listtypes", "atts", "getdim", "gettype", "getgotype"})}
		switch {
		case o.kind == "getdim" && len(m.Dims) > 0:
			o.name = pick(r, m.Dims).Name
		case len(m.Types) > 0:
			o.name = pick(r, m.Types).Name
		}
		out = append(out, o)
	}
	return out
}

// wait waits for the goroutines of a round, which take a second at most unless they wait for each other.
func (l *concLog) wait(c *Ctx, wg *sync.WaitGroup) {
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(150 * time.Second):
		b := make([]byte, 1<<16)
		c.Viol("deadlock", "goroutines do not end: %s\n%s", c.note, b[:runtime.Stack(b, true)])
		panic(stopCase{})
	}
}

// bystander opens, writes and closes other files until told to stop.
func bystander(r *rand.Rand, dir string, id int, paths []string, stop *atomic.Bool, progs []*wprog) (n int64, err error) {
	c := &Ctx{R: r, Dir: dir} // of its own
	junk := filepath.Join(dir, fmt.Sprintf("junk%d", id))
	if err := os.WriteFile(junk, []byte("\x89HDF\r\n\x1a\n\x02\x08\x08"), 0o600); err != nil {
		return 0, err
	}
	for !stop.Load() && n < 200 {
		n++
		switch r.Intn(4) {
		case 0:
			if g, err := netcdf.Open(junk); err == nil {
				g.Close()
				return n, fmt.Errorf("a broken file opens")
			}
		case 1:
			w := filepath.Join(dir, fmt.Sprintf("w%d", id))
			if err := pick(r, progs).run(c, w, nil); err != nil || len(c.viols) > 0 {
				return n, fmt.Errorf("writing: %v %v", err, c.viols)
			}
		default:
			g, err := netcdf.Open(pick(r, paths))
			if err != nil {
				return n, err
			}
			if sub := g.ListSubgroups(); len(sub) > 0 && r.Intn(2) == 0 {
				s, err := g.GetGroup(pick(r, sub))
				if err != nil {
					return n, err
				}
				s.Close()
			}
			g.Close()
		}
		time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
	}
	return n, nil
}

func runN11(c *Ctx) {
	r := c.R
	type fileCase struct {
		path string
		data []byte
		f    *File
		h5   bool
	}
	var files []fileCase
	for i := range 1 + r.Intn(2) {
		mode := modeOf(c.Case + i)
		o := genOpts{Mode: mode, Records: true, FillDecl: true, UserTypes: c.Case%4 < 2, MaxElems: 200, MaxVars: 6, Partial: c.Case%5 == 0, Groups: mode == fmtNC4, Storage: mode == fmtNC4}
		var fc fileCase
		fc.path, fc.f, fc.h5 = refFile(c, o)
		b, err := os.ReadFile(fc.path)
		must(err)
		fc.data = b
		if i == 0 && len(files) == 0 {
			np := c.Path("first.nc")
			must(os.WriteFile(np, b, 0o600))
			fc.path = np
		}
		files = append(files, fc)
	}
	var paths []string
	for _, f := range files {
		paths = append(paths, f.path)
	}
	progs := []*wprog{genH5Prog(r, 3, 30), genCDFProg(r, 3, 30)}
	memo := make([]map[string]string, len(files))
	want := func(i int, op rdOp) string {
		if memo[i] == nil {
			memo[i] = map[string]string{}
		}
		k := op.key()
		res, has := memo[i][k]
		if !has {
			res = freshResult(c, files[i].path, op)
			memo[i][k] = res
		}
		return res
	}
	rounds := 8
	if c.Tier == "thorough" {
		rounds = 16
	}
	oneRound := func(round int) {
		shared := round%3 != 2
		ng := 2 + r.Intn(7)
		var l concLog
		logs := make([][]concEvent, ng)
		errs := make([]error, ng+2)
		which := make([]int, ng)
		var wg, others sync.WaitGroup
		var stop atomic.Bool
		var nother atomic.Int64
		start := make(chan bool)
		c.note = fmt.Sprintf("round %d, shared file: %v, %d goroutines", round, shared, ng)
		c.Count("rounds", 1)
		var sharedFio *fio
		if shared {
			k := r.Intn(len(files))
			fc := files[k]
			// one variable or group listing per goroutine
			type target struct {
				path []string
				ops  []rdOp
			}
			var ts []target
			eachGroup(fc.f.Root, nil, func(m *Grp, path []string) {
				for i := range m.Vars {
					ts = append(ts, target{path, varOps(r, path, &m.Vars[i], 4+r.Intn(6))})
				}
				if r.Intn(2) == 0 {
					ts = append(ts, target{path, groupOps(r, path, m, 4+r.Intn(4))})
				}
			})
			r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
			if len(ts) < ng {
				ng = len(ts)
			}
			if ng == 0 {
				return
			}
			var root api.Group
			var err error
			if r.Intn(3) == 0 {
				root = mustOpen(c, fc.path)
			} else {
				sharedFio = newFio(fc.data)
				sharedFio.yield = r.Intn(2) == 0
				root, err = openAny(sharedFio, fc.h5, r.Intn(2))
				if err != nil {
					c.Viol("open", "an intact file does not open: %v", err)
					return
				}
			}
			early := r.Intn(2) == 0
			for i := range ng {
				which[i] = k
				t := ts[i]
				abs := "/" + strings.Join(t.path, "/")
				var g api.Group
				if early || r.Intn(2) == 0 {
					g, err = root.GetGroup(abs)
					if err != nil {
						c.Viol("group", "GetGroup(%q): %v", abs, err)
						return
					}
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if g == nil {
						if g, errs[i] = root.GetGroup(abs); errs[i] != nil {
							return
						}
					}
					// the calls are made on the group itself
					env := newEnv(c, g)
					env.groups[fmt.Sprintf("%q/%d", []string(nil), 2)] = g
					for _, op := range t.ops {
						full := op
						op.path = nil
						ev := l.call(env, op)
						ev.op = full
						logs[i] = append(logs[i], ev)
					}
					g.Close()
				}()
			}
			if early {
				root.Close()
			} else {
				defer root.Close()
			}
			if sharedFio != nil {
				rf := sharedFio
				ro := root
				defer func() {
					ro.Close()
					if rf.closes != 1 || rf.afterEnd != 0 {
						c.Viol("closes", "%s: the file was closed %d times and used %d times after that", c.note, rf.closes, rf.afterEnd)
					}
				}()
			}
		} else {
			for i := range ng {
				k := r.Intn(len(files))
				which[i] = k
				fc := files[k]
				ops := genOps(r, fc.f, 8+r.Intn(8))
				for j := range ops {
					ops[j].via = 0
				}
				via := r.Intn(3)
				var file *fio
				if via < 2 {
					file = newFio(fc.data)
					file.yield = r.Intn(2) == 0
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					var g api.Group
					if via == 2 {
						g, errs[i] = netcdf.Open(fc.path)
					} else {
						g, errs[i] = openAny(file, fc.h5, via)
					}
					if errs[i] != nil {
						return
					}
					env := newEnv(c, g)
					for _, op := range ops {
						logs[i] = append(logs[i], l.call(env, op))
					}
					env.closeGroups()
					g.Close()
				}()
			}
		}
		for j := range 2 {
			br := rand.New(rand.NewSource(r.Int63()))
			others.Add(1)
			go func() {
				defer others.Done()
				<-start
				n, err := bystander(br, c.Dir, j, paths, &stop, progs[j:j+1])
				nother.Add(n)
				errs[len(errs)-1-j] = err
			}()
		}
		close(start)
		l.wait(c, &wg)
		stop.Store(true)
		l.wait(c, &others)
		c.Count("other_handles", nother.Load())
		for i, err := range errs {
			if err != nil {
				c.Viol("error", "%s: goroutine %d: %v", c.note, i, err)
			}
		}
		order := make(map[int64]int)
		for i, evs := range logs {
			for _, e := range evs {
				c.Eval()
				order[e.start], order[e.end] = i*2, i*2+1
				if shared {
					c.Count("calls_shared_file", 1)
				} else {
					c.Count("calls_own_handles", 1)
				}
				if e.busy > 1 {
					c.Count("overlapping_calls", 1)
				}
				if w := want(which[i], e.op); e.res != w {
					c.Viol("differs:"+e.op.kind, "%s: goroutine %d %s returned\n %s\nalone it returns\n %s", c.note, i, e.op.key(), clip(e.res), clip(w))
				}
			}
		}
		h := fnv.New64()
		for s := int64(1); s <= l.seq.Load(); s++ {
			fmt.Fprint(h, order[s], " ")
		}
		c.Distinct(fmt.Sprint(h.Sum64()))
		c.Sample("%s: %d events", c.note, l.seq.Load())
	}
	for i := range rounds {
		oneRound(i)
	}
}
