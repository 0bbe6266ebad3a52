package main

// Supervisor/worker framework: every case runs in a worker process whose death is itself an
// observation, and case lists depend only on (property, seed, tier).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one check.
type Prop struct {
	ID       string
	Level    string
	Rule     string
	Assume   []string
	Cases    func(tier string) int
	Run      func(c *Ctx)
	Workers  int   // 0: default
	MemLimit int64 // address-space limit for workers (plain binary only)
	// CrashSig turns the output of a dead worker into a signature.
	Plain   bool             // run in the binary without the race detector
	CPUKill int              // RLIMIT_CPU-like budget per case in seconds of CPU; exceeding it is a violation (0: off)
	Min     map[string]int64 // counters that must reach at least this much, otherwise the run is inconclusive
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Viol is one refutation.
type Viol struct {
	Sig string `json:"sig"`
	Msg string `json:"msg"`
}

// Ctx is what a case sees.
type Ctx struct {
	P        *Prop
	Tier     string
	Seed     int64
	Case     int
	R        *rand.Rand
	Dir      string
	viols    []Viol
	counts   map[string]int64
	distinct map[uint64]bool
	samples  []string
	evals    int64
	ref      *Ref
	note     string
}

type report struct {
	K        string           `json:"k"` // B, E, X
	Case     int              `json:"case"`
	Viols    []Viol           `json:"viols,omitempty"`
	Counts   map[string]int64 `json:"counts,omitempty"`
	Distinct []uint64         `json:"distinct,omitempty"`
	Samples  []string         `json:"samples,omitempty"`
	Evals    int64            `json:"evals,omitempty"`
	Err      string           `json:"err,omitempty"`
}

func (c *Ctx) Viol(sig, format string, a ...any) {
	if len(c.viols) < 20 {
		m := fmt.Sprintf(format, a...)
		if len(m) > 4000 {
			m = m[:4000] + "..."
		}
		c.viols = append(c.viols, Viol{sig, m})
	}
}
func (c *Ctx) Count(name string, n int64) { c.counts[name] += n }
func (c *Ctx) Eval()                      { c.evals++ }
func (c *Ctx) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.distinct[h.Sum64()] = true
}
func (c *Ctx) Sample(format string, a ...any) {
	if len(c.samples) < 2 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Path returns a scratch path private to the case.
func (c *Ctx) Path(name string) string { return filepath.Join(c.Dir, name) }

func caseSeed(prop string, seed int64, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, i)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// harnessErr marks problems of the machinery itself.
type harnessErr struct{ msg string }

func hfail(format string, a ...any) { panic(harnessErr{fmt.Sprintf(format, a...)}) }
func must(err error) {
	if err != nil {
		hfail("%v", err)
	}
}

// stopCase ends a case that has reported what it found.
type stopCase struct{}

var progressFd *os.File
var curCtx *Ctx

func runCase(p *Prop, tier string, seed int64, i int, ref *Ref, scratch string) (rep report) {
	rep = report{K: "E", Case: i}
	dir := filepath.Join(scratch, fmt.Sprintf("c%d", i))
	os.MkdirAll(dir, 0o755)
	if os.Getenv("VERIF_KEEP") == "" {
		defer os.RemoveAll(dir)
	} else {
		dir = filepath.Join(os.Getenv("VERIF_KEEP"), fmt.Sprintf("%s-c%d", p.ID, i))
		os.MkdirAll(dir, 0o755)
	}
	c := &Ctx{P: p, Tier: tier, Seed: seed, Case: i, R: rand.New(rand.NewSource(caseSeed(p.ID, seed, i))),
		Dir: dir, counts: map[string]int64{}, distinct: map[uint64]bool{}, ref: ref}
	curCtx = c
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCase); ok {
					return
				}
				if he, ok := r.(harnessErr); ok {
					rep.Err = he.msg + "\n" + string(debug.Stack())
					return
				}
				st := string(debug.Stack())
				if sig, ok := panicSite(st); ok {
					c.Viol("panic:"+sig, "panic reached the caller: %v %s\n%s", r, c.note, trimStack(st))
				} else {
					rep.Err = fmt.Sprintf("harness panic: %v\n%s", r, st)
				}
			}
		}()
		p.Run(c)
	}()
	rep.Viols = c.viols
	rep.Counts = c.counts
	for k := range c.distinct {
		rep.Distinct = append(rep.Distinct, k)
	}
	rep.Samples = c.samples
	rep.Evals = c.evals
	return rep
}

// panicSite finds the innermost frame of the library below the panic.
func panicSite(st string) (string, bool) {
	lines := strings.Split(st, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.Contains(l, "go-native-netcdf/") && i+1 < len(lines) && strings.HasPrefix(lines[i+1], "\t") {
			f := l
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			f = f[strings.LastIndex(f, "go-native-netcdf/")+len("go-native-netcdf/"):]
			return f, true
		}
		if strings.HasPrefix(l, "main.") {
			return "", false // harness frame before any library frame
		}
	}
	return "", false
}

func trimStack(st string) string {
	i := strings.Index(st, "panic(")
	if i > 0 {
		st = st[i:]
	}
	if len(st) > 1800 {
		st = st[:1800]
	}
	return st
}

func workerMain(p *Prop, tier string, seed int64, k, n, start, total int) {
	progress := os.NewFile(3, "progress")
	progressFd = progress
	enc := json.NewEncoder(progress)
	scratch, err := os.MkdirTemp(scratchBase(), "w-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer os.RemoveAll(scratch)
	if p.MemLimit > 0 {
		var lim syscall.Rlimit
		lim.Cur, lim.Max = uint64(p.MemLimit), uint64(p.MemLimit)
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	ref := &Ref{}
	defer ref.Close()
	for i := start; i < total; i++ {
		if i%n != k {
			continue
		}
		enc.Encode(report{K: "B", Case: i})
		rep := runCase(p, tier, seed, i, ref, scratch)
		enc.Encode(rep)
	}
	enc.Encode(report{K: "X"})
}

func scratchBase() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

type finding struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Kind     string `json:"kind"` // "finding" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f []finding
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	return f
}

type caseViol struct {
	Case int
	Viol
}

func supervise(p *Prop, tier string, seed int64, root string, only int) int {
	t0 := time.Now()
	total := p.Cases(tier)
	if f, err := strconv.Atoi(os.Getenv("VERIF_PERCENT")); err == nil { // development aid
		total = max(total*f/100, 1)
	}
	n := p.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	if only >= 0 {
		n = 1
	}
	if n > total {
		n = total
	}
	scratch, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	raceLog := filepath.Join(scratch, "race")
	var mu sync.Mutex
	known := loadFindings(root)
	knownHit := map[string]bool{}
	isKnown := func(sig string) bool {
		for _, f := range known {
			if f.Kind == "finding" && f.Property == p.ID && f.Sig == sig {
				return true
			}
		}
		return false
	}
	var viols []caseViol
	var errs []string
	counts := map[string]int64{}
	distinct := map[uint64]bool{}
	var samples []string
	var evals int64
	done := 0
	merge := func(r report) {
		mu.Lock()
		defer mu.Unlock()
		done++
		for _, v := range r.Viols {
			if isKnown(v.Sig) {
				knownHit[v.Sig] = true
				continue
			}
			viols = append(viols, caseViol{r.Case, v})
		}
		for k, v := range r.Counts {
			counts[k] += v
		}
		for _, d := range r.Distinct {
			distinct[d] = true
		}
		if len(samples) < 6 {
			samples = append(samples, r.Samples...)
		}
		evals += r.Evals
		if r.Err != "" {
			errs = append(errs, fmt.Sprintf("case %d: %s", r.Case, r.Err))
		}
	}
	var wg sync.WaitGroup
	// Enough violations, or one that took very long: the rest of the run would add nothing.
	halt := make(chan struct{})
	var haltOnce sync.Once
	enough := func(now bool) bool {
		mu.Lock()
		defer mu.Unlock()
		if now || len(viols) >= 60 {
			haltOnce.Do(func() { close(halt) })
		}
		select {
		case <-halt:
			return true
		default:
			return false
		}
	}
	for k := range n {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start := 0
			end := total
			kk, nn := k, n
			if only >= 0 {
				start, end, kk, nn = only, only+1, 0, 1
			}
			for start < end {
				if enough(false) {
					return
				}
				next, crash, harness := runWorker(p, tier, seed, kk, nn, start, end, scratch, raceLog, halt, func(r report) {
					merge(r)
					enough(false)
				})
				if harness != "" {
					mu.Lock()
					errs = append(errs, harness)
					mu.Unlock()
					return
				}
				if crash != nil {
					mu.Lock()
					viols = append(viols, *crash)
					done++
					mu.Unlock()
					enough(strings.HasPrefix(crash.Sig, "hang:"))
				}
				if next < 0 {
					return
				}
				start = next
			}
		}()
	}
	wg.Wait()
	// race reports
	races := collectRaces(raceLog)
	for sig, txt := range races {
		viols = append(viols, caseViol{-1, Viol{"race:" + sig, txt}})
	}
	counts["race_reports"] += int64(len(races))
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })

	var fresh []caseViol
	for _, v := range viols {
		if isKnown(v.Sig) { // of a worker that ended
			knownHit[v.Sig] = true
		} else {
			fresh = append(fresh, v)
		}
	}
	for _, f := range known {
		if f.Kind == "finding" && f.Property == p.ID {
			state := "not triggered in this run"
			if knownHit[f.Sig] {
				state = "observed"
			}
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s; %s]\n", p.ID, f.What, f.Sig, state)
		}
	}
	// evidence
	if only < 0 {
		cov := map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"cases":               done,
			"observed":            counts,
		}
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
			"coverage": cov, "assumptions": p.Assume,
			"wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), b, 0o644)
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n",
		p.ID, tier, seed, done, evals, len(distinct), len(fresh), time.Since(t0).Seconds())
	keys := make([]string, 0, len(counts))
	for k := range counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s=%d", k, counts[k])
	}
	fmt.Println()
	if os.Getenv("VERIF_DEBUG") != "" {
		hist := map[string]int{}
		ex := map[string]int{}
		for _, v := range fresh {
			k := v.Sig + " | " + debugClass(v.Msg)
			hist[k]++
			ex[k] = v.Case
		}
		var ks []string
		for k := range hist {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return hist[ks[i]] > hist[ks[j]] })
		for i, k := range ks {
			if i < 60 {
				fmt.Printf("DEBUG %5d case=%d %s\n", hist[k], ex[k], k)
			}
		}
	}
	if len(fresh) > 0 {
		os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		seen := map[string]int{}
		printed := 0
		for _, v := range fresh {
			seen[v.Sig]++
			if seen[v.Sig] > 1 || printed >= 12 {
				continue
			}
			printed++
			rp := filepath.Join(root, "replays", fmt.Sprintf("%s-%d-%d.json", p.ID, seed, v.Case))
			b, _ := json.MarshalIndent(map[string]any{"property": p.ID, "tier": tier, "seed": seed, "case": v.Case, "sig": v.Sig, "msg": v.Msg}, "", " ")
			os.WriteFile(rp, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
			fmt.Printf("  case %d sig=%s\n  %s\n", v.Case, v.Sig, strings.ReplaceAll(v.Msg, "\n", "\n  "))
		}
		fmt.Println("signatures:")
		for s, k := range seen {
			fmt.Printf("  %6d %s\n", k, s)
		}
		return 1
	}
	if len(errs) > 0 {
		for i, e := range errs {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", e)
			}
		}
		fmt.Fprintf(os.Stderr, "inconclusive: %d harness errors\n", len(errs))
		return 2
	}
	if only < 0 && os.Getenv("VERIF_PERCENT") == "" {
		for k, v := range p.Min {
			if counts[k] < v {
				fmt.Fprintf(os.Stderr, "inconclusive: observed %s=%d, need at least %d\n", k, counts[k], v)
				return 2
			}
		}
		if evals == 0 {
			fmt.Fprintln(os.Stderr, "inconclusive: nothing was evaluated")
			return 2
		}
	}
	return 0
}

// debugClass reduces a message to its kind (development aid only).
func debugClass(m string) string {
	if i := strings.IndexByte(m, '\n'); i >= 0 {
		m = m[:i]
	}
	if i := strings.LastIndex(m, "): "); i >= 0 {
		m = m[i+3:]
	}
	var b strings.Builder
	q := false
	for _, r := range m {
		if r == '"' {
			q = !q
			if q {
				b.WriteString("Q")
			}
			continue
		}
		if q {
			continue
		}
		if r >= '0' && r <= '9' {
			continue
		}
		b.WriteRune(r)
	}
	s := b.String()
	if len(s) > 150 {
		s = s[:150]
	}
	return s
}

func cpuTime(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndex(s, ")")+2:]
	f := strings.Fields(s)
	u, _ := strconv.ParseFloat(f[11], 64)
	k, _ := strconv.ParseFloat(f[12], 64)
	return (u + k) / 100
}

// hangAfter is how long a case may take; they take seconds.
const hangAfter = 200 * time.Second

func runWorker(p *Prop, tier string, seed int64, k, n, start, end int, scratch, raceLog string,
	halt <-chan struct{}, merge func(report)) (next int, crash *caseViol, harness string) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return -1, nil, err.Error()
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "--worker", p.ID, tier, strconv.FormatInt(seed, 10), strconv.Itoa(k), strconv.Itoa(n), strconv.Itoa(start), strconv.Itoa(end))
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch, "GORACE=halt_on_error=0 exitcode=0 log_path="+raceLog, "GOTRACEBACK=all")
	errPath := filepath.Join(scratch, fmt.Sprintf("err-%d-%d", k, start))
	ef, err := os.Create(errPath)
	if err != nil {
		return -1, nil, err.Error()
	}
	cmd.Stderr = ef
	cmd.Stdout = ef
	if err := cmd.Start(); err != nil {
		return -1, nil, err.Error()
	}
	pw.Close()
	ef.Close()
	cur := -1
	finished := false
	var mu sync.Mutex
	begin := time.Now()
	beginCPU := 0.0
	var timedOut, cpuOut, halted atomic.Bool
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-halt:
				halted.Store(true)
				cmd.Process.Kill()
				return
			case <-time.After(500 * time.Millisecond):
			}
			mu.Lock()
			c, b, bc := cur, begin, beginCPU
			mu.Unlock()
			if c < 0 {
				continue
			}
			if p.CPUKill > 0 && cpuTime(cmd.Process.Pid)-bc > float64(p.CPUKill) {
				cpuOut.Store(true)
				cmd.Process.Kill()
				return
			}
			if time.Since(b) > hangAfter {
				timedOut.Store(true)
				cmd.Process.Signal(syscall.SIGQUIT) // prints what it is doing
				select {
				case <-stop:
				case <-time.After(20 * time.Second):
					cmd.Process.Kill()
				}
				return
			}
		}
	}()
	dec := json.NewDecoder(bufio.NewReader(pr))
	for {
		var r report
		if err := dec.Decode(&r); err != nil {
			break
		}
		switch r.K {
		case "B":
			mu.Lock()
			cur = r.Case
			begin = time.Now()
			beginCPU = cpuTime(cmd.Process.Pid)
			mu.Unlock()
		case "E":
			merge(r)
			mu.Lock()
			cur = -1
			mu.Unlock()
			next = r.Case + 1
		case "X":
			finished = true
		}
	}
	close(stop)
	werr := cmd.Wait()
	pr.Close()
	if finished || halted.Load() {
		return -1, nil, ""
	}
	eb, _ := os.ReadFile(errPath)
	txt := string(eb)
	if cur < 0 {
		return -1, nil, fmt.Sprintf("worker died outside a case: %v\n%s", werr, tail(txt, 3000))
	}
	if timedOut.Load() {
		sig := crashSig(txt, nil)
		if i := strings.LastIndex(sig, "@"); i >= 0 && i < len(sig)-1 {
			return -1, &caseViol{cur, Viol{"hang:" + sig[i+1:], fmt.Sprintf("still running after %v\n%s", hangAfter, head(txt, 6000))}}, ""
		}
		return cur + 1, nil, fmt.Sprintf("watchdog: case %d still running after %v\n%s", cur, hangAfter, tail(txt, 3000))
	}
	if cpuOut.Load() {
		return cur + 1, &caseViol{cur, Viol{"runaway", fmt.Sprintf("case used more than %d s of CPU\n%s", p.CPUKill, tail(txt, 500))}}, ""
	}
	sig := crashSig(txt, werr)
	if strings.HasPrefix(sig, "harness:") || (p.MemLimit == 0 && werr != nil && werr.Error() == "signal: killed") {
		return cur + 1, nil, fmt.Sprintf("worker died in harness code: %v\n%s", werr, tail(txt, 3000))
	}
	return cur + 1, &caseViol{cur, Viol{"crash:" + sig, fmt.Sprintf("worker process died: %v\n%s", werr, head(fromCrash(txt), 2500))}}, ""
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// crashSig summarises how a worker died: the runtime's message and the first library frame.
// fromCrash leaves out what was logged before a crash.
func fromCrash(txt string) string {
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: out of memory", "runtime: goroutine stack exceeds"} {
		if i := strings.Index("\n"+txt, "\n"+m); i >= 0 {
			return txt[i:]
		}
	}
	return txt
}

func crashSig(txt string, werr error) string {
	msg := ""
	frame := ""
	for _, l := range strings.Split(txt, "\n") {
		if msg == "" && (strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: out of memory") || strings.Contains(l, "goroutine stack exceeds")) {
			msg = l
		}
		if frame == "" && strings.Contains(l, "go-native-netcdf/") && !strings.HasPrefix(l, "\t") && strings.Contains(l, "(") {
			f := l
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			frame = f[strings.LastIndex(f, "go-native-netcdf/")+len("go-native-netcdf/"):]
		}
	}
	if msg == "" {
		if werr != nil {
			msg = werr.Error()
		}
		// os.Exit from a logger
	} else if frame == "" {
		return "harness:" + msg
	}
	if strings.Contains(msg, "out of memory") {
		msg = "out of memory"
	}
	if len(msg) > 60 {
		msg = msg[:60]
	}
	return msg + "@" + frame
}

// collectRaces parses the race detector's logs and returns reports that involve the library.
func collectRaces(prefix string) map[string]string {
	out := map[string]string{}
	files, _ := filepath.Glob(prefix + ".*")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			var frames []string
			for _, l := range strings.Split(blk, "\n") {
				l = strings.TrimSpace(l)
				if strings.Contains(l, "go-native-netcdf/") && strings.HasSuffix(l, ")") && !strings.HasPrefix(l, "/") {
					fr := l[strings.LastIndex(l, "go-native-netcdf/")+len("go-native-netcdf/"):]
					if k := strings.LastIndex(fr, "("); k > 0 {
						fr = fr[:k]
					}
					frames = append(frames, fr)
				}
			}
			if len(frames) == 0 {
				continue
			}
			sig := frames[0]
			out[sig] = head(blk, 3500)
		}
	}
	return out
}
