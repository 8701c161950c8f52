package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const (
	exitMemory  = 77
	exitRace    = 66
	memoryLimit = 2 << 30
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "VERIF_SEED")
	evid := flag.String("evidence", "", "evidence file to write")
	replayDir := flag.String("replays", "", "directory for replay files")
	known := flag.String("known", "", "known-findings file")
	replay := flag.String("replay", "", "replay a violation file")
	cases := flag.Int("cases", 0, "override the number of cases")
	noshrink := flag.Bool("noshrink", false, "report violations as they were found")
	jobs := flag.Int("jobs", 0, "number of worker processes")
	worker := flag.Bool("worker", false, "internal")
	wIdx := flag.Int("w", 0, "internal: worker index")
	wOf := flag.Int("of", 1, "internal: number of workers")
	from := flag.Int("from", 0, "internal: first case")
	only := flag.Int("only", -1, "internal: run only this case")
	out := flag.String("out", "", "internal: worker result file")
	flag.Parse()

	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *noshrink || os.Getenv("LPG_NOSHRINK") != "" {
		ck.NoShrink = true
		os.Setenv("LPG_NOSHRINK", "1") // for the workers
	}
	n := ck.Quick
	if *tier == "thorough" {
		n = ck.Thorough
	}
	if *cases > 0 {
		n = *cases
	}
	if *worker {
		runWorker(ck, *seed, n, *wIdx, *wOf, *from, *only, *out)
		return
	}
	w := *jobs
	if w == 0 {
		w = runtime.NumCPU()
		if w > 8 {
			w = 8
		}
		if ck.Race {
			w = (w + 1) / 2
		}
		if ck.Jobs > 0 && w > ck.Jobs {
			w = ck.Jobs
		}
	}
	os.Exit(supervise(ck, *tier, *seed, n, w, *evid, *replayDir, *known))
}

// ---- worker ---------------------------------------------------------------

type workerResult struct {
	Counters   map[string]int64
	Sigs       []uint64
	Samples    []string
	Executed   int64
	Violations []*Violation
}

func runWorker(ck *Check, seed int64, n, w, of, from, only int, out string) {
	debug.SetMaxStack(512 << 20)
	go memoryGuard()
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the library prints when it refuses a path
	}
	progress := os.NewFile(3, "progress")
	var res workerResult
	st := newStats()
	flush := func() {
		res.Counters = st.Counters
		res.Sigs = res.Sigs[:0]
		for s := range st.Sigs {
			res.Sigs = append(res.Sigs, s)
		}
		res.Samples = st.Samples
		b, err := json.Marshal(&res)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(out, b, 0o644); err != nil {
			panic(err)
		}
	}
	var buf [8]byte
	one := func(idx int) bool {
		binary.LittleEndian.PutUint64(buf[:], uint64(idx))
		progress.Write(buf[:])
		c := ck.Gen(caseRng(seed, ck.ID, idx), idx)
		c.Idx = idx
		want := len(st.Samples) < 2 && (idx/of)%7 == 3
		st.logging, st.log = want, nil
		t0 := time.Now()
		err := runCase(ck, c, st)
		if d := time.Since(t0); d > 3*time.Second && traceLive {
			slowCase(ck.ID, idx, d)
		}
		res.Executed++
		if want && err == nil {
			st.Samples = append(st.Samples, clip(fmt.Sprintf("case %d: %s", idx, strings.Join(st.log, "; ")), 900))
		}
		st.logging, st.log = false, nil
		if err != nil {
			// mark as shrinking so that the watchdog does not take it for a hang
			binary.LittleEndian.PutUint64(buf[:], uint64(idx)|1<<62)
			progress.Write(buf[:])
			res.Violations = append(res.Violations, explain(ck, seed, c, err))
			flush()
			return false
		}
		return true
	}
	if only >= 0 {
		one(only)
		flush()
		return
	}
	for idx := from; idx < n; idx++ {
		if idx%of != w {
			continue
		}
		if !one(idx) {
			return
		}
	}
	flush()
}

func explain(ck *Check, seed int64, c *Case, err error) *Violation {
	v := &Violation{Property: ck.ID, Seed: seed, Idx: c.Idx, Kind: "monitor", Message: err.Error(), Case: c}
	if ck.NoShrink {
		return v
	}
	small := shrink(ck, c, 1500)
	for i := 0; i < 10; i++ {
		st := newStats()
		st.logging = true
		if e := runCase(ck, small, st); e != nil {
			v.Message, v.Log, v.Case, v.Original = e.Error(), st.log, small, c
			break
		}
	}
	return v
}

func memoryGuard() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(40 * time.Millisecond)
		metrics.Read(s)
		if s[0].Value.Kind() == metrics.KindUint64 && s[0].Value.Uint64() > memoryLimit {
			os.Exit(exitMemory)
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return s
}

// ---- supervisor -----------------------------------------------------------

type wstate struct {
	last    atomic.Int64 // last case started
	at      atomic.Int64
	stopped atomic.Bool
}

type runOut struct {
	res    *workerResult
	ok     bool
	reason string // "", "hang", "crash", "memory", "race", "error"
	idx    int
	stderr string
}

const hangAfter = 90 * time.Second
const confirmHang = 150 * time.Second

func startWorker(ck *Check, tier string, seed int64, n, w, of, from, only int, dir string, limit time.Duration, stop <-chan struct{}) runOut {
	self, _ := os.Executable()
	base := filepath.Join(dir, fmt.Sprintf("w%d-%d-%d", w, from, only))
	args := []string{"-worker", "-prop", ck.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
		"-cases", strconv.Itoa(n), "-w", strconv.Itoa(w), "-of", strconv.Itoa(of), "-from", strconv.Itoa(from),
		"-only", strconv.Itoa(only), "-out", base + ".json"}
	cmd := exec.Command(self, args...)
	pr, pw, err := os.Pipe()
	if err != nil {
		return runOut{reason: "error", stderr: err.Error()}
	}
	ef, err := os.Create(base + ".err")
	if err != nil {
		return runOut{reason: "error", stderr: err.Error()}
	}
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(exitRace), "GOTRACEBACK=single")
	if err := cmd.Start(); err != nil {
		return runOut{reason: "error", stderr: err.Error()}
	}
	pw.Close()
	ef.Close()
	var st wstate
	st.last.Store(-1)
	st.at.Store(time.Now().UnixNano())
	go func() {
		rd := bufio.NewReaderSize(pr, 1<<16)
		var b [8]byte
		for {
			if _, err := readFull(rd, b[:]); err != nil {
				return
			}
			x := int64(binary.LittleEndian.Uint64(b[:]))
			st.last.Store(x)
			st.at.Store(time.Now().UnixNano())
		}
	}()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	hang := false
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-stop:
			cmd.Process.Kill()
			<-done
			pr.Close()
			return runOut{reason: "stopped"}
		case <-tick.C:
			lim := limit
			if st.last.Load()&(1<<62) != 0 {
				lim = 4 * limit // shrinking
			}
			if time.Since(time.Unix(0, st.at.Load())) > lim {
				hang = true
				cmd.Process.Kill()
				werr = <-done
				break loop
			}
		}
	}
	time.Sleep(5 * time.Millisecond)
	pr.Close()
	o := runOut{idx: int(st.last.Load() &^ (1 << 62))}
	if b, err := os.ReadFile(base + ".json"); err == nil {
		var r workerResult
		if json.Unmarshal(b, &r) == nil {
			o.res = &r
		}
	}
	eb, _ := os.ReadFile(base + ".err")
	o.stderr = clip(string(eb), 20000)
	if hang {
		o.reason = "hang"
		return o
	}
	if werr == nil {
		o.ok = o.res != nil
		if !o.ok {
			o.reason = "error"
		}
		return o
	}
	code := -1
	if ee, ok := werr.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	switch code {
	case exitMemory:
		o.reason = "memory"
	case exitRace:
		o.reason = "race"
	case 70:
		o.reason = "error"
	case -1:
		o.reason = "killed"
	default:
		o.reason = "crash"
	}
	return o
}

func readFull(r *bufio.Reader, b []byte) (int, error) {
	n := 0
	for n < len(b) {
		k, err := r.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func supervise(ck *Check, tier string, seed int64, n, w int, evid, replayDir, known string) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "lpgcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	total := newStats()
	var executed int64
	var violations []*Violation
	var broken []string
	var mu sync.Mutex
	stop := make(chan struct{})
	var once sync.Once
	merge := func(r *workerResult) {
		if r == nil {
			return
		}
		for k, v := range r.Counters {
			total.Counters[k] += v
		}
		for _, s := range r.Sigs {
			total.Sigs[s] = struct{}{}
		}
		if len(total.Samples) < 6 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		executed += r.Executed
		violations = append(violations, r.Violations...)
	}
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			from, kills := 0, 0
			for {
				o := startWorker(ck, tier, seed, n, i, w, from, -1, dir, hangAfter, stop)
				if o.reason == "stopped" {
					return
				}
				mu.Lock()
				merge(o.res)
				nv := len(violations)
				mu.Unlock()
				if nv > 0 {
					once.Do(func() { close(stop) })
					return
				}
				if o.ok {
					return
				}
				if o.reason == "error" {
					mu.Lock()
					broken = append(broken, "worker error: "+o.stderr)
					mu.Unlock()
					return
				}
				kind, msg := "", ""
				switch o.reason {
				case "race":
					kind, msg = "race", o.stderr
				case "killed":
					kills++
					if kills <= 2 { // ended from outside (memory pressure): run the rest again
						from = o.idx
						continue
					}
					fallthrough
				case "hang", "memory", "crash":
					// confirm in a process of its own
					for k := 0; k < 3; k++ {
						r := startWorker(ck, tier, seed, n, i, w, from, o.idx, dir, confirmHang, stop)
						if r.reason == "stopped" {
							return
						}
						if r.ok && len(r.res.Violations) > 0 {
							mu.Lock()
							merge(r.res)
							mu.Unlock()
							once.Do(func() { close(stop) })
							return
						}
						if r.reason == "hang" || r.reason == "memory" || r.reason == "crash" || r.reason == "race" {
							kind, msg = r.reason, describeFailure(r)
							break
						}
						if o.reason == "hang" {
							break
						}
					}
				}
				mu.Lock()
				if kind != "" {
					violations = append(violations, &Violation{Property: ck.ID, Seed: seed, Idx: o.idx, Kind: kind, Message: msg,
						Case: ck.Gen(caseRng(seed, ck.ID, o.idx), o.idx)})
					mu.Unlock()
					once.Do(func() { close(stop) })
					return
				}
				broken = append(broken, fmt.Sprintf("worker %s at case %d, not reproduced: %s", o.reason, o.idx, clip(o.stderr, 2000)))
				mu.Unlock()
				from = o.idx + 1
				if len(broken) > 3 {
					return
				}
			}
		}(i)
	}
	wg.Wait()

	findings, err := runProbes(ck.ID, known)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rc := 0
	for _, f := range findings {
		fmt.Println(f)
	}
	if len(violations) > 0 {
		sort.Slice(violations, func(i, j int) bool { return violations[i].Idx < violations[j].Idx })
		v := violations[0]
		if replayDir == "" {
			replayDir = "."
		}
		os.MkdirAll(replayDir, 0o755)
		path := filepath.Join(replayDir, fmt.Sprintf("%s-seed%d-case%d.json", ck.ID, seed, v.Idx))
		os.WriteFile(path, mustJSON(v), 0o644)
		fmt.Printf("property %s, case %d (%s):\n%s\n", ck.ID, v.Idx, v.Kind, clip(v.Message, 4000))
		for _, l := range v.Log {
			fmt.Println("   ", clip(l, 400))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		rc = 1
	}
	if rc == 0 && len(broken) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(broken, "\n"))
		rc = 2
	}
	if rc == 0 {
		for _, k := range ck.Required {
			if total.Counters[k] == 0 {
				fmt.Fprintf(os.Stderr, "inconclusive: nothing observed for %q\n", k)
				rc = 3
			}
		}
		if executed < int64(n) {
			fmt.Fprintf(os.Stderr, "inconclusive: executed %d of %d cases\n", executed, n)
			rc = 3
		}
	}
	if evid != "" {
		if len(total.Samples) > 4 {
			total.Samples = total.Samples[:4]
		}
		obs := map[string]int64{}
		for k, v := range total.Counters {
			obs[k] = v
		}
		ev := map[string]interface{}{
			"property": ck.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]interface{}{
				"evaluations": executed, "distinct_nontrivial": len(total.Sigs), "rule": ck.Rule,
				"samples": total.Samples, "observed": obs,
			},
			"assumptions": append([]string{"held on the executions observed; says nothing about inputs outside the generators' domains (DESIGN.md)"}, ck.Assume...),
			"wall_s":      time.Since(t0).Seconds(),
			"violations":  len(violations),
		}
		os.MkdirAll(filepath.Dir(evid), 0o755)
		if err := os.WriteFile(evid, mustJSON(ev), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if rc == 0 {
		fmt.Printf("%s: held on %d executions (%d distinct non-trivial) in %.1fs;", ck.ID, executed, len(total.Sigs), time.Since(t0).Seconds())
		for _, k := range sortedKeys(total.Counters) {
			if !strings.HasPrefix(k, "overlap:") && !strings.HasPrefix(k, "op:") {
				fmt.Printf(" %s=%d", k, total.Counters[k])
			}
		}
		fmt.Println()
	}
	return rc
}

func describeFailure(o runOut) string {
	switch o.reason {
	case "hang":
		return "an operation of this case did not terminate (twice, alone the second time)"
	case "memory":
		return fmt.Sprintf("this case allocated more than %d MB (twice, alone the second time): unbounded growth", memoryLimit>>20)
	}
	return "the process died: " + o.stderr
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ck := checks[v.Property]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", v.Property)
		return 2
	}
	go memoryGuard()
	c := v.Case
	if c == nil {
		c = ck.Gen(caseRng(v.Seed, v.Property, v.Idx), v.Idx)
	}
	for i := 0; i < 20; i++ {
		st := newStats()
		st.logging = true
		if err := runCase(ck, c, st); err != nil {
			fmt.Println(strings.Join(st.log, "\n"))
			fmt.Println(err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
			return 1
		}
	}
	fmt.Println("not reproduced in 20 runs")
	return 0
}

// slowCase notes a slow case in the file named by VERIF_TRACE.
func slowCase(id string, idx int, d time.Duration) {
	f, err := os.OpenFile(os.Getenv("VERIF_TRACE"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	fmt.Fprintf(f, "%s: case %d took %v\n", id, idx, d)
}
