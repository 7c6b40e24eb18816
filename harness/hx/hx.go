// Package hx is the property-check engine: rapid draws JSON-serialisable cases,
// every case is executed in a worker child process against the real zinx code
// (so a panic in any goroutine of the code under test fails the case, not the
// search), failures are shrunk by rapid, and the driver merges what every shard
// covered into an evidence record.
package hx

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what one executed case actually did.
type Rec struct {
	mu         sync.Mutex
	nontrivial bool
	labels     map[string]bool
}

// Nontrivial marks the case as non-trivial by the property's stated rule.
func (r *Rec) Nontrivial(b bool) {
	if b {
		r.mu.Lock()
		r.nontrivial = true
		r.mu.Unlock()
	}
}

// Label classifies the case (distribution is reported in the evidence).
func (r *Rec) Label(cond bool, l string) {
	if cond {
		r.mu.Lock()
		r.labels[l] = true
		r.mu.Unlock()
	}
}

// Facet is one generated check of a property.
type Facet struct {
	Name     string
	Quick    int // number of cases, all shards together
	Thorough int
	MaxPar   int           // shards (0: as many as there are cores)
	Wide     int           // shards of a facet that mostly sleeps
	OneShot  bool          // a fresh process per case
	Timeout  time.Duration // a case that does not return within this, twice, is a hang
	gen      func(*rapid.T) any
	run      func(json.RawMessage, *Rec) error
}

// Opt configures a facet.
type Opt func(*Facet)

// OneShot runs every case in a fresh process.
func OneShot() Opt { return func(f *Facet) { f.OneShot = true } }

// Par limits the number of shards.
func Par(n int) Opt { return func(f *Facet) { f.MaxPar = n } }

// Wide runs more shards than there are cores (for cases that mostly sleep).
func Wide(n int) Opt { return func(f *Facet) { f.Wide = n } }

// Timeout sets the hang limit.
func Timeout(d time.Duration) Opt { return func(f *Facet) { f.Timeout = d } }

// F builds a facet from a typed generator and a typed oracle.
func F[C any](name string, quick, thorough int, gen func(*rapid.T) C, run func(C, *Rec) error, opts ...Opt) Facet {
	f := Facet{Name: name, Quick: quick, Thorough: thorough, Timeout: 90 * time.Second,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(raw json.RawMessage, r *Rec) error {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				return fmt.Errorf("HARNESS: bad case: %v", err)
			}
			return run(c, r)
		},
	}
	for _, o := range opts {
		o(&f)
	}
	return f
}

// Property is what a check program declares.
type Property struct {
	ID          string
	Rule        string
	Assumptions []string
	Facets      []Facet
}

type result struct {
	Err        string   `json:"err,omitempty"`
	Harness    bool     `json:"harness,omitempty"`
	Nontrivial bool     `json:"nt,omitempty"`
	Labels     []string `json:"l,omitempty"`
}

// Failure is the replay file.
type Failure struct {
	Property string          `json:"property"`
	Facet    string          `json:"facet"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

type shardOut struct {
	Evals    int            `json:"evals"`
	Hashes   []uint64       `json:"hashes"`
	Labels   map[string]int `json:"labels"`
	Samples  []string       `json:"samples"`
	Fail     *Failure       `json:"fail,omitempty"`
	InfraErr string         `json:"infra,omitempty"`
	Wall     float64        `json:"wall"`
}

var (
	fMode  = flag.String("hx.mode", "drive", "drive|shard|worker|replay")
	fTier  = flag.String("hx.tier", "quick", "")
	fSeed  = flag.Int64("hx.seed", 1, "")
	fVerif = flag.String("hx.verif", "/verif", "")
	fFacet = flag.String("hx.facet", "", "")
	fShard = flag.Int("hx.shard", 0, "")
	fN     = flag.Int("hx.n", 0, "number of cases of this shard")
	fOut   = flag.String("hx.out", "", "")
	fFile  = flag.String("hx.file", "", "replay file")
	fOnly  = flag.String("hx.only", "", "only this facet (drive)")
	fScale = flag.Float64("hx.scale", 1, "case count multiplier (drive)")
	fNoEv  = flag.Bool("hx.noevidence", false, "")
)

// Main is the entry point of a check program.
func Main(p Property) {
	testing.Init()
	flag.Parse()
	switch *fMode {
	case "worker":
		workerMain(p)
	case "shard":
		shardMain(p)
	case "replay":
		os.Exit(replayMain(p))
	default:
		os.Exit(driveMain(p))
	}
}

func (p Property) facet(name string) *Facet {
	for i := range p.Facets {
		if p.Facets[i].Name == name {
			return &p.Facets[i]
		}
	}
	fmt.Fprintf(os.Stderr, "no facet %q\n", name)
	os.Exit(2)
	return nil
}

// ---------------------------------------------------------------- worker

var exitHooks []func()

// AtWorkerExit registers cleanup for a one-shot worker.
func AtWorkerExit(f func()) { exitHooks = append(exitHooks, f) }

func workerMain(p Property) {
	f := p.facet(*fFacet)
	out := os.NewFile(3, "reply")
	debug.SetGCPercent(100)
	debug.SetMemoryLimit(3 << 30)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		rec := &Rec{labels: map[string]bool{}}
		rerr := f.run(json.RawMessage(line), rec)
		rec.mu.Lock()
		res := result{Nontrivial: rec.nontrivial}
		for l := range rec.labels {
			res.Labels = append(res.Labels, l)
		}
		rec.mu.Unlock()
		sort.Strings(res.Labels)
		if rerr != nil {
			res.Err = rerr.Error()
			res.Harness = strings.HasPrefix(res.Err, "HARNESS:")
		}
		b, _ := json.Marshal(res)
		b = append(b, '\n')
		if _, err := out.Write(b); err != nil {
			os.Exit(3)
		}
		if f.OneShot {
			for _, h := range exitHooks {
				h()
			}
			os.Exit(0)
		}
	}
}

// ReplyAndExit lets a case answer from inside (used by virtual-time bubbles that never end).
func ReplyAndExit(rec *Rec, rerr error) {
	out := os.NewFile(3, "reply")
	rec.mu.Lock()
	res := result{Nontrivial: rec.nontrivial}
	for l := range rec.labels {
		res.Labels = append(res.Labels, l)
	}
	rec.mu.Unlock()
	if rerr != nil {
		res.Err = rerr.Error()
	}
	b, _ := json.Marshal(res)
	out.Write(append(b, '\n'))
	os.Exit(0)
}

type worker struct {
	f       *Facet
	dir     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	outFile *os.File
	errFile string
	lines   chan []byte
}

func (w *worker) start() error {
	exe, err := os.Executable()
	if err != nil {
		return err
	}
	w.errFile = filepath.Join(w.dir, "stderr")
	ef, err := os.Create(w.errFile)
	if err != nil {
		return err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd := exec.Command(exe, "-hx.mode=worker", "-hx.facet="+w.f.Name)
	cmd.Dir = w.dir
	cmd.Env = append(os.Environ(), "ZINX_CONFIG_FILE_PATH="+filepath.Join(w.dir, "none.json"), "GOTRACEBACK=all", "HX_DIR="+w.dir)
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	w.in, err = cmd.StdinPipe()
	if err != nil {
		return err
	}
	if err := cmd.Start(); err != nil {
		return err
	}
	pw.Close()
	ef.Close()
	w.cmd, w.outFile = cmd, pr
	w.out = bufio.NewReaderSize(pr, 1<<20)
	lines := make(chan []byte, 1)
	w.lines = lines
	go func(r *bufio.Reader) {
		for {
			b, err := r.ReadBytes('\n')
			if err != nil {
				close(lines)
				return
			}
			lines <- b
		}
	}(w.out)
	return nil
}

func (w *worker) kill() {
	if w.cmd == nil {
		return
	}
	syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	w.in.Close()
	w.cmd.Wait()
	w.outFile.Close()
	w.cmd = nil
}

var errHang = errors.New("hang")

// exec runs one case. The returned error is an infrastructure error.
func (w *worker) exec(raw []byte) (result, error) {
	if w.cmd == nil {
		if err := w.start(); err != nil {
			return result{}, err
		}
	}
	if _, err := w.in.Write(append(append([]byte{}, raw...), '\n')); err != nil {
		// worker died before reading; fall through to the reply path
		_ = err
	}
	tm := time.NewTimer(w.f.Timeout)
	defer tm.Stop()
	select {
	case b, ok := <-w.lines:
		if ok {
			var r result
			if err := json.Unmarshal(b, &r); err != nil {
				return r, err
			}
			if w.f.OneShot {
				w.kill()
			}
			return r, nil
		}
		// died
		err := w.cmd.Wait()
		w.outFile.Close()
		w.cmd = nil
		msg, kind := crashSummary(w.errFile)
		switch kind {
		case "zinx":
			return result{Err: "process crashed: " + msg, Nontrivial: true}, nil
		default:
			return result{}, fmt.Errorf("worker died (%v): %s", err, msg)
		}
	case <-tm.C:
		syscall.Kill(w.cmd.Process.Pid, syscall.SIGQUIT)
		time.Sleep(500 * time.Millisecond)
		dump := tail(w.errFile, 6000)
		w.kill()
		return result{Err: "no answer within " + w.f.Timeout.String() + "\n" + dump}, errHang
	}
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

// crashSummary reads a Go crash dump: what died, and whether code of zinx was on
// the crashing goroutine's stack.
func crashSummary(path string) (string, string) {
	b, _ := os.ReadFile(path)
	s := string(b)
	i := strings.Index(s, "panic: ")
	j := strings.Index(s, "fatal error: ")
	if i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		if len(s) > 800 {
			s = s[len(s)-800:]
		}
		return "no Go crash dump: " + s, "other"
	}
	s = s[i:]
	// first goroutine block
	end := len(s)
	if k := strings.Index(s, "\ngoroutine "); k >= 0 {
		if k2 := strings.Index(s[k+1:], "\n\n"); k2 >= 0 {
			end = k + 1 + k2
		}
	}
	first := s[:end]
	msg := first
	if len(msg) > 1500 {
		msg = msg[:1500]
	}
	if strings.Contains(first, "address already in use") || strings.Contains(first, "cannot assign requested address") || strings.Contains(first, "too many open files") {
		return msg, "other"
	}
	if strings.Contains(first, "out of memory") || strings.Contains(first, "cannot allocate") {
		return msg, "other"
	}
	if strings.Contains(first, "aceld/zinx") || strings.Contains(first, "concurrent map") || strings.Contains(first, "all goroutines are asleep") {
		return msg, "zinx"
	}
	return msg, "other"
}

// ---------------------------------------------------------------- shard

type fakeTB struct {
	failed bool
	log    bytes.Buffer
}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return "hx" }
func (f *fakeTB) Logf(s string, a ...any)   { fmt.Fprintf(&f.log, s+"\n", a...) }
func (f *fakeTB) Log(a ...any)              { fmt.Fprintln(&f.log, a...) }
func (f *fakeTB) Skipf(s string, a ...any)  { runtime.Goexit() }
func (f *fakeTB) Skip(a ...any)             { runtime.Goexit() }
func (f *fakeTB) SkipNow()                  { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) { f.Logf(s, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)            { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Logf(s, a...); f.FailNow() }
func (f *fakeTB) Fatal(a ...any)            { f.Log(a...); f.FailNow() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func shardMain(p Property) {
	f := p.facet(*fFacet)
	start := time.Now()
	dir := *fOut
	wdir := filepath.Join(dir, "w")
	os.MkdirAll(wdir, 0o755)
	w := &worker{f: f, dir: wdir}
	so := &shardOut{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var best *Failure
	var firstFail time.Time
	writeFail := func(fl *Failure) {
		b, _ := json.MarshalIndent(fl, "", " ")
		os.WriteFile(filepath.Join(dir, "fail.json.tmp"), b, 0o644)
		os.Rename(filepath.Join(dir, "fail.json.tmp"), filepath.Join(dir, "fail.json"))
	}
	finish := func() {
		w.kill()
		for h := range seen {
			so.Hashes = append(so.Hashes, h)
		}
		so.Fail = best
		so.Wall = time.Since(start).Seconds()
		b, _ := json.Marshal(so)
		os.WriteFile(filepath.Join(dir, "out.json.tmp"), b, 0o644)
		os.Rename(filepath.Join(dir, "out.json.tmp"), filepath.Join(dir, "out.json"))
	}
	runRaw := func(raw []byte) (string, bool) {
		r, err := w.exec(raw)
		if err == errHang {
			r2, err2 := w.exec(raw) // fresh worker: kill() was called
			if err2 == errHang {
				return "hang, twice in a row: " + r2.Err, true
			}
			r, err = r2, err2
		}
		if err != nil {
			so.InfraErr = err.Error()
			finish()
			os.Exit(2)
		}
		if r.Harness {
			so.InfraErr = r.Err
			finish()
			os.Exit(2)
		}
		so.Evals++
		for _, l := range r.Labels {
			so.Labels[l]++
		}
		if r.Nontrivial {
			h := hash64(raw)
			if !seen[h] {
				seen[h] = true
				if len(so.Samples) < 3 {
					s := string(raw)
					if len(s) > 700 {
						s = s[:700] + "…"
					}
					so.Samples = append(so.Samples, f.Name+": "+s)
				}
			}
		}
		return r.Err, r.Err != ""
	}
	// saved regression cases first (shard 0 only)
	if *fShard == 0 {
		files, _ := filepath.Glob(filepath.Join(*fVerif, "regress", p.ID, f.Name+"*.json"))
		sort.Strings(files)
		for _, fn := range files {
			b, err := os.ReadFile(fn)
			if err != nil {
				continue
			}
			var fl Failure
			if json.Unmarshal(b, &fl) != nil || fl.Facet != f.Name {
				continue
			}
			var cb bytes.Buffer
			json.Compact(&cb, fl.Case)
			if msg, bad := runRaw(cb.Bytes()); bad {
				best = &Failure{p.ID, f.Name, "saved case " + filepath.Base(fn) + ": " + msg, cb.Bytes()}
				writeFail(best)
				finish()
				return
			}
		}
	}
	if *fN > 0 {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%s/%d", *fSeed, p.ID, f.Name, *fShard)
		seed := h.Sum64() | 1
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
		flag.Set("rapid.checks", strconv.Itoa(*fN))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "40s")
		tb := &fakeTB{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				c := f.gen(t)
				raw, err := json.Marshal(c)
				if err != nil {
					so.InfraErr = err.Error()
					finish()
					os.Exit(2)
				}
				if !firstFail.IsZero() && time.Since(firstFail) > 45*time.Second {
					return // shrinking budget used up
				}
				os.WriteFile(filepath.Join(dir, "current.json"), raw, 0o644)
				if msg, bad := runRaw(raw); bad {
					if firstFail.IsZero() {
						firstFail = time.Now()
					}
					if best == nil || len(raw) <= len(best.Case) {
						best = &Failure{p.ID, f.Name, msg, raw}
						writeFail(best)
					}
					t.Fatalf("violation")
				}
			})
		}()
		<-done
		if tb.failed && best == nil {
			so.InfraErr = "rapid: " + tb.log.String()
			finish()
			os.Exit(2)
		}
	}
	finish()
}

// ---------------------------------------------------------------- drive

type task struct {
	f     *Facet
	shard int
	n     int
	dir   string
	cmd   *exec.Cmd
}

func driveMain(p Property) int {
	start := time.Now()
	limit := 800 * time.Second
	if *fTier == "thorough" {
		limit = 6 * time.Hour
	}
	tmp, err := os.MkdirTemp("", "hx-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	var tasks []*task
	cores := runtime.NumCPU()
	slots := cores
	for i := range p.Facets {
		f := &p.Facets[i]
		par := cores
		if f.OneShot { // mostly waiting
			par = 2 * cores
		}
		if f.Wide > par {
			par = f.Wide
		}
		if par > slots {
			slots = par
		}
		if *fOnly != "" && *fOnly != f.Name {
			continue
		}
		n := f.Quick
		if *fTier == "thorough" {
			n = f.Thorough
		}
		n = int(float64(n) * *fScale)
		sh := par
		if f.MaxPar > 0 && f.MaxPar < sh {
			sh = f.MaxPar
		}
		if sh > n {
			sh = n
		}
		if sh < 1 {
			sh = 1
		}
		for s := 0; s < sh; s++ {
			k := n / sh
			if s < n%sh {
				k++
			}
			d := filepath.Join(tmp, fmt.Sprintf("%s-%d", f.Name, s))
			os.MkdirAll(d, 0o755)
			tasks = append(tasks, &task{f: f, shard: s, n: k, dir: d})
		}
	}
	exe, _ := os.Executable()
	var mu sync.Mutex
	stop := false
	infra := ""
	sem := make(chan struct{}, slots)
	var wg sync.WaitGroup
	killAll := func() {
		for _, t := range tasks {
			if t.cmd != nil && t.cmd.Process != nil {
				syscall.Kill(-t.cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	timedOut := false
	timer := time.AfterFunc(limit, func() {
		mu.Lock()
		defer mu.Unlock()
		timedOut = true
		stop = true
		killAll()
	})
	defer timer.Stop()
	for _, t := range tasks {
		sem <- struct{}{}
		mu.Lock()
		if stop {
			mu.Unlock()
			<-sem
			break
		}
		t.cmd = exec.Command(exe, "-hx.mode=shard", "-hx.tier="+*fTier, "-hx.seed="+strconv.FormatInt(*fSeed, 10),
			"-hx.verif="+*fVerif, "-hx.facet="+t.f.Name, "-hx.shard="+strconv.Itoa(t.shard), "-hx.n="+strconv.Itoa(t.n), "-hx.out="+t.dir)
		t.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		if ef, e := os.Create(filepath.Join(t.dir, "stderr")); e == nil {
			t.cmd.Stderr = ef
			defer ef.Close()
		}
		// Pdeathsig is delivered when the creating *thread* dies; pin it
		runtime.LockOSThread()
		err := t.cmd.Start()
		runtime.UnlockOSThread()
		mu.Unlock()
		if err != nil {
			infra = err.Error()
			<-sem
			break
		}
		wg.Add(1)
		go func(t *task) {
			defer wg.Done()
			defer func() { <-sem }()
			err := t.cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if _, e := os.Stat(filepath.Join(t.dir, "fail.json")); e == nil {
				if !stop {
					stop = true
					killAll()
				}
				return
			}
			if err != nil && !stop {
				b, _ := os.ReadFile(filepath.Join(t.dir, "out.json"))
				var so shardOut
				json.Unmarshal(b, &so)
				infra = fmt.Sprintf("shard %s/%d: %v %s %s", t.f.Name, t.shard, err, so.InfraErr, tail(filepath.Join(t.dir, "stderr"), 1500))
				stop = true
				killAll()
			}
		}(t)
	}
	wg.Wait()
	// merge
	evals := 0
	distinct := map[string]map[uint64]bool{}
	labels := map[string]map[string]int{}
	perFacet := map[string]int{}
	var samples []string
	var fails []*Failure
	for _, t := range tasks {
		if b, err := os.ReadFile(filepath.Join(t.dir, "fail.json")); err == nil {
			var fl Failure
			if json.Unmarshal(b, &fl) == nil {
				fails = append(fails, &fl)
			}
		}
		b, err := os.ReadFile(filepath.Join(t.dir, "out.json"))
		if err != nil {
			continue
		}
		var so shardOut
		if json.Unmarshal(b, &so) != nil {
			continue
		}
		evals += so.Evals
		perFacet[t.f.Name] += so.Evals
		if distinct[t.f.Name] == nil {
			distinct[t.f.Name] = map[uint64]bool{}
			labels[t.f.Name] = map[string]int{}
		}
		for _, h := range so.Hashes {
			distinct[t.f.Name][h] = true
		}
		for l, n := range so.Labels {
			labels[t.f.Name][l] += n
		}
		if t.shard == 0 {
			samples = append(samples, so.Samples...)
		}
	}
	nt := 0
	perNT := map[string]int{}
	for f, m := range distinct {
		nt += len(m)
		perNT[f] = len(m)
	}
	if !*fNoEv {
		ev := map[string]any{
			"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations": evals, "distinct_nontrivial": nt, "rule": p.Rule, "samples": samples,
				"per_facet_evaluations": perFacet, "per_facet_distinct_nontrivial": perNT, "labels": labels,
			},
			"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fails),
		}
		if p.Assumptions == nil {
			ev["assumptions"] = []string{}
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(*fVerif, "evidence", p.ID+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Case) < len(fails[j].Case) })
		fl := fails[0]
		rd := filepath.Join(*fVerif, "replays")
		os.MkdirAll(rd, 0o755)
		rp := filepath.Join(rd, fmt.Sprintf("%s-%s-%016x.json", p.ID, fl.Facet, hash64(fl.Case)))
		b, _ := json.MarshalIndent(fl, "", " ")
		os.WriteFile(rp, b, 0o644)
		msg := fl.Error
		if len(msg) > 3000 {
			msg = msg[:3000] + "…"
		}
		fmt.Printf("facet %s: %s\n", fl.Facet, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		return 1
	}
	if infra != "" || timedOut {
		fmt.Fprintf(os.Stderr, "ERROR property=%s timeout=%v %s\n", p.ID, timedOut, infra)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, *fTier, evals, nt, time.Since(start).Seconds())
	return 0
}

func replayMain(p Property) int {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var fl Failure
	if err := json.Unmarshal(b, &fl); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	f := p.facet(fl.Facet)
	tmp, err := os.MkdirTemp("", "hxr-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	n := *fN
	if n == 0 {
		n = 1
	}
	var cb bytes.Buffer
	json.Compact(&cb, fl.Case)
	for i := 0; i < n; i++ {
		w := &worker{f: f, dir: tmp}
		r, err := w.exec(cb.Bytes())
		w.kill()
		if err != nil && err != errHang {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if r.Err != "" {
			fmt.Println(r.Err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *fFile)
			return 1
		}
	}
	fmt.Println("replay: property held")
	return 0
}
