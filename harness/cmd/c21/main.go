// C21: rotated log files lose, reorder and duplicate nothing.
package main

import (
	"archive/zip"
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aceld/zinx/zutils"
	"pgregory.net/rapid"

	"verif/hx"
)

// ---------------------------------------------------------------- reading back

// file is one log file found in a directory, oldest first.
type file struct {
	name  string
	lines []string // without newline
	size  int
}

// scratch makes a directory of this case, removed by the returned function.
func scratch() (string, func(), error) {
	d, err := os.MkdirTemp(os.Getenv("HX_DIR"), "c21-")
	if err != nil {
		return "", nil, fmt.Errorf("HARNESS: %v", err)
	}
	return d, func() { os.RemoveAll(d) }, nil
}

// readBack collects everything logged under path. Where a rotated file is there
// both compressed and not (the process died, or compressing failed), the
// uncompressed one counts.
func readBack(path string) ([]file, error) {
	dir, base := filepath.Split(path)
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	stem := strings.TrimSuffix(base, filepath.Ext(base))
	plain := map[string]bool{}
	for _, e := range es {
		n := e.Name()
		if n != base && strings.HasPrefix(n, stem+".") && !strings.HasSuffix(n, ".zip") {
			plain[strings.TrimSuffix(n, ".log")] = true
		}
	}
	var names []string
	for _, e := range es {
		n := e.Name()
		if n == base || !strings.HasPrefix(n, stem+".") || e.IsDir() {
			continue
		}
		if strings.HasSuffix(n, ".zip") && plain[strings.TrimSuffix(n, ".zip")] {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	if _, err := os.Stat(path); err == nil {
		names = append(names, base)
	}
	var fs []file
	for _, n := range names {
		p := filepath.Join(dir, n)
		var b []byte
		if strings.HasSuffix(n, ".zip") {
			r, err := zip.OpenReader(p)
			if err != nil {
				return nil, fmt.Errorf("the rotated file %s cannot be read: %v", n, err)
			}
			for _, f := range r.File {
				rc, err := f.Open()
				if err != nil {
					return nil, fmt.Errorf("the rotated file %s cannot be read: %v", n, err)
				}
				x, err := io.ReadAll(rc)
				rc.Close()
				if err != nil {
					return nil, fmt.Errorf("the rotated file %s cannot be read: %v", n, err)
				}
				b = append(b, x...)
			}
			r.Close()
		} else if b, err = os.ReadFile(p); err != nil {
			return nil, err
		}
		f := file{name: n, size: len(b)}
		if len(b) > 0 {
			if b[len(b)-1] != '\n' {
				f.lines = strings.Split(string(b), "\n")
				f.lines[len(f.lines)-1] += "(cut)"
			} else {
				f.lines = strings.Split(string(b[:len(b)-1]), "\n")
			}
		}
		fs = append(fs, f)
	}
	return fs, nil
}

// line k of a writer: exactly n bytes with its newline (at least 24).
func line(w, k, n int) string {
	s := fmt.Sprintf("w%d#%d:", w, k)
	var b strings.Builder
	b.WriteString(s)
	x := uint64(w+1)*0x9E3779B97F4A7C15 + uint64(k)
	for b.Len() < n-1 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b.WriteByte("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-"[x&63])
	}
	return b.String()
}

func key(l string) string {
	if i := strings.IndexByte(l, ':'); i > 0 {
		return l[:i]
	}
	return ""
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}

// same compares what is in the files, in order, with what was written.
func same(fs []file, want []string) error {
	var got []string
	for _, f := range fs {
		got = append(got, f.lines...)
	}
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			return fmt.Errorf("line %d of the log is %q, %q was written there (%d lines found, %d written)", i, short(got[i]), short(want[i]), len(got), len(want))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d lines are found, %d were written", len(got), len(want))
	}
	return nil
}

// limits: without its last line, a file is below the limit.
func limits(fs []file, limit int64) error {
	for _, f := range fs {
		if n := len(f.lines); n > 1 {
			if s := f.size - len(f.lines[n-1]) - 1; int64(s) >= limit {
				return fmt.Errorf("%s has %d bytes before its last line, the limit is %d", f.name, s, limit)
			}
		}
	}
	return nil
}

// early: no file was rotated before it and the next line came to half the limit.
func early(fs []file, limit int64) error {
	for i := 0; i+1 < len(fs); i++ {
		if len(fs[i+1].lines) == 0 {
			continue
		}
		if n := len(fs[i+1].lines[0]) + 1; int64(2*(fs[i].size+n)) < limit {
			return fmt.Errorf("%s was rotated on the same day with %d bytes, the next line has %d, the limit is %d", fs[i].name, fs[i].size, n, limit)
		}
	}
	return nil
}

var size = rapid.OneOf(
	rapid.IntRange(24, 80),
	rapid.IntRange(24, 80),
	rapid.SampledFrom([]int{24, 25, 100, 511, 512, 1024, 2048, 4095, 4096, 4097, 5000, 9000}),
)

var limit = rapid.OneOf(
	rapid.SampledFrom([]int64{1, 100, 200, 300, 1000, 4096, 5000, 10000, 100000}),
	rapid.Int64Range(1, 20000),
)

var name = rapid.SampledFrom([]string{"app.log", "app.log", "app", "a.b.c", "zinx.txt", "x.2020-01-01.log", "log.log", "zip.zip.log"})

// ---------------------------------------------------------------- histories

const (
	opWrite = iota
	opClose
	opReopen
	opLimit
	opCons
)

type Op struct {
	Kind  int
	Size  int
	Limit int64
	N     int // how many lines
}

type Case struct {
	Name   string
	Limit  int64
	Before int // lines already in the file
	Ops    []Op
	Deep   bool // the directory does not exist
}

func gen(t *rapid.T) Case {
	c := Case{Name: name.Draw(t, "name"), Limit: limit.Draw(t, "limit"), Deep: rapid.Bool().Draw(t, "deep")}
	if !c.Deep {
		c.Before = rapid.SampledFrom([]int{0, 0, 1, 5, 100}).Draw(t, "before")
	}
	kinds := opWrite
	if rapid.Bool().Draw(t, "limits") {
		kinds = opLimit
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return Op{
			Kind:  rapid.SampledFrom([]int{opWrite, opWrite, opWrite, opWrite, opWrite, opWrite, opClose, opReopen, kinds}).Draw(t, "kind"),
			Size:  size.Draw(t, "size"),
			Limit: limit.Draw(t, "newlimit"),
			N:     rapid.SampledFrom([]int{1, 1, 2, 5, 20}).Draw(t, "n"),
		}
	}), 1, 40).Draw(t, "ops")
	return c
}

func run(c Case, rec *hx.Rec) error {
	day := time.Now().YearDay()
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	if c.Deep {
		dir = filepath.Join(dir, "some", "app.d")
	}
	path := filepath.Join(dir, c.Name)
	var want []string
	k := 0
	next := func(n int) string { l := line(0, k, n); k++; return l }
	if c.Before > 0 {
		var b bytes.Buffer
		for i := 0; i < c.Before; i++ {
			l := next(50)
			want = append(want, l)
			b.WriteString(l + "\n")
		}
		if err := os.WriteFile(path, b.Bytes(), 0644); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		time.Sleep(12 * time.Millisecond)
	}
	w := zutils.New(path)
	w.SetMaxSize(c.Limit)
	lim := c.Limit
	top := max(lim, int64(c.Before*50+1))
	closed, reopened, lims, lagged, wrote := 0, 0, false, false, false
	for i, op := range c.Ops {
		switch op.Kind {
		case opWrite:
			for j := 0; j < op.N; j++ {
				l := next(op.Size)
				n, err := w.Write([]byte(l + "\n"))
				if err != nil || n != len(l)+1 {
					return fmt.Errorf("step %d: Write of %d bytes gave %d, %v", i, len(l)+1, n, err)
				}
				want = append(want, l)
				wrote = true
			}
		case opClose, opReopen:
			if op.Kind == opReopen {
				// restarts are further apart than the steps of the file system's clock
				time.Sleep(12 * time.Millisecond)
			}
			if err := w.Close(); err != nil {
				return fmt.Errorf("step %d: Close: %v", i, err)
			}
			closed++
			if fi, err := os.Stat(path); err == nil {
				if op.Kind == opClose && op.N%2 == 0 && wrote {
					// a file system whose clock lags behind
					os.Chtimes(path, time.Time{}, fi.ModTime().Add(-10*time.Millisecond))
					lagged = true
				} else if op.Kind == opReopen && lagged {
					os.Chtimes(path, time.Time{}, time.Now())
					lagged = false
				}
			}
			if op.Kind == opReopen || op.N%2 == 1 { // else it is written again at once
				fs, err := readBack(path)
				if err != nil {
					return err
				}
				if err := same(fs, want); err != nil {
					return fmt.Errorf("step %d, after Close: %v", i, err)
				}
			}
			if op.Kind == opReopen {
				time.Sleep(12 * time.Millisecond)
				w = zutils.New(path)
				w.SetMaxSize(lim)
				reopened++
				wrote = false
			}
		case opLimit:
			w.SetMaxSize(op.Limit)
			lim, lims = op.Limit, true
			top = max(top, lim)
		}
	}
	for i := 0; i < 2; i++ {
		if err := w.Close(); err != nil {
			return fmt.Errorf("Close (%d): %v", i, err)
		}
	}
	if len(want) == 0 {
		return nil
	}
	fs, err := readBack(path)
	if err != nil {
		return err
	}
	if err := same(fs, want); err != nil {
		return err
	}
	if err := limits(fs, top); err != nil {
		return err
	}
	if !lims && day == time.Now().YearDay() {
		if err := early(fs, lim); err != nil {
			return err
		}
	}
	rec.Label(len(fs) > 1, "rotated")
	rec.Label(len(fs) > 5, "rotated several times")
	rec.Label(reopened > 0, "opened again")
	rec.Label(closed > reopened, "written after close")
	rec.Label(c.Before > 0, "there was a file before")
	rec.Label(lagged, "the file system's clock lagged behind")
	rec.Nontrivial(len(fs) > 1 && len(want) >= 5)
	return nil
}

// ---------------------------------------------------------------- days, in virtual time

type DayOp struct {
	Kind int // opWrite, opClose, opReopen, opNap(100)
	Size int
	N    int
	Nap  int64 // seconds
}

type DayCase struct {
	Name  string
	Limit int64
	Age   int // -1: the default of 31
	Zone  int // quarter hours
	Ops   []DayOp
}

const opNap = 100

func genDays(t *rapid.T) DayCase {
	c := DayCase{
		Name:  name.Draw(t, "name"),
		Limit: rapid.SampledFrom([]int64{200, 1000, 5000, 1 << 20, 1 << 20}).Draw(t, "limit"),
		Age:   rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 7, 30}).Draw(t, "age"),
		Zone:  rapid.IntRange(-48, 56).Draw(t, "zone"),
	}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) DayOp {
		return DayOp{
			Kind: rapid.SampledFrom([]int{opWrite, opWrite, opWrite, opNap, opNap, opClose, opReopen}).Draw(t, "kind"),
			Size: size.Draw(t, "size"),
			N:    rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(t, "n"),
			Nap:  rapid.SampledFrom([]int64{0, 1, 5, 6, 60, 3600, 5 * 3600, 11 * 3600, 43200, 20 * 3600, 86399, 86400, 86401, 2 * 86400, 3 * 86400, 7 * 86400, 31 * 86400}).Draw(t, "nap"),
		}
	}), 2, 50).Draw(t, "ops")
	return c
}

func runDays(c DayCase, rec *hx.Rec) error {
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	return hx.Virtual(rec, func() error {
		defer clean()
		time.Local = time.FixedZone("gen", c.Zone*900)
		path := filepath.Join(dir, c.Name)
		type wr struct {
			l string
			t time.Time
		}
		var all []wr
		var changes []time.Time // writes on another day than the one before
		var w *zutils.Writer
		open := func() {
			w = zutils.New(path)
			w.SetMaxSize(c.Limit)
			if c.Age >= 0 {
				w.SetMaxAge(c.Age)
			}
		}
		open()
		age := c.Age
		if age < 0 {
			age = 31
		}
		day := func(t time.Time) string { return t.Format("2006-01-02") }
		stamp := func() {
			// the file system has the real time, give the file the time of its last line
			if len(all) > 0 {
				if _, err := os.Stat(path); err == nil {
					os.Chtimes(path, all[len(all)-1].t, all[len(all)-1].t)
				}
			}
		}
		for _, op := range c.Ops {
			switch op.Kind {
			case opNap:
				time.Sleep(time.Duration(op.Nap) * time.Second)
			case opWrite:
				for j := 0; j < op.N; j++ {
					x := wr{line(0, len(all), op.Size), time.Now()}
					if n := len(all); n > 0 && day(all[n-1].t) != day(x.t) {
						changes = append(changes, x.t)
					}
					if n, err := w.Write([]byte(x.l + "\n")); err != nil || n != len(x.l)+1 {
						return fmt.Errorf("Write of %d bytes gave %d, %v", len(x.l)+1, n, err)
					}
					all = append(all, x)
				}
				time.Sleep(time.Millisecond)
			case opClose:
				if err := w.Close(); err != nil {
					return fmt.Errorf("Close: %v", err)
				}
				stamp()
			case opReopen:
				if err := w.Close(); err != nil {
					return fmt.Errorf("Close: %v", err)
				}
				stamp()
				open()
			}
		}
		// everything written more than five seconds ago has been flushed
		time.Sleep(6 * time.Second)
		fs, err := readBack(path)
		if err != nil {
			return err
		}
		// what is left is a suffix of what was written, in order
		var got []string
		for _, f := range fs {
			got = append(got, f.lines...)
		}
		gone := len(all) - len(got)
		if gone < 0 {
			return fmt.Errorf("%d lines are found, %d were written", len(got), len(all))
		}
		when := map[string]time.Time{}
		for _, x := range all {
			when[x.l] = x.t
		}
		for i, l := range got {
			if l != all[gone+i].l {
				return fmt.Errorf("line %d of the %d found is %q, %q is due there", i, len(got), short(l), short(all[gone+i].l))
			}
		}
		kept := time.Duration(age) * 24 * time.Hour
		if gone > 0 {
			if age <= 0 {
				return fmt.Errorf("%d lines were deleted, all files are to be kept", gone)
			}
			if len(changes) == 0 {
				return fmt.Errorf("%d lines are lost, and the day never changed", gone)
			}
			last := changes[len(changes)-1]
			// a file is as old as its first line, and holds one day
			if d := last.Sub(all[gone-1].t); d < kept-24*time.Hour {
				return fmt.Errorf("a line was deleted at the age of %v, files are to be kept for %d days", d, age)
			}
			if gone < len(all) && len(fs) > 0 {
				// the oldest deleted line of that file: the file began on the same day
				b := all[gone-1]
				i := gone - 1
				for i > 0 && day(all[i-1].t) == day(b.t) {
					i--
				}
				if d := last.Sub(all[i].t); d < kept {
					return fmt.Errorf("a file not older than %v was deleted, files are to be kept for %d days", d, age)
				}
			}
		} else if age > 0 && len(changes) > 1 {
			last, prev := changes[len(changes)-1], changes[len(changes)-2]
			if x := all[0]; x.t.Before(prev) && last.Sub(x.t) > kept {
				return fmt.Errorf("a line of %v ago is still there, files are to be kept for %d days", last.Sub(x.t), age)
			}
		}
		for _, f := range fs {
			for i := 1; i < len(f.lines); i++ {
				if a, b := day(when[f.lines[0]]), day(when[f.lines[i]]); a != b {
					return fmt.Errorf("%s has lines of %s and %s", f.name, a, b)
				}
			}
		}
		if err := limits(fs, c.Limit); err != nil {
			return err
		}
		rec.Label(len(changes) > 0, "day changed")
		rec.Label(gone > 0, "old files deleted")
		rec.Label(len(fs) > len(changes)+1, "rotated by size")
		rec.Nontrivial(len(changes) > 0 && len(all) >= 5)
		return nil
	})
}

// ---------------------------------------------------------------- concurrent writers

type RaceCase struct {
	Procs   int
	Limit   int64
	Writers []int // lines each
	Size    int
	Closers int // closes while writing
	Limits  []int64
}

func genRace(t *rapid.T) RaceCase {
	return RaceCase{
		Procs:   rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs"),
		Limit:   rapid.SampledFrom([]int64{2000, 10000, 100000, 1 << 20}).Draw(t, "limit"),
		Writers: rapid.SliceOfN(rapid.IntRange(1, 300), 1, 6).Draw(t, "writers"),
		Size:    rapid.SampledFrom([]int{30, 60, 200, 1500}).Draw(t, "size"),
		Closers: rapid.SampledFrom([]int{0, 0, 1, 2, 10, 100}).Draw(t, "closers"),
		Limits:  rapid.SliceOfN(rapid.Int64Range(1000, 100000), 0, 3).Draw(t, "limits"),
	}
}

func runRace(c RaceCase, rec *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	path := filepath.Join(dir, "app.log")
	w := zutils.New(path)
	w.SetMaxSize(c.Limit)
	top := c.Limit
	var wg, cl sync.WaitGroup
	var firstErr atomic.Value
	var stop atomic.Bool
	fail := func(f string, a ...any) { firstErr.CompareAndSwap(nil, fmt.Errorf(f, a...)) }
	for g, n := range c.Writers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				l := line(g, k, c.Size)
				if n, err := w.Write([]byte(l + "\n")); err != nil || n != len(l)+1 {
					fail("Write of %d bytes gave %d, %v", len(l)+1, n, err)
					return
				}
			}
		}()
	}
	cl.Add(1)
	go func() {
		defer cl.Done()
		for i := 0; i < c.Closers && !stop.Load(); i++ {
			if err := w.Close(); err != nil {
				fail("Close: %v", err)
			}
			time.Sleep(20 * time.Microsecond)
		}
	}()
	for _, l := range c.Limits {
		top = max(top, l)
		w.SetMaxSize(l)
		runtime.Gosched()
	}
	wg.Wait()
	stop.Store(true)
	cl.Wait()
	if err := w.Close(); err != nil {
		return fmt.Errorf("Close: %v", err)
	}
	if e := firstErr.Load(); e != nil {
		return e.(error)
	}
	fs, err := readBack(path)
	if err != nil {
		return err
	}
	next := make([]int, len(c.Writers))
	// files closed and opened again within a step of the file system's clock
	// may sort in another order: then only count
	ordered := c.Closers == 0
	seen := map[string]int{}
	for _, f := range fs {
		for _, l := range f.lines {
			var g, k int
			if _, err := fmt.Sscanf(l, "w%d#%d:", &g, &k); err != nil || g >= len(next) || l != line(g, k, c.Size) {
				return fmt.Errorf("%s has a line that was not written: %q", f.name, short(l))
			}
			seen[key(l)]++
			if ordered && k != next[g] {
				return fmt.Errorf("%s: line %d of writer %d comes where line %d is due", f.name, k, g, next[g])
			}
			next[g]++
		}
	}
	for g, n := range c.Writers {
		for k := 0; k < n; k++ {
			if s := seen[fmt.Sprintf("w%d#%d", g, k)]; s != 1 {
				return fmt.Errorf("line %d of writer %d is found %d times", k, g, s)
			}
		}
	}
	if err := limits(fs, top); err != nil {
		return err
	}
	rec.Label(len(fs) > 1, "rotated")
	rec.Label(c.Closers > 0, "closed while writing")
	rec.Nontrivial(len(c.Writers) > 1 && (len(fs) > 1 || c.Closers > 0))
	return nil
}

// ---------------------------------------------------------------- retention

type OldFile struct {
	Days int
	Min  int // minutes, added to the days
	Kind int // 0 this log's, 1.. not this log's
	Zip  bool
}

type KeepCase struct {
	Age    int
	Zone   int // quarter hours east of Greenwich
	Files  []OldFile
	Name   string
	Before int // days since the current file was last written
}

func genKeep(t *rapid.T) KeepCase {
	c := KeepCase{
		Age:    rapid.OneOf(rapid.SampledFrom([]int{-1, 0, 1, 2, 7, 31, 365}), rapid.IntRange(1, 40)).Draw(t, "age"),
		Zone:   rapid.OneOf(rapid.SampledFrom([]int{0, 32, -32, -20, 22, 56, -48}), rapid.IntRange(-48, 56)).Draw(t, "zone"),
		Name:   rapid.SampledFrom([]string{"app.log", "app", "a.b.log"}).Draw(t, "name"),
		Before: rapid.IntRange(1, 3).Draw(t, "before"),
	}
	a := c.Age
	if a < 1 {
		a = 5
	}
	c.Files = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) OldFile {
		return OldFile{
			Days: rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(a-1, a+1)).Draw(t, "days"),
			Min:  rapid.IntRange(1, 1439).Draw(t, "min"),
			Kind: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 4}).Draw(t, "whose"),
		}
	}), 1, 12).Draw(t, "files")
	return c
}

func runKeep(c KeepCase, rec *hx.Rec) error {
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	time.Local = time.FixedZone("gen", c.Zone*900)
	path := filepath.Join(dir, c.Name)
	now := time.Now()
	// The times of rotated files are made by the writer itself: rotate once and
	// see how this moment is written in the name.
	stem, form, err := naming(path)
	if err != nil {
		return err
	}
	if err := os.WriteFile(path, []byte("old line\n"), 0644); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	old := now.AddDate(0, 0, -c.Before)
	os.Chtimes(path, old, old)
	keep, drop := map[string]string{}, map[string]bool{}
	edge := now.AddDate(0, 0, -c.Age)
	for i, f := range c.Files {
		t := now.AddDate(0, 0, -f.Days).Add(-time.Duration(f.Min)*time.Minute + time.Duration(i)*time.Second)
		n := stem + t.Format(form) + ".zip"
		switch f.Kind {
		case 1:
			n = "other" + n
		case 2:
			n = n + ".bak"
		case 3:
			n = stem + t.Format(".2006-01-02") + ".zip"
		case 4:
			n = stem + "2" + t.Format(form) + ".zip"
		}
		body := fmt.Sprintf("file %d", i)
		if err := os.WriteFile(filepath.Join(dir, n), []byte(body), 0644); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		if d := t.Sub(edge); d > -2*time.Minute && d < 2*time.Minute {
			delete(keep, n)
			delete(drop, n)
			continue // too near
		}
		if f.Kind != 0 || c.Age <= 0 || t.After(edge) {
			keep[n] = body
			delete(drop, n)
		} else {
			drop[n] = true
			delete(keep, n)
		}
	}
	w := zutils.New(path)
	w.SetMaxAge(c.Age)
	if _, err := w.Write([]byte("new line\n")); err != nil {
		return err
	}
	if err := w.Close(); err != nil {
		return err
	}
	has := func(n string) bool { _, err := os.Stat(filepath.Join(dir, n)); return err == nil }
	if len(drop) > 0 {
		ok := hx.Wait(20*time.Second, func() bool {
			for n := range drop {
				if has(n) {
					return false
				}
			}
			return true
		})
		if !ok {
			return fmt.Errorf("files older than %d days are still there after the day changed", c.Age)
		}
	}
	time.Sleep(3 * time.Millisecond)
	for n, body := range keep {
		if b, err := os.ReadFile(filepath.Join(dir, n)); err != nil || string(b) != body {
			return fmt.Errorf("%s was deleted or changed (zone %v, files are kept for %d days, now is %v)", n, time.Duration(c.Zone)*15*time.Minute, c.Age, now)
		}
	}
	rec.Label(len(drop) > 0, "old files")
	rec.Label(c.Zone < 0, "west of Greenwich")
	rec.Nontrivial(len(keep) > 0 && len(drop) > 0)
	return nil
}

// naming finds out how the writer names a file it rotates.
func naming(path string) (stem, form string, err error) {
	d, clean, err := scratch()
	if err != nil {
		return "", "", err
	}
	defer clean()
	p := filepath.Join(d, filepath.Base(path))
	w := zutils.New(p)
	w.SetMaxSize(10)
	w.Write([]byte("0123456789\n"))
	w.Write([]byte("0123456789\n"))
	w.Close()
	es, _ := os.ReadDir(d)
	base := filepath.Base(path)
	stem = strings.TrimSuffix(base, filepath.Ext(base))
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".zip") || !strings.HasPrefix(n, stem) {
			continue
		}
		mid := strings.TrimSuffix(strings.TrimPrefix(n, stem), ".zip")
		for _, f := range []string{".2006-01-02-150405.000000", ".2006-01-02-150405.000000000", ".2006-01-02-150405.000", ".2006-01-02-150405"} {
			if t, err := time.ParseInLocation(f, mid, time.Local); err == nil && t.Format(f) == mid {
				return stem, f, nil
			}
		}
	}
	return "", "", errors.New("HARNESS: the names of rotated files are not understood")
}

// ---------------------------------------------------------------- crashes

type CrashCase struct {
	Limit int64
	Size  int
	Batch int
	Runs  []Kill // one process each, one after another on the same log
}

type Kill struct {
	Acks  int // batches acknowledged before it is killed
	Delay int // microseconds later
}

func genCrash(t *rapid.T) CrashCase {
	return CrashCase{
		Limit: rapid.SampledFrom([]int64{300, 1000, 5000, 60000}).Draw(t, "limit"),
		Size:  rapid.SampledFrom([]int{30, 100, 700, 5000}).Draw(t, "size"),
		Batch: rapid.SampledFrom([]int{1, 3, 10, 40}).Draw(t, "batch"),
		Runs: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Kill {
			return Kill{rapid.IntRange(0, 20).Draw(t, "acks"), rapid.IntRange(0, 1500).Draw(t, "delay")}
		}), 1, 3).Draw(t, "runs"),
	}
}

// child writes batches of lines, closes after each and acknowledges it.
func child() {
	a := strings.Split(os.Getenv("C21_CHILD"), ",")
	n := func(i int) int { x, _ := strconv.Atoi(a[i]); return x }
	path, limit, size, batch, k := a[0], n(1), n(2), n(3), n(4)
	w := zutils.New(path)
	w.SetMaxSize(int64(limit))
	for {
		for i := 0; i < batch; i++ {
			if _, err := w.Write([]byte(line(0, k, size) + "\n")); err != nil {
				fmt.Println("error", err)
				os.Exit(1)
			}
			k++
		}
		if err := w.Close(); err != nil {
			fmt.Println("error", err)
			os.Exit(1)
		}
		fmt.Println(k)
	}
}

// lag is how much earlier than b the name of the rotated file a is.
func lag(a, b string) time.Duration {
	at := func(n string) time.Time {
		n = strings.TrimSuffix(strings.TrimSuffix(n, ".zip"), ".log")
		t, err := time.Parse("2006-01-02-150405.000000", strings.TrimPrefix(n, "app."))
		if err != nil {
			return time.Time{}
		}
		return t
	}
	x, y := at(a), at(b)
	if x.IsZero() || y.IsZero() {
		return time.Hour
	}
	return y.Sub(x)
}

func runCrash(c CrashCase, rec *hx.Rec) error {
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	path := filepath.Join(dir, "app.log")
	exe, err := os.Executable()
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	// certain: lines that must be found; written: their numbers, in order
	type part struct{ from, acked int }
	var parts []part
	active := map[string]bool{} // first lines of the files that were open at a kill
	next := 0
	midway := false
	for _, r := range c.Runs {
		time.Sleep(12 * time.Millisecond)
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), fmt.Sprintf("C21_CHILD=%s,%d,%d,%d,%d", path, c.Limit, c.Size, c.Batch, next))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		runtime.LockOSThread()
		if err := cmd.Start(); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		p := part{from: next, acked: next}
		sc := bufio.NewScanner(out)
		read := func() bool {
			if !sc.Scan() {
				return false
			}
			if strings.HasPrefix(sc.Text(), "error") {
				err = errors.New(sc.Text())
				return false
			}
			p.acked, _ = strconv.Atoi(sc.Text())
			return true
		}
		for i := 0; i < r.Acks && read(); i++ {
		}
		if r.Acks > 0 || r.Delay%2 == 0 {
			time.Sleep(time.Duration(r.Delay) * time.Microsecond)
		} else {
			time.Sleep(time.Duration(r.Delay*20) * time.Microsecond)
		}
		cmd.Process.Kill()
		for read() {
		}
		cmd.Wait()
		runtime.UnlockOSThread()
		if err != nil {
			return fmt.Errorf("a writer failed: %v", err)
		}
		if b, err := os.ReadFile(path); err == nil {
			l, _, _ := strings.Cut(string(b), "\n")
			active[l] = true
		}
		parts = append(parts, p)
		next = p.acked + 1000000 // the next process's lines are told from these
	}
	// the last word: an orderly writer
	time.Sleep(12 * time.Millisecond)
	w := zutils.New(path)
	w.SetMaxSize(c.Limit)
	fin := part{from: next, acked: next + 5}
	for k := fin.from; k < fin.acked; k++ {
		if _, err := w.Write([]byte(line(0, k, c.Size) + "\n")); err != nil {
			return err
		}
	}
	if err := w.Close(); err != nil {
		return err
	}
	parts = append(parts, fin)
	fs, err := readBack(path)
	if err != nil {
		return err
	}
	// The file open at a kill is named after its modification time, which the file
	// system's clock gives: it may lag behind the name of the file before it.
	first := func(f file) (k int) {
		k = -1
		if len(f.lines) > 0 {
			fmt.Sscanf(f.lines[0], "w0#%d:", &k)
		}
		return
	}
	for i := len(fs) - 2; i >= 0; i-- {
		if len(fs[i].lines) == 0 || !active[fs[i].lines[0]] {
			continue
		}
		for j := i; j+1 < len(fs); j++ {
			k, x := first(fs[j+1]), first(fs[j])
			if k < 0 || k > x || x < 0 || lag(fs[j].name, fs[j+1].name) > 12*time.Millisecond {
				break
			}
			fs[j], fs[j+1] = fs[j+1], fs[j]
		}
	}
	count := map[int]int{}
	last := -1
	for _, f := range fs {
		for i, l := range f.lines {
			var k int
			if _, err := fmt.Sscanf(l, "w0#%d:", &k); err != nil || l != line(0, k, c.Size) {
				// a line cut by the crash, with the next one behind it, or at the end
				cut := false
				for _, p := range parts[:len(parts)-1] {
					_ = p
					cut = true
				}
				if j := strings.LastIndex(l, "w0#"); j > 0 {
					if _, err := fmt.Sscanf(l[j:], "w0#%d:", &k); err == nil && l[j:] == line(0, k, c.Size) {
						count[k]++
						midway = true
						if k <= last {
							return fmt.Errorf("%s: line %d comes after line %d", f.name, k, last)
						}
						last = k
						continue
					}
				}
				if cut && (i == len(f.lines)-1 || true) && strings.HasPrefix(l, "w0#") {
					midway = true
					continue
				}
				return fmt.Errorf("%s has a line that was not written: %q", f.name, short(l))
			}
			count[k]++
			if k <= last {
				return fmt.Errorf("%s: line %d comes after line %d", f.name, k, last)
			}
			last = k
		}
	}
	for i, p := range parts {
		for k := p.from; k < p.acked; k++ {
			if count[k] != 1 {
				return fmt.Errorf("line %d of process %d, written before it closed the log, is found %d times", k-p.from, i, count[k])
			}
		}
	}
	total := 0
	for _, p := range parts {
		total += p.acked - p.from
	}
	rec.Label(midway, "a line was cut by the kill")
	rec.Label(len(fs) > 2, "rotated")
	rec.Nontrivial(len(fs) > 2 && total > 10)
	return nil
}

// ---------------------------------------------------------------- faults

type FaultOp struct {
	Kind int // 0 write, 1 the directory goes away, 2 it comes back, 3 close
	Size int
	N    int
}

type FaultCase struct {
	Kind  int // 0 directory, 1 no room for the archive, 2 no room for anything
	Limit int64
	Room  int // kind 1: bytes a file may have above the limit
	Ops   []FaultOp
}

func genFault(t *rapid.T) FaultCase {
	return FaultCase{
		Kind:  rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "kind"),
		Limit: rapid.SampledFrom([]int64{200, 1000, 5000, 20000}).Draw(t, "limit"),
		Room:  rapid.IntRange(1, 400).Draw(t, "room"),
		Ops: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FaultOp {
			return FaultOp{rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 2, 3}).Draw(t, "kind"), size.Draw(t, "size"), rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(t, "n")}
		}), 1, 30).Draw(t, "ops"),
	}
}

func runFault(c FaultCase, rec *hx.Rec) error {
	top, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	dir := filepath.Join(top, "logs")
	path := filepath.Join(dir, "app.log")
	// what the writer says on the way is not looked at
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	errOut, stdOut := os.Stderr, os.Stdout
	os.Stderr, os.Stdout = null, null
	defer func() { os.Stderr, os.Stdout = errOut, stdOut; null.Close() }()
	w := zutils.New(path)
	w.SetMaxSize(c.Limit)
	if c.Kind == 2 {
		if err := os.Symlink("/dev/full", path); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		lost := false
		for i, op := range c.Ops {
			if op.Size >= int(c.Limit) {
				continue // it would be rotated away from the full device
			}
			if i > 3 {
				break
			}
			if _, err := w.Write([]byte(line(0, i, op.Size) + "\n")); err != nil {
				lost = true
				break
			}
			if err := w.Close(); err == nil {
				if fi, e := os.Lstat(path); e == nil && fi.Mode()&os.ModeSymlink != 0 {
					return errors.New("a line was written and the log closed without an error, and the line is lost: the device is full")
				}
			}
			lost = true
		}
		rec.Nontrivial(lost)
		return nil
	}
	if c.Kind == 1 {
		signal.Ignore(syscall.SIGXFSZ)
		var was syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &was); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		lim := was
		lim.Cur = uint64(c.Limit) + uint64(c.Room)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &was)
	}
	var sure []string // written and closed without error, or written and no fault since
	var open []string // written without error since the last close
	maybe := map[string]bool{}
	away, faults, failed := false, 0, 0
	k := 0
	for _, op := range c.Ops {
		switch op.Kind {
		case 0:
			for j := 0; j < op.N; j++ {
				n := op.Size
				if c.Kind == 1 {
					n = min(n, int(c.Limit)-1)
				}
				l := line(0, k, n)
				k++
				if _, err := w.Write([]byte(l + "\n")); err != nil {
					maybe[l] = true
					failed++
				} else {
					open = append(open, l)
				}
			}
		case 1:
			if c.Kind == 0 && !away {
				if os.Rename(dir, dir+".away") == nil {
					away = true
					faults++
				}
			}
		case 2:
			if away {
				os.Rename(dir+".away", dir)
				away = false
			}
		case 3:
			if err := w.Close(); err != nil {
				return fmt.Errorf("Close: %v", err)
			}
			sure = append(sure, open...)
			open = nil
		}
	}
	if away {
		os.Rename(dir+".away", dir)
	}
	if err := w.Close(); err != nil {
		return fmt.Errorf("Close: %v", err)
	}
	sure = append(sure, open...)
	os.Stderr, os.Stdout = errOut, stdOut
	if _, err := os.Stat(dir); err != nil && len(sure) == 0 {
		return nil
	}
	fs, err := readBack(path)
	if err != nil {
		return err
	}
	count := map[string]int{}
	for _, f := range fs {
		for _, l := range f.lines {
			count[l]++
		}
	}
	at := map[string]int{}
	for i, l := range sure {
		if count[l] != 1 {
			return fmt.Errorf("%q, which was written without an error, is found %d times", short(l), count[l])
		}
		at[l] = i
		delete(maybe, l)
	}
	// files are opened again within a step of the file system's clock here, so that their names
	// need not be in order; what is in one file is
	for _, f := range fs {
		prev := -1
		for _, l := range f.lines {
			if maybe[l] {
				continue
			}
			i, ok := at[l]
			if !ok {
				return fmt.Errorf("%q was never written", short(l))
			}
			if i != prev+1 && prev >= 0 {
				return fmt.Errorf("%q follows %q in %s", short(l), short(sure[prev]), f.name)
			}
			prev = i
		}
	}
	rec.Label(c.Kind == 0 && faults > 0, "the directory went away")
	rec.Label(failed > 0, "writes failed")
	rec.Label(c.Kind == 1 && len(fs) > 1, "rotated without room for the archive")
	rec.Nontrivial(len(sure) > 3 && (faults > 0 || c.Kind == 1 && len(fs) > 1))
	return nil
}

func main() {
	if os.Getenv("C21_CHILD") != "" {
		child()
		return
	}
	hx.Main(hx.Property{
		ID:   "C21",
		Rule: "histories: at least five lines and one rotation; days: the day changed and at least five lines; writers: several, with a rotation or a close among the writes; retention: some files to keep and some to delete; crashes: ten lines acknowledged and two rotations; faults: at least four lines accepted and a fault among them",
		Assumptions: []string{
			"one writer object per log file at a time",
			"restarts are further apart than the steps of the file system's clock (12 ms), for the order of files by name",
			"a killed process may lose what it wrote after its last flush or close, and may leave a rotated file both compressed and not",
		},
		Facets: []hx.Facet{
			hx.F("histories", 3000, 80000, gen, run),
			hx.F("days", 1600, 60000, genDays, runDays, hx.OneShot()),
			hx.F("writers", 1200, 30000, genRace, runRace),
			hx.F("retention", 4000, 80000, genKeep, runKeep),
			hx.F("crashes", 1000, 20000, genCrash, runCrash),
			hx.F("faults", 5000, 100000, genFault, runFault),
		},
	})
}
