// C18: a timer fires once, on time, unless cancelled (in virtual time).
package main

import (
	"fmt"
	"reflect"
	"sync"
	"time"

	"github.com/aceld/zinx/ztimer"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// T is one timer.
type T struct {
	At     int64 // ms after the start at which it is created
	Sched  int
	Abs    bool  // CreateTimerAt
	Delay  int64 // ms
	US     int64 // additional microseconds
	Fn     string
	Cancel int64 // ms before (or after, if negative) its time at which it is cancelled; 0: not
	Twice  bool
	Args   int
}

type Case struct {
	Scheds []string // auto, manual
	Jitter uint64
	G      int // creating goroutines
	Start  int64
	Ts     []T
	Bogus  []int64 // times at which an unknown id is cancelled
}

func gen(t *rapid.T) Case      { return genScale(t, 0) }
func genHours(t *rapid.T) Case { return genScale(t, 2*3600e3) }
func genDay(t *rapid.T) Case   { return genScale(t, 13*3600e3) }

func genScale(t *rapid.T, scale int64) Case {
	c := Case{
		Scheds: rapid.SliceOfN(rapid.SampledFrom([]string{"auto", "auto", "manual"}), 1, 2).Draw(t, "scheds"),
		G:      rapid.IntRange(1, 4).Draw(t, "g"),
		Start:  rapid.SampledFrom([]int64{0, 1, 333, 999}).Draw(t, "start"),
	}
	// a case costs as much as the virtual time it covers
	switch q := rapid.IntRange(0, 199).Draw(t, "scale"); {
	case scale > 0:
	case q < 60:
		scale = 2e3
	case q == 101: // small and extreme values are drawn more often
		scale = 30 * 3600e3
	case q >= 90 && q < 97:
		scale = 2 * 3600e3
	case q < 150:
		scale = 70e3
	default:
		scale = 200e3
	}
	edge := rapid.Custom(func(t *rapid.T) int64 { // around the wheels' boundaries
		u := rapid.SampledFrom([]int64{50, 100, 1000, 60e3, 3600e3, 12 * 3600e3}).Draw(t, "u")
		if u > scale {
			u = scale / 2
		}
		k := rapid.Int64Range(0, max(1, min(3, scale/u))).Draw(t, "k")
		d := u*k + rapid.SampledFrom([]int64{-101, -100, -99, -51, -50, -1, 0, 0, 0, 1, 49, 50, 99, 100, 101, 500, 999}).Draw(t, "e")
		return d
	})
	tm := rapid.Custom(func(t *rapid.T) T {
		x := T{
			At:    rapid.OneOf(rapid.Int64Range(0, scale), edge, rapid.Just(int64(0))).Draw(t, "at"),
			Sched: rapid.IntRange(0, len(c.Scheds)-1).Draw(t, "s"),
			Abs:   rapid.Bool().Draw(t, "abs"),
			Delay: rapid.OneOf(rapid.Int64Range(0, scale), edge, edge).Draw(t, "d"),
			US:    rapid.SampledFrom([]int64{0, 0, 1, 500, 999}).Draw(t, "us"),
			Fn:    rapid.SampledFrom([]string{"plain", "plain", "plain", "panic", "block", "chain", "cancel"}).Draw(t, "fn"),
			Twice: rapid.Bool().Draw(t, "tw"),
			Args:  rapid.IntRange(0, 3).Draw(t, "args"),
		}
		if x.At < 0 {
			x.At = 0
		}
		if rapid.IntRange(0, 2).Draw(t, "cq") == 0 {
			x.Cancel = rapid.OneOf(rapid.Int64Range(1, max(1, x.Delay)), rapid.SampledFrom([]int64{101, 110, 200, 50, -500, 1000, 2000, 60e3})).Draw(t, "c")
		}
		return x
	})
	c.Ts = rapid.SliceOfN(tm, 1+int(scale/3600e3), 60).Draw(t, "ts")
	c.Bogus = rapid.SliceOfN(rapid.Int64Range(0, scale), 0, 2).Draw(t, "bogus")
	return c
}

type state struct {
	due    time.Time // truncated to ms
	made   time.Time
	id     uint32
	err    error
	fired  []time.Time
	args   []interface{}
	badArg bool
	cancel time.Time
}

const ms = time.Millisecond

func run(c Case, rec *hx.Rec) error {
	nx.Quiet(c.Jitter)
	return hx.Virtual(rec, func() error {
		time.Sleep(time.Duration(c.Start) * ms)
		var mu sync.Mutex
		never := make(chan int)
		ss := make([]*ztimer.TimerScheduler, len(c.Scheds))
		for i, k := range c.Scheds {
			if k == "auto" {
				ss[i] = ztimer.NewAutoExecTimerScheduler()
				continue
			}
			s := ztimer.NewTimerScheduler()
			s.Start()
			go func() {
				for df := range s.GetTriggerChan() {
					df.Call()
				}
			}()
			ss[i] = s
			time.Sleep(137 * ms) // the schedulers are out of phase
		}
		t0 := time.Now()
		st := make([]*state, len(c.Ts))
		chained := make([]*state, len(c.Ts))
		var create func(i int, x T, s *state) uint32
		create = func(i int, x T, s *state) uint32 {
			for k := 0; k < x.Args; k++ {
				s.args = append(s.args, fmt.Sprintf("a%d.%d", i, k))
			}
			fn := func(v ...interface{}) {
				mu.Lock()
				s.fired = append(s.fired, time.Now())
				if len(v) != len(s.args) || len(v) > 0 && !reflect.DeepEqual(v, s.args) {
					s.badArg = true
				}
				mu.Unlock()
				switch x.Fn {
				case "panic":
					panic("planted")
				case "block":
					if c.Scheds[x.Sched] == "auto" {
						<-never
					}
				case "chain": // creates another one
					y := x
					y.Fn, y.Cancel = "plain", 0
					n := &state{}
					create(i+1000, y, n)
					mu.Lock()
					chained[i] = n
					mu.Unlock()
				case "cancel": // a timer may cancel itself while it runs
					ss[x.Sched].CancelTimer(s.id)
				}
			}
			df := ztimer.NewDelayFunc(fn, append([]interface{}{}, s.args...))
			d := time.Duration(x.Delay)*ms + time.Duration(x.US)*time.Microsecond
			now := time.Now()
			mu.Lock()
			s.made = now
			s.due = time.UnixMilli(now.Add(d).UnixNano() / 1e6)
			mu.Unlock()
			var id uint32
			var err error
			if x.Abs {
				id, err = ss[x.Sched].CreateTimerAt(df, now.Add(d).UnixNano())
			} else {
				id, err = ss[x.Sched].CreateTimerAfter(df, d)
			}
			mu.Lock()
			s.id, s.err = id, err
			mu.Unlock()
			return id
		}
		end := time.Duration(0)
		var wg sync.WaitGroup
		for i, x := range c.Ts {
			s := &state{}
			st[i] = s
			chain := int64(1)
			if x.Fn == "chain" {
				chain = 2
			}
			if e := time.Duration(x.At+chain*max(0, x.Delay)+2) * ms; e > end {
				end = e
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(x.At) * ms)
				id := create(i, x, s)
				if x.Cancel != 0 {
					mu.Lock()
					w := s.due.Add(-time.Duration(x.Cancel) * ms).Sub(time.Now())
					mu.Unlock()
					time.Sleep(w)
					ss[x.Sched].CancelTimer(id)
					if x.Twice {
						ss[x.Sched].CancelTimer(id)
					}
					mu.Lock()
					s.cancel = time.Now()
					mu.Unlock()
				}
			}()
		}
		for _, b := range c.Bogus {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(b) * ms)
				for _, s := range ss {
					s.CancelTimer(1 << 30)
				}
			}()
		}
		wg.Wait()
		time.Sleep(end - time.Since(t0) + 3*time.Second)
		mu.Lock()
		defer mu.Unlock()
		ids := map[string]int{}
		ncancel, far := 0, false
		for i, s := range append(append([]*state{}, st...), chained...) {
			if s == nil {
				continue
			}
			x := c.Ts[i%len(c.Ts)]
			what := fmt.Sprintf("timer %d (%s, scheduler %d %s), created at %v for %v", i, x.Fn, x.Sched, c.Scheds[x.Sched], s.made.Sub(t0), s.due.Sub(t0))
			if i >= len(c.Ts) {
				what = "chained " + what
			}
			if s.err != nil {
				return fmt.Errorf("%s: creation failed: %v", what, s.err)
			}
			k := fmt.Sprintf("%d/%d", x.Sched, s.id)
			if j, ok := ids[k]; ok {
				return fmt.Errorf("%s: has the id %d of timer %d", what, s.id, j)
			}
			ids[k] = i
			if s.badArg {
				return fmt.Errorf("%s: was called with other arguments", what)
			}
			var fired []time.Duration
			for _, f := range s.fired {
				fired = append(fired, f.Sub(t0))
			}
			from := s.due
			if s.made.After(from) {
				from = s.made
			}
			n := len(fired)
			switch {
			case !s.cancel.IsZero() && s.cancel.Before(s.due.Add(-100*ms)):
				ncancel++
				if n != 0 {
					return fmt.Errorf("%s: was cancelled at %v, but ran at %v", what, s.cancel.Sub(t0), fired)
				}
				continue
			case !s.cancel.IsZero() && s.cancel.Before(from.Add(110*ms)):
				if n > 1 {
					return fmt.Errorf("%s: ran at %v", what, fired)
				}
			default:
				if n != 1 {
					return fmt.Errorf("%s: ran %d times %v", what, n, fired)
				}
			}
			for _, f := range s.fired {
				if f.Before(s.due.Add(-101 * ms)) {
					return fmt.Errorf("%s: ran early, at %v", what, f.Sub(t0))
				}
				if f.After(from.Add(110 * ms)) {
					return fmt.Errorf("%s: ran late, at %v", what, f.Sub(t0))
				}
			}
			far = far || x.Delay >= 60e3
		}
		rec.Label(ncancel > 0, "cancelled in time")
		rec.Label(far, "a minute or more")
		rec.Label(end > time.Hour, "an hour or more")
		rec.Label(end > 12*time.Hour, "12 hours or more")
		rec.Label(len(c.Scheds) > 1, "two schedulers")
		rec.Nontrivial(len(c.Ts) >= 3)
		return nil
	})
}

// ---- single timers

type One struct {
	Abs  bool
	D    int64 // ms
	US   int64
	Skew int64
	Fn   string
}

type OneCase struct{ Ts []One }

func genOne(t *rapid.T) OneCase {
	return OneCase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) One {
		return One{rapid.Bool().Draw(t, "abs"), rapid.OneOf(rapid.Int64Range(-1000, 5000), rapid.Int64Range(0, 40*3600e3)).Draw(t, "d"),
			rapid.Int64Range(0, 999).Draw(t, "us"), rapid.Int64Range(0, 999).Draw(t, "skew"), rapid.SampledFrom([]string{"plain", "panic", "block"}).Draw(t, "fn")}
	}), 1, 30).Draw(t, "ts")}
}

func runOne(c OneCase, rec *hx.Rec) error {
	nx.Quiet(0)
	return hx.Virtual(rec, func() error {
		var mu sync.Mutex
		fired := make([][]time.Time, len(c.Ts))
		due := make([]time.Time, len(c.Ts))
		never := make(chan int)
		for i, x := range c.Ts {
			time.Sleep(time.Duration(x.Skew) * time.Microsecond)
			d := time.Duration(x.D)*ms + time.Duration(x.US)*time.Microsecond
			df := ztimer.NewDelayFunc(func(v ...interface{}) {
				mu.Lock()
				fired[i] = append(fired[i], time.Now())
				mu.Unlock()
				if v[0].(int) != i {
					panic("argument")
				}
				switch x.Fn {
				case "panic":
					panic("planted")
				case "block":
					<-never
				}
			}, []interface{}{i})
			due[i] = time.Now().Add(d)
			if time.Now().After(due[i]) {
				due[i] = time.Now()
			}
			if x.Abs {
				ztimer.NewTimerAt(df, time.Now().Add(d).UnixNano()).Run()
			} else {
				ztimer.NewTimerAfter(df, d).Run()
			}
		}
		time.Sleep(41 * time.Hour)
		mu.Lock()
		defer mu.Unlock()
		for i, f := range fired {
			if len(f) != 1 {
				return fmt.Errorf("timer %d ran %d times", i, len(f))
			}
			if d := f[0].Sub(due[i]); d < -2*ms || d > 2*ms {
				return fmt.Errorf("timer %d (%+v) ran %v after its time", i, c.Ts[i], d)
			}
		}
		rec.Nontrivial(len(c.Ts) > 2)
		return nil
	})
}

func main() {
	hx.Main(hx.Property{
		ID:          "C18",
		Rule:        "wheel (hours, day: with longer delays): in virtual time, up to 60 timers on 1-2 schedulers (self-executing, or with a consumer of the trigger channel), created concurrently at generated moments with delays from below zero to 30 hours, many at the edges of the wheels' slots (1 s, 1 min, 1 h, 12 h), some cancelled (once, twice, by an unknown id), functions that return, panic, block for ever, create another timer or cancel themselves. Oracle: runs exactly once with its arguments, no earlier than 101 ms before and no later than 110 ms after its time (or creation, if later); never, if cancelled more than 100 ms before its time; ids are distinct. single: timers run without a scheduler, within 2 ms. Non-trivial: at least 3 timers.",
		Assumptions: []string{"virtual time: goroutines run in no time, sleeps are exact", "a manual scheduler's consumer keeps reading and its functions return"},
		Facets: []hx.Facet{
			hx.F("wheel", 2000, 100000, gen, run, hx.OneShot(), hx.Timeout(240*time.Second)),
			hx.F("hours", 48, 3000, genHours, run, hx.OneShot(), hx.Timeout(240*time.Second)),
			hx.F("day", 10, 1000, genDay, run, hx.OneShot(), hx.Timeout(400*time.Second)),
			hx.F("single", 800, 30000, genOne, runOne, hx.OneShot()),
		},
	})
}
