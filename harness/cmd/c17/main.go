// C17: generated ids are unique and increasing.
package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zutils"
	"pgregory.net/rapid"

	"verif/hx"
)

type Case struct {
	Workers []int64 // distinct
	Procs   int
	G       int // goroutines per generator
	N       int // draws per goroutine
	Nap     int // microseconds slept now and then
}

func gen(t *rapid.T) Case {
	return Case{
		Workers: rapid.SliceOfNDistinct(rapid.OneOf(rapid.Int64Range(0, 1023), rapid.SampledFrom([]int64{0, 1, 2, 511, 512, 1022, 1023})), 1, 4, rapid.ID[int64]).Draw(t, "workers"),
		Procs:   rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
		G:       rapid.IntRange(1, 5).Draw(t, "g"),
		N:       rapid.SampledFrom([]int{1, 50, 1000, 5000, 9000}).Draw(t, "n"),
		Nap:     rapid.SampledFrom([]int{0, 0, 0, 300, 1100}).Draw(t, "nap"),
	}
}

func ms() int64 { return time.Now().UnixNano() / 1e6 }

func run(c Case, rec *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	type draws struct {
		w   int64
		ids []int64
		err error
	}
	var wg sync.WaitGroup
	var ready atomic.Int32
	total := len(c.Workers) * c.G
	out := make([]*draws, 0, total)
	for _, w := range c.Workers {
		gen, err := zutils.NewIDWorker(w)
		if err != nil || gen == nil {
			return fmt.Errorf("worker number %d is refused: %v", w, err)
		}
		for g := 0; g < c.G; g++ {
			d := &draws{w: w, ids: make([]int64, 0, c.N)}
			out = append(out, d)
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				ready.Add(1)
				for ready.Load() < int32(total) {
					runtime.Gosched()
				}
				last := int64(-1)
				for i := 0; i < c.N; i++ {
					if c.Nap > 0 && i%97 == 13 {
						time.Sleep(time.Duration(c.Nap) * time.Microsecond)
					}
					a := ms()
					id, err := gen.NextID()
					b := ms()
					if b < a {
						i--
						continue // the wall clock was set back
					}
					if err != nil {
						if ms() >= a && b == a { // clock steady
							d.err = fmt.Errorf("worker %d: NextID: %v", w, err)
							return
						}
						i--
						continue
					}
					if id < 0 || id>>12&1023 != w {
						d.err = fmt.Errorf("id %d of worker %d carries the worker number %d", id, w, id>>12&1023)
						return
					}
					if t := id >> 22; t < a || t > b {
						d.err = fmt.Errorf("id %d, drawn between %d and %d ms, carries the time %d", id, a, b, t)
						return
					}
					if id <= last {
						d.err = fmt.Errorf("worker %d: id %d was drawn after %d", w, id, last)
						return
					}
					last = id
					d.ids = append(d.ids, id)
				}
			}(g)
		}
	}
	wg.Wait()
	seen := make(map[int64]int64, total*c.N)
	full := false
	for _, d := range out {
		if d.err != nil {
			return d.err
		}
		for _, id := range d.ids {
			if w, ok := seen[id]; ok {
				return fmt.Errorf("id %d was drawn twice, from workers %d and %d", id, w, d.w)
			}
			seen[id] = d.w
			full = full || id&4095 == 4095
		}
	}
	rec.Label(full, "a millisecond was used up")
	rec.Label(len(c.Workers) > 1, "several generators")
	rec.Label(c.G > 1, "concurrent draws")
	rec.Nontrivial(c.G*c.N >= 1000)
	return nil
}

type Order struct {
	Procs int
	W     int64
	N     int
}

// runOrder: two goroutines take turns, so the order of their draws is known.
func runOrder(c Order, rec *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	g, err := zutils.NewIDWorker(c.W)
	if err != nil {
		return fmt.Errorf("worker number %d is refused: %v", c.W, err)
	}
	ids := make([]int64, c.N)
	var turn atomic.Int64
	var wg sync.WaitGroup
	var bad atomic.Bool
	for k := int64(0); k < 2; k++ {
		wg.Add(1)
		go func(k int64) {
			defer wg.Done()
			for i := k; i < int64(c.N); i += 2 {
				for turn.Load() != i {
					runtime.Gosched()
				}
				id, err := g.NextID()
				if err != nil {
					bad.Store(true)
				}
				ids[i] = id
				turn.Add(1)
			}
		}(k)
	}
	a := ms()
	wg.Wait()
	if ms() < a || bad.Load() {
		return nil
	}
	for i := 1; i < c.N; i++ {
		if ids[i] <= ids[i-1] {
			return fmt.Errorf("worker %d: draw %d gave %d, the draw before it %d", c.W, i, ids[i], ids[i-1])
		}
	}
	rec.Nontrivial(c.N >= 1000)
	return nil
}

type Num struct{ W int64 }

func runNum(c Num, rec *hx.Rec) error {
	g, err := zutils.NewIDWorker(c.W)
	ok := c.W >= 0 && c.W <= 1023
	if ok != (err == nil) || ok != (g != nil) {
		return fmt.Errorf("worker number %d: generator %v, error %v; the numbers are 0 to 1023", c.W, g, err)
	}
	if ok {
		id, err := g.NextID()
		if err != nil || id>>12&1023 != c.W {
			return fmt.Errorf("worker number %d: first id %d, error %v", c.W, id, err)
		}
	}
	rec.Label(ok, "allowed")
	rec.Nontrivial(c.W < 0 || c.W >= 512)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C17",
		Rule:        "draw: 1-4 generators with distinct worker numbers, 1-5 goroutines each, up to 9000 draws per goroutine (more than a millisecond holds): ids distinct over all generators, increasing per goroutine, each carrying its worker number and a time between the clock readings around the draw. order: two goroutines take turns, so the order of draws is known, and ids must increase in it. number: any worker number, accepted exactly for 0-1023. Non-trivial: at least 1000 draws per generator / a number outside 0-511.",
		Assumptions: []string{"the wall clock is not set back during a draw; draws during which it was are not judged"},
		Facets: []hx.Facet{
			hx.F("draw", 1000, 40000, gen, run, hx.Par(3)),
			hx.F("order", 300, 10000, func(t *rapid.T) Order {
				return Order{rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"), rapid.Int64Range(0, 1023).Draw(t, "w"), rapid.SampledFrom([]int{10, 1000, 9000}).Draw(t, "n")}
			}, runOrder, hx.Par(2)),
			hx.F("number", 2000, 20000, func(t *rapid.T) Num {
				return Num{rapid.OneOf(rapid.Int64Range(-3, 1030), rapid.Int64(), rapid.SampledFrom([]int64{-1, 0, 1023, 1024, 1 << 10, 1 << 20, 1 << 32, -1 << 63, 1<<63 - 1})).Draw(t, "w")}
			}, runNum),
		},
	})
}
