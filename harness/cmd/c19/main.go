// C19: asynchronous operations run once and complete exactly once.
package main

import (
	"errors"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zasync_op"
	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---------------------------------------------------------------- operations

type Op struct {
	Id    int // index into Ids
	Kind  int // 0 plain, 1 panics, 2 yields, 3 naps, 4 submits another, 5 panics with an error
	Then  int // id index of the operation submitted from inside
	Delay int // yields before it is submitted
}

type OpsCase struct {
	Procs int
	Ids   []int
	Subs  [][]Op
	Burst int // operations of the first id submitted while its first one is held
}

var ids = rapid.OneOf(
	rapid.IntRange(-5000, 5000),
	rapid.SampledFrom([]int{0, 1, -1, 2047, 2048, 2049, -2047, -2048, -2049, 4096, -4096, math.MaxInt, math.MinInt, math.MinInt + 1, math.MaxInt - 2047, math.MinInt + 2048, math.MaxInt32, math.MinInt32, 1 << 32, -(1 << 32)}),
	rapid.Int(),
)

func genOps(t *rapid.T) OpsCase {
	c := OpsCase{Procs: rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs")}
	c.Ids = rapid.SliceOfNDistinct(ids, 1, 5, rapid.ID[int]).Draw(t, "ids")
	if rapid.Bool().Draw(t, "congruent") {
		if v := c.Ids[0] ^ 2048; len(c.Ids) < 5 {
			for _, w := range c.Ids {
				if w == v {
					v = c.Ids[0]
				}
			}
			if v != c.Ids[0] {
				c.Ids = append(c.Ids, v)
			}
		}
	}
	ix := rapid.IntRange(0, len(c.Ids)-1)
	n := rapid.IntRange(1, 4).Draw(t, "submitters")
	for i := 0; i < n; i++ {
		c.Subs = append(c.Subs, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
			return Op{Id: ix.Draw(t, "id"), Kind: rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 4, 5}).Draw(t, "kind"), Then: ix.Draw(t, "then"), Delay: rapid.IntRange(0, 3).Draw(t, "delay")}
		}), 1, 40).Draw(t, "ops"))
	}
	c.Burst = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 20, 300, 2047, 2048, 2049, 2100, 5000}).Draw(t, "burst")
	return c
}

type rec struct {
	id           int
	sub, subEnd  int64 // logical times
	begin, end   int64
	runs         atomic.Int32
	desc         string
	insideSubmit bool
}

func runOps(c OpsCase, r *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	nx.Quiet(0)
	var clock atomic.Int64
	var mu sync.Mutex
	var all []*rec
	var pending sync.WaitGroup
	busy := make([]atomic.Int32, len(c.Ids)) // running operations of each id
	var firstErr atomic.Value
	fail := func(f string, a ...any) {
		firstErr.CompareAndSwap(nil, fmt.Errorf(f, a...))
	}
	gate := make(chan struct{})
	var submit func(idIx, kind, then int, desc string, inside, gated bool) *rec
	submit = func(idIx, kind, then int, desc string, inside, gated bool) *rec {
		o := &rec{id: idIx, desc: desc, insideSubmit: inside}
		mu.Lock()
		all = append(all, o)
		mu.Unlock()
		pending.Add(1)
		o.sub = clock.Add(1)
		err := hx.Call(func() {
			zasync_op.Process(c.Ids[idIx], func() {
				begin := clock.Add(1)
				if o.runs.Add(1) > 1 {
					fail("operation %s of id %d ran twice", desc, c.Ids[idIx])
					return
				}
				o.begin = begin
				if b := busy[idIx].Add(1); b > 1 {
					fail("%d operations of id %d ran at the same time", b, c.Ids[idIx])
				}
				defer pending.Done()
				defer func() {
					busy[idIx].Add(-1)
					o.end = clock.Add(1)
				}()
				if gated {
					<-gate
				}
				switch kind {
				case 1:
					panic("generated panic of " + desc)
				case 2:
					for i := 0; i < 5; i++ {
						runtime.Gosched()
					}
				case 3:
					time.Sleep(50 * time.Microsecond)
				case 4:
					if c.Burst > 1000 {
						break // an operation cannot wait for room in the queue it is served from
					}
					submit(then, 0, 0, desc+" (from inside)", true, false)
				case 5:
					panic(errors.New("generated error of " + desc))
				}
			})
		})
		o.subEnd = clock.Add(1)
		if err != nil {
			pending.Done()
			fail("submitting %s with id %d: %v", desc, c.Ids[idIx], err)
		}
		return o
	}

	burst := make(chan struct{})
	if c.Burst > 0 {
		submit(0, 0, 0, "held", false, true)
		go func() {
			defer close(burst)
			for i := 0; i < c.Burst; i++ {
				submit(0, 0, 0, fmt.Sprintf("burst %d", i), false, false)
			}
		}()
		// the operation is held until the queue has filled or the burst is in
		select {
		case <-burst:
		case <-time.After(15 * time.Millisecond):
		}
		close(gate)
	} else {
		close(burst)
		close(gate)
	}
	var wg sync.WaitGroup
	for s, ops := range c.Subs {
		wg.Add(1)
		go func(s int, ops []Op) {
			defer wg.Done()
			for i, op := range ops {
				for k := 0; k < op.Delay; k++ {
					runtime.Gosched()
				}
				submit(op.Id, op.Kind, op.Then, fmt.Sprintf("%d of submitter %d", i, s), false, false)
			}
		}(s, ops)
	}
	wg.Wait()
	<-burst
	done := make(chan struct{})
	go func() { pending.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(nx.Patience):
		if e := firstErr.Load(); e != nil {
			return e.(error)
		}
		n := 0
		var one *rec
		mu.Lock()
		for _, o := range all {
			if o.runs.Load() == 0 {
				n++
				one = o
			}
		}
		mu.Unlock()
		if one == nil {
			return fmt.Errorf("operations did not end")
		}
		return fmt.Errorf("%d operations never ran, among them %s of id %d", n, one.desc, c.Ids[one.id])
	}
	if e := firstErr.Load(); e != nil {
		return e.(error)
	}
	// order: one that was accepted before another was submitted runs before it
	inside, busyIds := 0, map[int]int{}
	byId := map[int][]*rec{}
	for _, o := range all {
		byId[o.id] = append(byId[o.id], o)
		busyIds[o.id]++
		if o.insideSubmit {
			inside++
		}
	}
	for id, os := range byId {
		// all is appended to under a lock just before submission: sort by run order
		// and check that nothing run later was accepted before an earlier run was submitted
		sorted := append([]*rec{}, os...)
		for i := 1; i < len(sorted); i++ {
			for j := i; j > 0 && sorted[j].begin < sorted[j-1].begin; j-- {
				sorted[j], sorted[j-1] = sorted[j-1], sorted[j]
			}
		}
		maxSub, who := int64(-1), (*rec)(nil)
		for _, o := range sorted {
			if who != nil && o.subEnd < maxSub {
				return fmt.Errorf("id %d: %s was accepted before %s was submitted, and ran after it", c.Ids[id], o.desc, who.desc)
			}
			if o.sub > maxSub {
				maxSub, who = o.sub, o
			}
		}
		for i := 1; i < len(sorted); i++ {
			if sorted[i].begin < sorted[i-1].end {
				return fmt.Errorf("id %d: %s began before %s ended", c.Ids[id], sorted[i].desc, sorted[i-1].desc)
			}
		}
	}
	// nothing runs a second time later: another operation behind all of them
	flush := make(chan struct{}, len(c.Ids))
	for _, id := range c.Ids {
		zasync_op.Process(id, func() { flush <- struct{}{} })
	}
	for range c.Ids {
		select {
		case <-flush:
		case <-time.After(nx.Patience):
			return errors.New("an operation submitted at the end never ran")
		}
	}
	for _, o := range all {
		if n := o.runs.Load(); n != 1 {
			return fmt.Errorf("operation %s of id %d ran %d times", o.desc, c.Ids[o.id], n)
		}
	}
	r.Label(c.Burst > 2048, "more than a queue of operations waited")
	r.Label(inside > 0, "operations submitted by operations")
	for _, id := range c.Ids {
		r.Label(id < 0, "negative id")
		r.Label(id == math.MinInt, "smallest id")
	}
	r.Label(len(c.Subs) > 1, "several submitters")
	most := 0
	for _, n := range busyIds {
		most = max(most, n)
	}
	r.Nontrivial(most >= 3 && len(all) >= 8)
	return nil
}

// ---------------------------------------------------------------- results

type Res struct {
	Conn    int
	Order   int // 0 result first, 1 callback first, 2 at once
	Sets    int // how often the result is set
	Cbs     int // how often a callback is registered
	Nil     bool
	Via     int // 0 plain goroutine, 1 an asynchronous operation, 2 the connection's own handler
	Panic   bool
	Skew    int
	Blocked bool // the connection's worker is held meanwhile
}

type ResCase struct {
	Conf  nx.Conf
	Conns int
	Live  bool
	Procs int
	Res   []Res
	Race  bool // all results at once
}

func genRes(t *rapid.T) ResCase {
	var c ResCase
	c.Procs = rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs")
	c.Conns = rapid.IntRange(1, 4).Draw(t, "conns")
	c.Live = rapid.Bool().Draw(t, "live")
	c.Conf.Transport = rapid.SampledFrom([]string{"tcp", "ws"}).Draw(t, "transport")
	c.Conf.Pool = rapid.SampledFrom([]uint32{0, 1, 2, 3, 4, 8}).Draw(t, "pool")
	if c.Live {
		c.Conf.Mode = rapid.SampledFrom([]string{"", "Bind", "DynamicBind"}).Draw(t, "mode")
	}
	c.Conf.MaxConn = 8
	c.Conf.TaskLen = rapid.SampledFrom([]uint32{1, 2, 10, 1024}).Draw(t, "tasklen")
	c.Race = rapid.Bool().Draw(t, "race")
	c.Res = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Res {
		return Res{
			Conn:    rapid.IntRange(0, c.Conns-1).Draw(t, "conn"),
			Order:   rapid.IntRange(0, 2).Draw(t, "order"),
			Sets:    rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "sets"),
			Cbs:     rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "cbs"),
			Nil:     rapid.IntRange(0, 5).Draw(t, "nil") == 3,
			Via:     rapid.IntRange(0, 2).Draw(t, "via"),
			Panic:   rapid.IntRange(0, 5).Draw(t, "panic") == 3,
			Skew:    rapid.IntRange(0, 300).Draw(t, "skew"),
			Blocked: rapid.IntRange(0, 3).Draw(t, "blocked") == 2,
		}
	}), 1, 10).Draw(t, "res")
	return c
}

type result struct {
	mu    sync.Mutex
	calls []string
	seen  []interface{}
}

func spin(n int) {
	for i := 0; i < n; i++ {
		runtime.KeepAlive(i)
	}
}

func runRes(c ResCase, r *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	nx.Quiet(0)
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	type held struct {
		conn ziface.IConnection
		in   chan struct{}
		out  chan struct{}
		do   func()
	}
	var mu sync.Mutex
	next := map[byte]*held{}   // what the next handler of a connection does
	active := map[uint64]int{} // handlers and callbacks running, per connection
	var overlap error
	enter := func(id uint64) {
		mu.Lock()
		active[id]++
		if active[id] > 1 && c.Conf.Pool > 0 {
			overlap = fmt.Errorf("a callback and a handler of one connection ran at the same time")
		}
		mu.Unlock()
	}
	leave := func(id uint64) {
		mu.Lock()
		active[id]--
		mu.Unlock()
	}
	nx.Route(s, false, 1, func(q ziface.IRequest) {
		k := q.GetData()[0]
		id := q.GetConnection().GetConnID()
		mu.Lock()
		h := next[k]
		mu.Unlock()
		enter(id)
		h.conn = q.GetConnection()
		if h.do != nil {
			h.do()
		}
		close(h.in)
		<-h.out
		leave(id)
	})
	feed, err := nx.NewFeed(s, c.Conf, c.Live, c.Conns)
	if err != nil {
		return err
	}
	defer func() {
		feed.Close()
		if c.Live {
			s.Stop()
		}
	}()
	var hn byte
	// handle runs do in a handler of connection i, and keeps it busy until out is closed.
	handle := func(i int, do func(), hold bool) (*held, error) {
		h := &held{in: make(chan struct{}), out: make(chan struct{}), do: do}
		if !hold {
			close(h.out)
		}
		mu.Lock()
		hn++
		k := hn
		next[k] = h
		mu.Unlock()
		if err := feed.Send(i, 1, []byte{k}); err != nil {
			return nil, err
		}
		select {
		case <-h.in:
		case <-time.After(nx.Patience):
			return nil, fmt.Errorf("a handler of connection %d was not run", i)
		}
		return h, nil
	}
	conns := make([]ziface.IConnection, c.Conns)
	for i := range conns {
		h, err := handle(i, nil, false)
		if err != nil {
			return err
		}
		conns[i] = h.conn
	}
	var firstErr atomic.Value
	fail := func(f string, a ...any) { firstErr.CompareAndSwap(nil, fmt.Errorf(f, a...)) }

	one := func(k int, q Res, alone bool) {
		conn := conns[q.Conn]
		aor := zasync_op.NewAsyncOpResult(conn)
		res := &result{}
		val := func(i int) interface{} {
			if q.Nil {
				return nil
			}
			return fmt.Sprintf("object %d of result %d", i, k)
		}
		cb := func(i int) func() {
			return func() {
				enter(conn.GetConnID())
				got := aor.GetReturnedObj()
				res.mu.Lock()
				res.calls = append(res.calls, fmt.Sprintf("callback %d", i))
				res.seen = append(res.seen, got)
				res.mu.Unlock()
				runtime.Gosched()
				leave(conn.GetConnID())
				if q.Panic {
					panic("generated panic of a callback")
				}
			}
		}
		ran := func() int { res.mu.Lock(); defer res.mu.Unlock(); return len(res.calls) }
		sets := func() {
			for i := 0; i < q.Sets; i++ {
				aor.SetReturnedObj(val(i))
			}
		}
		cbs := func() {
			for i := 0; i < q.Cbs; i++ {
				aor.OnComplete(cb(i))
			}
		}
		var block *held
		if q.Blocked && alone && c.Conf.Pool > 0 {
			var err error
			if block, err = handle(q.Conn, nil, true); err != nil {
				fail("%v", err)
				return
			}
		}
		// in runs f by the way the case asks for and returns when it has ended
		in := func(f func()) error {
			via := q.Via
			if via == 2 && (!alone || block != nil) {
				via = 1
			}
			end := make(chan error, 1)
			switch via {
			case 0:
				go func() { end <- hx.Call(f) }()
			case 1:
				zasync_op.Process(k, func() { end <- hx.Call(f) })
			case 2:
				var err error
				if _, e := handle(q.Conn, func() { err = hx.Call(f) }, false); e != nil {
					return e
				}
				return err
			}
			// with its worker held, a full queue makes the submitter wait
			select {
			case err := <-end:
				return err
			case <-time.After(nx.Patience):
				return errors.New("setting the result did not return")
			}
		}
		step := func(f func()) bool {
			if err := in(f); err != nil {
				fail("result %d: %v", k, err)
				return false
			}
			return true
		}
		switch q.Order {
		case 0:
			if !step(sets) {
				return
			}
			if n := ran(); n != 0 {
				fail("result %d: a callback ran before one was registered", k)
				return
			}
			cbs()
		case 1:
			cbs()
			if q.Skew%2 == 0 {
				time.Sleep(time.Millisecond)
			}
			if n := ran(); n != 0 {
				fail("result %d: the callback ran before there was a result", k)
				return
			}
			if !step(sets) {
				return
			}
		case 2:
			var wg sync.WaitGroup
			var ready atomic.Int32
			at := func(f func(), n int) {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ready.Add(1)
					for ready.Load() < 2 {
						runtime.Gosched()
					}
					spin(n)
					if err := hx.Call(f); err != nil {
						fail("result %d: %v", k, err)
					}
				}()
			}
			at(sets, q.Skew)
			at(cbs, 300-q.Skew)
			wg.Wait()
		}
		if firstErr.Load() != nil {
			return
		}
		if block != nil {
			time.Sleep(8 * time.Millisecond)
			if n := ran(); n != 0 {
				fail("result %d: the callback ran while the worker of its connection was held by a handler", k)
				return
			}
			// other workers are not held
			for i, o := range conns {
				if o.GetWorkerID() == conn.GetWorkerID() {
					continue
				}
				done := make(chan struct{})
				other := zasync_op.NewAsyncOpResult(o)
				other.OnComplete(func() { close(done) })
				other.SetReturnedObj(1)
				select {
				case <-done:
				case <-time.After(nx.Patience):
					fail("the callback of a result of connection %d did not run while the worker of connection %d was held", i, q.Conn)
					close(block.out)
					return
				}
			}
			close(block.out)
		}
		if !hx.Wait(nx.Patience, func() bool { return ran() > 0 }) {
			fail("result %d: the callback never ran", k)
			return
		}
		// push something through the worker, so that a second call would have come
		done := make(chan struct{})
		f := zasync_op.NewAsyncOpResult(conn)
		f.SetReturnedObj(1)
		f.OnComplete(func() { close(done) })
		select {
		case <-done:
		case <-time.After(nx.Patience):
			fail("the callback of a later result never ran")
			return
		}
		res.mu.Lock()
		defer res.mu.Unlock()
		if len(res.calls) != 1 {
			fail("result %d: %d callbacks ran: %v", k, len(res.calls), res.calls)
			return
		}
		if res.calls[0] != "callback 0" {
			fail("result %d: %s ran, callback 0 was registered first", k, res.calls[0])
			return
		}
		if res.seen[0] != val(0) {
			fail("result %d: the callback saw the object %v, %v was set first", k, res.seen[0], val(0))
			return
		}
		if got := aor.GetReturnedObj(); got != val(0) {
			fail("result %d: the returned object is %v afterwards", k, got)
		}
	}
	if c.Race {
		var wg sync.WaitGroup
		for k, q := range c.Res {
			wg.Add(1)
			go func() { defer wg.Done(); one(k, q, false) }()
		}
		wg.Wait()
	} else {
		for k, q := range c.Res {
			one(k, q, true)
			if firstErr.Load() != nil {
				break
			}
		}
	}
	if e := firstErr.Load(); e != nil {
		return e.(error)
	}
	mu.Lock()
	defer mu.Unlock()
	if overlap != nil {
		return overlap
	}
	for _, q := range c.Res {
		r.Label(q.Order == 0, "result first")
		r.Label(q.Order == 1, "callback first")
		r.Label(q.Order == 2, "result and callback at once")
		r.Label(q.Sets > 1, "result set again")
		r.Label(q.Cbs > 1, "callback registered again")
		r.Label(q.Panic, "callback panics")
		r.Label(q.Via == 2 && !c.Race, "result set by a handler")
		r.Label(q.Blocked && !c.Race && c.Conf.Pool > 0, "worker held")
	}
	r.Label(c.Conf.Pool == 0, "no worker pool")
	r.Label(c.Live, "sockets")
	r.Nontrivial(len(c.Res) >= 2)
	return nil
}

// ---------------------------------------------------------------- tight races

type HotCase struct {
	Procs int
	N     int
	Skew  int
	Step  int
}

func genHot(t *rapid.T) HotCase {
	return HotCase{
		Procs: rapid.SampledFrom([]int{2, 3, 8}).Draw(t, "procs"),
		N:     rapid.SampledFrom([]int{2000, 10000}).Draw(t, "n"),
		Skew:  rapid.IntRange(0, 200).Draw(t, "skew"),
		Step:  rapid.IntRange(0, 5).Draw(t, "step"),
	}
}

func runHot(c HotCase, r *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	nx.Quiet(0)
	s, err := nx.Server(nx.Conf{Transport: "tcp", Pool: 2, TaskLen: 64, MaxConn: 4})
	if err != nil {
		return err
	}
	feed, err := nx.NewFeed(s, nx.Conf{Pool: 2}, false, 2)
	if err != nil {
		return err
	}
	_ = feed
	conn := &nx.FakeConn{ID: 1, Worker: 1, MH: s.GetMsgHandler(), Addr: "0.0.0.0:1"}
	type cell struct {
		r    *zasync_op.AsyncOpResult
		n    atomic.Int32
		miss atomic.Int32
	}
	cells := make([]*cell, c.N)
	for i := range cells {
		cells[i] = &cell{r: zasync_op.NewAsyncOpResult(conn)}
	}
	var turn [2]atomic.Int64
	var wg sync.WaitGroup
	both := func(me, i int) {
		turn[me].Store(int64(i + 1))
		for k := 0; turn[1-me].Load() < int64(i+1); k++ {
			if k > 200 {
				runtime.Gosched()
			}
		}
	}
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i, x := range cells {
			both(0, i)
			spin((c.Skew + c.Step*i) % 200)
			x.r.SetReturnedObj(i)
		}
	}()
	go func() {
		defer wg.Done()
		for i, x := range cells {
			f := func() {
				x.n.Add(1)
				if x.r.GetReturnedObj() != i {
					x.miss.Store(1)
				}
			}
			both(1, i)
			spin(100)
			x.r.OnComplete(f)
		}
	}()
	wg.Wait()
	done := make(chan struct{})
	f := zasync_op.NewAsyncOpResult(conn)
	f.SetReturnedObj(1)
	f.OnComplete(func() { close(done) })
	select {
	case <-done:
	case <-time.After(nx.Patience):
		return errors.New("the callback of a later result never ran")
	}
	for i, x := range cells {
		if n := x.n.Load(); n != 1 {
			return fmt.Errorf("round %d, result and callback set at once: the callback ran %d times", i, n)
		}
		if x.miss.Load() != 0 {
			return fmt.Errorf("round %d, result and callback set at once: the callback ran without the returned object", i)
		}
	}
	r.Nontrivial(true)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:   "C19",
		Rule: "operations: one id has at least three operations and eight are submitted in all; results: at least two results; races: every case is at least 2000 results completed and awaited at once",
		Assumptions: []string{
			"operations return (an operation that never ends holds the later ones of its id)",
			"the connection of a result lives until its callback has run",
			"operations with different ids may share a worker",
			"a queue holds 2048 operations, and submitting to a full one waits: operations do not submit to a queue that is full",
		},
		Facets: []hx.Facet{
			hx.F("ops", 12000, 400000, genOps, runOps),
			hx.F("results", 8000, 250000, genRes, runRes, hx.OneShot()),
			hx.F("races", 800, 30000, genHot, runHot, hx.Par(3)),
		},
	})
}
