package main

// The list of close callbacks: any history of additions and removals, by several parties, on every kind of connection.

import (
	"fmt"
	"sync"

	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// CB adds (or, with Rm, removes) the callback with this handler and key.
type CB struct {
	H, K int
	Rm   bool
	Nil  bool // add nothing (a nil callback)
}

type CBConn struct {
	Hook []CB   // in the start hook
	Par  [][]CB // then by several parties at once, with handlers of their own
	End  string
}

type CBCase struct {
	Tr     string
	Jitter uint64
	Procs  int
	Conns  []CBConn
}

func genCB(t *rapid.T) CBCase {
	c := CBCase{Tr: rapid.SampledFrom([]string{"tcp", "tcp", "ws", "kcp"}).Draw(t, "tr"), Procs: rapid.SampledFrom([]int{1, 4}).Draw(t, "procs")}
	if rapid.Bool().Draw(t, "jq") {
		c.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	ops := func(lo, hi, n int) *rapid.Generator[[]CB] {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CB {
			return CB{rapid.IntRange(lo, hi).Draw(t, "h"), rapid.IntRange(0, 2).Draw(t, "k"), rapid.IntRange(0, 4).Draw(t, "rm") < 2, rapid.IntRange(0, 15).Draw(t, "nil") == 0}
		}), 0, n)
	}
	c.Conns = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) CBConn {
		k := CBConn{Hook: ops(0, 2, 16).Draw(t, "hook"), End: rapid.SampledFrom([]string{"stop", "stop2", "close"}).Draw(t, "end")}
		for i := 0; i < rapid.IntRange(0, 3).Draw(t, "par"); i++ {
			lo := 10 * (i + 1)
			if i == 0 {
				lo = 0 // the first party goes on with the handlers of the hook
			}
			k.Par = append(k.Par, ops(lo, lo+2, 12).Draw(t, "ops"))
		}
		if c.Tr == "kcp" && k.End == "close" {
			k.End = "stop"
		}
		return k
	}), 1, 8).Draw(t, "conns")
	return c
}

// cbModel is what has to be called at the end: pair -> how often added and not removed (0 or 1: a pair in use is not
// added again), and every instance ever added.
type cbModel struct {
	mu   sync.Mutex
	cur  map[[2]int]int // pair -> instance
	runs []int          // instance -> runs
	live []bool         // instance -> still registered
	pair [][2]int
}

func (m *cbModel) do(cn ziface.IConnection, ops []CB) {
	for _, o := range ops {
		p := [2]int{o.H, o.K}
		m.mu.Lock()
		id, in := m.cur[p]
		switch {
		case o.Rm:
			if in {
				m.live[id] = false
				delete(m.cur, p)
			}
		case o.Nil || in:
			m.mu.Unlock()
			if o.Nil {
				cn.AddCloseCallback(o.H, o.K, nil)
			}
			continue
		default:
			id = len(m.runs)
			m.cur[p] = id
			m.runs, m.live, m.pair = append(m.runs, 0), append(m.live, true), append(m.pair, p)
		}
		m.mu.Unlock()
		if o.Rm {
			cn.RemoveCloseCallback(o.H, o.K)
		} else {
			cn.AddCloseCallback(o.H, o.K, func() { m.mu.Lock(); m.runs[id]++; m.mu.Unlock() })
		}
	}
}

func runCB(c CBCase, rec *hx.Rec) error {
	s, err := nx.Server(nx.Conf{Transport: c.Tr, Pool: 1, MaxConn: 100, Jitter: c.Jitter, Procs: c.Procs})
	if err != nil {
		return err
	}
	started := make(chan ziface.IConnection, 100)
	var ms []*cbModel
	cur := 0
	s.SetOnConnStart(func(cn ziface.IConnection) {
		if cur < len(ms) { // connections are made one at a time
			ms[cur].do(cn, c.Conns[cur].Hook)
		}
		started <- cn
	})
	for range c.Conns {
		ms = append(ms, &cbModel{cur: map[[2]int]int{}})
	}
	if pan := hx.Call(s.Start); pan != nil {
		return fmt.Errorf("start: %v", pan)
	}
	if err := nx.Up(c.Tr); err != nil {
		return err
	}
	again := false
	for i, k := range c.Conns {
		cur = i
		p, err := nx.Dial(c.Tr)
		if err != nil {
			return fmt.Errorf("HARNESS: dial: %v", err)
		}
		if c.Tr == "kcp" {
			_ = p.Write(nx.TLV(77, nil), nil)
		}
		cn := <-started
		var wg sync.WaitGroup
		for _, ops := range k.Par {
			wg.Add(1)
			go func(ops []CB) { defer wg.Done(); ms[i].do(cn, ops) }(ops)
		}
		wg.Wait()
		m := ms[i]
		switch k.End {
		case "close":
			p.Close()
		case "stop2":
			go cn.Stop()
			cn.Stop()
		default:
			cn.Stop()
		}
		why := ""
		check := func() bool {
			m.mu.Lock()
			defer m.mu.Unlock()
			why = ""
			for id, n := range m.runs {
				if want := map[bool]int{true: 1}[m.live[id]]; n != want {
					why = fmt.Sprintf("connection %d (%s, ended by %s): the close callback added as number %d (handler %d, key %d) ran %d times, expected %d", i, c.Tr, k.End, id, m.pair[id][0], m.pair[id][1], n, want)
				}
			}
			return why == ""
		}
		if !hx.Wait(nx.Patience, func() bool { return check() && cn.Context().Err() != nil }) {
			return fmt.Errorf("%s (context: %v)", why, cn.Context().Err())
		}
		removed := false
		for _, o := range append(append([]CB{}, k.Hook...), flat(k.Par)...) {
			if !o.Rm && removed {
				again = true
			}
			removed = removed || o.Rm
		}
		p.Close()
	}
	for i, m := range ms { // nothing runs later either
		m.mu.Lock()
		for id, n := range m.runs {
			if n > 1 || (!m.live[id] && n > 0) {
				m.mu.Unlock()
				return fmt.Errorf("connection %d: callback %d ran %d times", i, id, n)
			}
		}
		m.mu.Unlock()
	}
	rec.Nontrivial(again)
	return nil
}

func flat(x [][]CB) (r []CB) {
	for _, y := range x {
		r = append(r, y...)
	}
	return r
}
