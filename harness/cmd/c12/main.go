// C12: the connection registry and connection properties behave as maps.
package main

import (
	"fmt"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/ziface"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---- the connection manager with connections without sockets

// Op on the registry. K: add, re (add another connection under the same id),
// rm, get, list, clear, len. A goroutine only changes the ids it owns.
type Op struct {
	K string
	I int // which of the goroutine's ids
	V int // which lookup or listing
}

type MgrCase struct {
	IDs     []uint64
	Scripts [][]Op // Scripts[g] owns the ids i with i % len(Scripts) == g
	Yield   bool
	Procs   int
}

func genMgr(t *rapid.T) MgrCase {
	c := MgrCase{Yield: rapid.Bool().Draw(t, "y"), Procs: rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "p")}
	g := rapid.IntRange(1, 5).Draw(t, "g")
	c.IDs = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) uint64 {
		switch rapid.IntRange(0, 2).Draw(t, "w") {
		case 0:
			return rapid.Uint64().Draw(t, "id")
		case 1:
			return ^uint64(0) - uint64(rapid.IntRange(0, 9).Draw(t, "id"))
		}
		return uint64(rapid.IntRange(0, 300).Draw(t, "id"))
	}), g, 60, func(x uint64) uint64 { return x }).Draw(t, "ids")
	for i := 0; i < g; i++ {
		c.Scripts = append(c.Scripts, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
			return Op{rapid.SampledFrom([]string{"add", "add", "add", "add", "re", "rm", "rm", "get", "get", "list", "list", "clear", "len"}).Draw(t, "k"),
				rapid.IntRange(0, 59).Draw(t, "i"), rapid.IntRange(0, 3).Draw(t, "v")}
		}), 1, 60).Draw(t, "s"))
	}
	return c
}

type fake struct {
	nx.FakeConn
	stops atomic.Int64
}

func (f *fake) Stop() { f.stops.Add(1) }

func lookup(m ziface.IConnManager, id uint64, v int) (ziface.IConnection, error) {
	if v%2 == 0 {
		return m.Get(id)
	}
	return m.Get2(strconv.FormatUint(id, 10))
}

// listing returns how often every id is listed, and the connection where the listing gives it.
func listing(m ziface.IConnManager, v int) (map[uint64]int, map[uint64]ziface.IConnection, error) {
	n := map[uint64]int{}
	cs := map[uint64]ziface.IConnection{}
	arg := new(int)
	var bad error
	switch v % 4 {
	case 0:
		for _, id := range m.GetAllConnID() {
			n[id]++
		}
	case 1:
		for _, s := range m.GetAllConnIdStr() {
			id, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				return nil, nil, fmt.Errorf("GetAllConnIdStr lists %q", s)
			}
			n[id]++
		}
	case 2:
		_ = m.Range(func(id uint64, c ziface.IConnection, a interface{}) error {
			if a != interface{}(arg) {
				bad = fmt.Errorf("Range passes another argument on")
			}
			n[id]++
			cs[id] = c
			return nil
		}, arg)
	case 3:
		_ = m.Range2(func(s string, c ziface.IConnection, a interface{}) error {
			id, err := strconv.ParseUint(s, 10, 64)
			if err != nil || a != interface{}(arg) {
				bad = fmt.Errorf("Range2 passes %q", s)
			}
			n[id]++
			cs[id] = c
			return nil
		}, arg)
	}
	return n, cs, bad
}

var listName = []string{"GetAllConnID", "GetAllConnIdStr", "Range", "Range2"}

func agree(m ziface.IConnManager, want map[uint64]ziface.IConnection, ids []uint64) error {
	if m.Len() != len(want) {
		return fmt.Errorf("Len is %d with %d connections registered", m.Len(), len(want))
	}
	for _, id := range ids {
		for v := 0; v < 2; v++ {
			c, err := lookup(m, id, v)
			if (err == nil) != (want[id] != nil) || (err == nil && c != want[id]) {
				return fmt.Errorf("lookup %d of id %d: got %v, %v; registered: %v", v, id, c != nil, err, want[id] != nil)
			}
		}
	}
	for v := 0; v < 4; v++ {
		n, cs, err := listing(m, v)
		if err != nil {
			return err
		}
		if len(n) != len(want) {
			return fmt.Errorf("%s lists %d ids with %d connections registered", listName[v], len(n), len(want))
		}
		for id, k := range n {
			if k != 1 || want[id] == nil || (v >= 2 && cs[id] != want[id]) {
				return fmt.Errorf("%s lists id %d %d times (registered: %v, same connection: %v)", listName[v], id, k, want[id] != nil, cs[id] == want[id])
			}
		}
	}
	return nil
}

func runMgr(c MgrCase, rec *hx.Rec) error {
	old := runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(old)
	s, err := nx.Server(nx.Conf{Transport: "tcp"})
	if err != nil {
		return err
	}
	m := s.GetConnMgr()
	g := len(c.Scripts)
	models := make([]map[uint64]ziface.IConnection, g)
	errs := make([]error, g)
	var wg sync.WaitGroup
	bar := make(chan struct{})
	changes := 0
	for gi, sc := range c.Scripts {
		var own []uint64
		for i, id := range c.IDs {
			if i%g == gi {
				own = append(own, id)
			}
		}
		for _, o := range sc {
			if o.K == "add" || o.K == "rm" {
				changes++
			}
		}
		wg.Add(1)
		go func(gi int, sc []Op, own []uint64) {
			defer wg.Done()
			mod := map[uint64]ziface.IConnection{}
			models[gi] = mod
			<-bar
			for step, o := range sc {
				id := own[o.I%len(own)]
				fail := func(f string, a ...interface{}) {
					errs[gi] = fmt.Errorf("goroutine %d step %d (%s %d): %s", gi, step, o.K, id, fmt.Sprintf(f, a...))
				}
				switch o.K {
				case "add":
					if mod[id] != nil {
						continue
					}
					f := &fake{FakeConn: nx.FakeConn{ID: id}}
					m.Add(f)
					mod[id] = f
				case "re":
					f := &fake{FakeConn: nx.FakeConn{ID: id}}
					m.Add(f)
					mod[id] = f
				case "rm":
					if mod[id] != nil {
						m.Remove(mod[id])
						delete(mod, id)
					} else {
						m.Remove(&fake{FakeConn: nx.FakeConn{ID: id}})
					}
				case "get":
					x, err := lookup(m, id, o.V)
					if (err == nil) != (mod[id] != nil) || (err == nil && x != mod[id]) {
						fail("found %v (%v), registered %v", x != nil, err, mod[id] != nil)
						return
					}
				case "len":
					if n := m.Len(); n < len(mod) || n > len(c.IDs) {
						fail("Len is %d with at least %d registered", n, len(mod))
						return
					}
				case "list":
					n, cs, err := listing(m, o.V)
					if err != nil {
						fail("%v", err)
						return
					}
					for _, id := range own {
						w := 0
						if mod[id] != nil {
							w = 1
						}
						if n[id] != w || (w == 1 && o.V >= 2 && cs[id] != mod[id]) {
							fail("%s lists id %d %d times, registered %d times meanwhile", listName[o.V], id, n[id], w)
							return
						}
					}
				case "clear":
					b := map[uint64]int64{}
					for id, f := range mod {
						b[id] = f.(*fake).stops.Load()
					}
					m.ClearConn()
					for id, f := range mod {
						if f.(*fake).stops.Load() == b[id] {
							fail("ClearConn did not stop connection %d", id)
							return
						}
					}
				}
				if c.Yield {
					runtime.Gosched()
				}
			}
		}(gi, sc, own)
	}
	close(bar)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	all := map[uint64]ziface.IConnection{}
	for _, mod := range models {
		for id, f := range mod {
			all[id] = f
		}
	}
	if err := agree(m, all, c.IDs); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	before := map[uint64]int64{}
	for id, f := range all {
		before[id] = f.(*fake).stops.Load()
	}
	m.ClearConn()
	for id, f := range all {
		if n := f.(*fake).stops.Load() - before[id]; n != 1 {
			return fmt.Errorf("ClearConn stopped connection %d %d times", id, n)
		}
	}
	rec.Label(g > 1, "concurrent")
	rec.Label(len(all) > 10, "many")
	rec.Nontrivial(changes > 5)
	return nil
}

// ---- live connections

// Act of a live phase. K: dial, close, stop, clear.
type Act struct {
	K  string
	I  int
	WS bool
}

type LiveCase struct {
	Conf   nx.Conf
	Phases [][]Act
}

func genLive(t *rapid.T) LiveCase {
	c := LiveCase{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"tcp", "ws", "kcp", "both", "both"}).Draw(t, "tr"),
		Pool:      uint32(rapid.IntRange(0, 2).Draw(t, "pool")),
		MaxConn:   1000,
		Procs:     rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs"),
		Beat:      rapid.IntRange(0, 3).Draw(t, "beat") == 0,
	}}
	if rapid.IntRange(0, 3).Draw(t, "jq") > 0 {
		c.Conf.Jitter = rapid.Uint64Range(1, 1<<30).Draw(t, "j")
	}
	c.Phases = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []Act {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Act {
			return Act{rapid.SampledFrom([]string{"dial", "dial", "dial", "dial", "close", "close", "stop", "stop", "clear"}).Draw(t, "k"),
				rapid.IntRange(0, 19).Draw(t, "i"), rapid.Bool().Draw(t, "ws")}
		}), 1, 10).Draw(t, "ph")
	}), 1, 6).Draw(t, "phases")
	return c
}

type lconn struct {
	p *nx.Peer
	c ziface.IConnection
}

func runLive(c LiveCase, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	m := s.GetConnMgr()
	var mu sync.Mutex
	ids := map[uint64]string{}
	var order []uint64
	var dup error
	byPort := map[string]ziface.IConnection{}
	open := map[ziface.IConnection]bool{}
	kcp := c.Conf.Transport == "kcp"
	s.SetOnConnStart(func(cn ziface.IConnection) {
		mu.Lock()
		defer mu.Unlock()
		p := cn.RemoteAddrString()
		if o, ok := ids[cn.GetConnID()]; ok && dup == nil {
			dup = fmt.Errorf("connections from %s and %s have the same id %d", o, p, cn.GetConnID())
		}
		if cn.GetConnIdStr() != strconv.FormatUint(cn.GetConnID(), 10) && dup == nil {
			dup = fmt.Errorf("connection %d has id string %q", cn.GetConnID(), cn.GetConnIdStr())
		}
		ids[cn.GetConnID()] = p
		order = append(order, cn.GetConnID())
		if byPort[nx.Port(p)] == nil || !kcp {
			byPort[nx.Port(p)] = cn
		}
		open[cn] = true
	})
	s.SetOnConnStop(func(cn ziface.IConnection) { mu.Lock(); delete(open, cn); mu.Unlock() })
	nx.Route(s, false, 1, func(ziface.IRequest) {})
	if pan := hx.Call(s.Start); pan != nil {
		return fmt.Errorf("start: %v", pan)
	}
	if err := nx.Up(c.Conf.Transport); err != nil {
		return err
	}
	var live []*lconn
	peak, ended := 0, 0
	for ph, acts := range c.Phases {
		cleared := false
		for _, a := range acts {
			cleared = cleared || a.K == "clear"
		}
		gone := map[*lconn]bool{}
		var lmu sync.Mutex
		var fresh []*lconn
		var wg sync.WaitGroup
		var perr error
		bar := make(chan struct{})
		for _, a := range acts {
			a := a
			var f func()
			switch a.K {
			case "dial":
				f = func() {
					tr := c.Conf.Transport
					if tr == "both" {
						tr = "tcp"
						if a.WS {
							tr = "ws"
						}
					}
					p, err := nx.Dial(tr)
					if err != nil {
						lmu.Lock()
						perr = fmt.Errorf("dial: %v", err)
						lmu.Unlock()
						return
					}
					_ = p.Write(nx.TLV(1, nil), nil)
					var cn ziface.IConnection
					if !hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); cn = byPort[p.Local()]; return cn != nil }) {
						lmu.Lock()
						perr = fmt.Errorf("a connection that was dialled does not start")
						lmu.Unlock()
						return
					}
					lmu.Lock()
					fresh = append(fresh, &lconn{p, cn})
					lmu.Unlock()
				}
			case "close", "stop":
				if len(live) == 0 {
					continue
				}
				l := live[a.I%len(live)]
				gone[l] = true
				f = func() {
					if kcp {
						l.p.Close()
						time.Sleep(time.Millisecond) // let what it sent last arrive
						l.c.Stop()
					} else if a.K == "close" {
						l.p.Close()
					} else {
						l.c.Stop()
					}
				}
			case "clear":
				for _, l := range live {
					gone[l] = true
				}
				f = m.ClearConn
			}
			wg.Add(1)
			go func() { defer wg.Done(); <-bar; f() }()
		}
		close(bar)
		wg.Wait()
		if perr != nil {
			return perr
		}
		// quiet: every connection that was told to end has left
		var keep []*lconn
		for _, l := range live {
			if gone[l] {
				ended++
				id := l.c.GetConnID()
				if !hx.Wait(nx.Patience, func() bool { x, err := m.Get(id); return err != nil || x != l.c }) {
					return fmt.Errorf("phase %d: an ended connection is still registered", ph)
				}
				l.p.Close()
			} else {
				keep = append(keep, l)
			}
		}
		for _, l := range fresh {
			if cleared && l.c.Context().Err() != nil {
				ended++
				id := l.c.GetConnID()
				if !hx.Wait(nx.Patience, func() bool { x, err := m.Get(id); return err != nil || x != l.c }) {
					return fmt.Errorf("phase %d: a connection cleared while it was accepted is still registered", ph)
				}
				l.p.Close()
			} else {
				keep = append(keep, l)
			}
		}
		live = keep
		if len(live) > peak {
			peak = len(live)
		}
		mu.Lock()
		derr := dup
		all := append([]uint64{}, order...)
		mu.Unlock()
		if derr != nil {
			return derr
		}
		for _, l := range live {
			if l.c.Context().Err() != nil {
				return fmt.Errorf("phase %d: a connection nobody ended has ended", ph)
			}
		}
		if kcp {
			// late packets can open connections we do not know; only the known ones are judged
			for _, l := range live {
				for v := 0; v < 4; v++ {
					n, _, err := listing(m, v)
					if err != nil {
						return err
					}
					if n[l.c.GetConnID()] != 1 {
						return fmt.Errorf("phase %d: %s lists a live connection %d times", ph, listName[v], n[l.c.GetConnID()])
					}
				}
				if x, err := m.Get(l.c.GetConnID()); err != nil || x != l.c {
					return fmt.Errorf("phase %d: a live connection is not found by its id", ph)
				}
			}
			continue
		}
		want := map[uint64]ziface.IConnection{}
		for _, l := range live {
			want[l.c.GetConnID()] = l.c
		}
		// a connection cleared during its handshake, which the peer does not know, may still be leaving
		var aerr error
		if !hx.Wait(nx.Patience, func() bool { aerr = agree(m, want, append(all, 0, 1<<40)); return aerr == nil }) {
			return fmt.Errorf("phase %d: %v", ph, aerr)
		}
	}
	m.ClearConn()
	for _, l := range live {
		if !hx.Wait(nx.Patience, func() bool { return l.c.Context().Err() != nil }) {
			return fmt.Errorf("ClearConn did not end a registered connection")
		}
		l.p.Close()
	}
	if !kcp && !hx.Wait(nx.Patience, func() bool { return m.Len() == 0 }) {
		return fmt.Errorf("%d connections are registered after clearing and the end of all connections", m.Len())
	}
	rec.Label(true, c.Conf.Transport)
	rec.Label(peak > 3, "more than 3 at once")
	rec.Nontrivial(peak > 1 && ended > 0)
	return nil
}

// ---- properties

// POp on properties. K: set, get, rm; S: a key shared by all goroutines.
type POp struct {
	K    string
	Conn int
	Key  int
	V    int
	S    bool
}

type PropCase struct {
	Transport string
	Conns     int
	Scripts   [][]POp
	Ended     int // how many of the connections are stopped halfway; -1: none
	Procs     int
}

func genProp(t *rapid.T) PropCase {
	c := PropCase{Transport: rapid.SampledFrom([]string{"tcp", "ws", "kcp"}).Draw(t, "tr"), Conns: rapid.IntRange(1, 3).Draw(t, "c"),
		Ended: rapid.IntRange(-1, 2).Draw(t, "e"), Procs: rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "p")}
	for g := rapid.IntRange(1, 4).Draw(t, "g"); g > 0; g-- {
		c.Scripts = append(c.Scripts, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) POp {
			return POp{rapid.SampledFrom([]string{"set", "set", "set", "get", "get", "get", "rm"}).Draw(t, "k"), rapid.IntRange(0, 2).Draw(t, "c"),
				rapid.IntRange(0, 5).Draw(t, "key"), rapid.IntRange(0, 1000).Draw(t, "v"), rapid.IntRange(0, 4).Draw(t, "s") == 0}
		}), 1, 80).Draw(t, "s"))
	}
	return c
}

func runProp(c PropCase, rec *hx.Rec) error {
	s, err := nx.Server(nx.Conf{Transport: c.Transport, Procs: c.Procs})
	if err != nil {
		return err
	}
	var mu sync.Mutex
	var cs []ziface.IConnection
	s.SetOnConnStart(func(cn ziface.IConnection) {
		_, err := cn.GetProperty("k0")
		cn.SetProperty("hook", cn.GetConnID())
		mu.Lock()
		if err != nil {
			cs = append(cs, cn)
		}
		mu.Unlock()
	})
	if pan := hx.Call(s.Start); pan != nil {
		return fmt.Errorf("start: %v", pan)
	}
	if err := nx.Up(c.Transport); err != nil {
		return err
	}
	for i := 0; i < c.Conns; i++ {
		p, err := nx.Dial(c.Transport)
		if err != nil {
			return fmt.Errorf("dial: %v", err)
		}
		_ = p.Write(nx.TLV(1, nil), nil)
		defer p.Close()
		if !hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); return len(cs) > i }) {
			return fmt.Errorf("a fresh connection does not start, or already has properties")
		}
	}
	bar := make(chan struct{})
	var wg sync.WaitGroup
	errs := make([]error, len(c.Scripts))
	written := map[interface{}]bool{} // every value written to a shared key
	for g, sc := range c.Scripts {
		for i, o := range sc {
			if o.S && o.K == "set" {
				written[fmt.Sprintf("%d/%s/%d.%d.%d", o.Conn%c.Conns, "shared", g, i, o.V)] = true
			}
		}
	}
	for g, sc := range c.Scripts {
		wg.Add(1)
		go func(g int, sc []POp) {
			defer wg.Done()
			model := map[string]interface{}{}
			<-bar
			for i, o := range sc {
				ci := o.Conn % c.Conns
				cn := cs[ci]
				if o.S {
					switch o.K {
					case "set":
						cn.SetProperty("shared", fmt.Sprintf("%d/%s/%d.%d.%d", ci, "shared", g, i, o.V))
					case "rm":
						cn.RemoveProperty("shared")
					default:
						if v, err := cn.GetProperty("shared"); err == nil {
							if !written[v] || v.(string)[:1] != fmt.Sprint(ci) {
								errs[g] = fmt.Errorf("connection %d: shared property has value %v, which was never set there", ci, v)
								return
							}
						}
					}
					continue
				}
				key := fmt.Sprintf("k%d", o.Key)
				if g > 0 {
					key = fmt.Sprintf("g%d-%d", g, o.Key)
				}
				mk := fmt.Sprintf("%d/%s", ci, key)
				switch o.K {
				case "set":
					var v interface{} = fmt.Sprintf("%s=%d.%d", mk, i, o.V)
					switch o.V % 5 {
					case 0:
						v = o.V
					case 1:
						v = nil
					}
					cn.SetProperty(key, v)
					model[mk] = v
				case "rm":
					cn.RemoveProperty(key)
					delete(model, mk)
				default:
					v, err := cn.GetProperty(key)
					w, ok := model[mk]
					if (err == nil) != ok || (ok && v != w) {
						errs[g] = fmt.Errorf("connection %d property %s: got %v, %v; last set: %v (present %v)", ci, key, v, err, w, ok)
						return
					}
				}
				if c.Ended >= 0 && g == 0 && i == len(sc)/2 {
					cs[c.Ended%c.Conns].Stop()
				}
			}
			for ci := 0; ci < c.Conns; ci++ {
				for k := 0; k < 6; k++ {
					key := fmt.Sprintf("k%d", k)
					if g > 0 {
						key = fmt.Sprintf("g%d-%d", g, k)
					}
					w, ok := model[fmt.Sprintf("%d/%s", ci, key)]
					v, err := cs[ci].GetProperty(key)
					if (err == nil) != ok || (ok && v != w) {
						errs[g] = fmt.Errorf("at the end, connection %d property %s: got %v, %v; last set: %v (present %v)", ci, key, v, err, w, ok)
						return
					}
				}
			}
		}(g, sc)
	}
	close(bar)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for i, cn := range cs[:c.Conns] {
		if v, err := cn.GetProperty("hook"); err != nil || v != interface{}(cn.GetConnID()) {
			return fmt.Errorf("connection %d: the property set by the start hook is %v, %v", i, v, err)
		}
	}
	n := 0
	for _, sc := range c.Scripts {
		n += len(sc)
	}
	rec.Label(true, c.Transport)
	rec.Label(len(c.Scripts) > 1, "concurrent")
	rec.Nontrivial(n > 5)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C12",
		Rule:        "mgr: 1-5 goroutines run scripts of up to 60 adds, replacements, removals, lookups, listings and clears on disjoint id sets of one connection manager (ids over the whole uint64 range); every lookup and listing is compared with the goroutine's own model (what it registered is listed exactly once, what it removed is not) and all of them with the union at the end; clearing stops every registered connection. live: phases of concurrent dials, closes, stops and clears on a real server (TCP, WebSocket, KCP, both), ids compared for uniqueness and the registry with the live set after each phase. props: concurrent property scripts on 1-3 real connections against a per-connection model, including after the connection ended. Non-trivial: more than 5 changes / more than one connection live and one ended / more than 5 property operations.",
		Assumptions: []string{"callbacks of Range do not use the connection manager"},
		Facets: []hx.Facet{
			hx.F("mgr", 20000, 1000000, genMgr, runMgr),
			hx.F("live", 1000, 40000, genLive, runLive, hx.OneShot()),
			hx.F("props", 1000, 40000, genProp, runProp, hx.OneShot()),
		},
	})
}
