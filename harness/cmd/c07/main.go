// C07: handler slices run in registration order, with groups and middleware.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// Op is one registration. K: use group groupuse add groupadd.
type Op struct {
	K          string
	G          int    // group
	Start, End uint32 // group
	ID         uint32 // add
	H          []string
	Via        int // through which object the registration is made
}

type Req struct {
	Conn int
	ID   uint32
}

type Case struct {
	Conf  nx.Conf
	Live  bool
	Dflt  bool // NewDefaultRouterSlicesServer: recovery middleware in front
	Conns int
	Ops   []Op
	Reqs  []Req
}

// what a handler does between its entry and exit marks
var acts = []string{"", "", "", "next", "next", "abort", "nextabort", "abortnext", "nextnext", "panic", "nextpanic"}

func genH(t *rapid.T, min int) []string {
	if rapid.IntRange(0, 25).Draw(t, "long") == 0 {
		n := rapid.SampledFrom([]int{100, 126, 127, 128, 129, 200, 255, 256, 300}).Draw(t, "n")
		h := make([]string, n)
		for i := rapid.IntRange(0, 3).Draw(t, "k"); i > 0; i-- {
			h[rapid.IntRange(0, n-1).Draw(t, "at")] = rapid.SampledFrom(acts).Draw(t, "a")
		}
		return h
	}
	return rapid.SliceOfN(rapid.SampledFrom(acts), min, 4).Draw(t, "h")
}

func gen(live bool) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Live: live, Conf: nx.Conf{Transport: "tcp", Pool: uint32(rapid.IntRange(0, 3).Draw(t, "pool")),
			ReqPool: rapid.Bool().Draw(t, "rp"), Slices: true}, Dflt: rapid.IntRange(0, 3).Draw(t, "dflt") == 0}
		if live {
			c.Conf.Transport = rapid.SampledFrom([]string{"tcp", "tcp", "ws", "kcp"}).Draw(t, "tr")
		}
		c.Conns = rapid.IntRange(1, 3).Draw(t, "conns")
		ids := []uint32{0, 1, 2, 3, 5, 8, 10, 11, 20, 21, 0xffffffff}
		groups := 0
		n := rapid.IntRange(1, 14).Draw(t, "n")
		for i := 0; i < n; i++ {
			o := Op{K: rapid.SampledFrom([]string{"use", "group", "groupuse", "add", "add", "groupadd", "groupadd", "groupadd"}).Draw(t, "k"), Via: rapid.IntRange(0, 1).Draw(t, "via")}
			switch o.K {
			case "group":
				o.Start = rapid.SampledFrom([]uint32{0, 1, 5, 10}).Draw(t, "start")
				o.End = o.Start + rapid.SampledFrom([]uint32{0, 1, 5, 11, 1000}).Draw(t, "len")
				if rapid.IntRange(0, 9).Draw(t, "max") == 0 {
					o.End = 0xffffffff
				}
				o.H = genH(t, 0)
				groups++
			case "groupuse", "groupadd":
				if groups == 0 {
					continue
				}
				o.G = rapid.IntRange(0, groups-1).Draw(t, "g")
				o.ID = rapid.SampledFrom(ids).Draw(t, "id")
				o.H = genH(t, 0)
			case "add":
				o.ID = rapid.SampledFrom(ids).Draw(t, "id")
				o.H = genH(t, 0)
			default:
				o.H = genH(t, 0)
			}
			c.Ops = append(c.Ops, o)
		}
		var reg []uint32
		for _, o := range c.Ops {
			if o.K == "add" || o.K == "groupadd" {
				reg = append(reg, o.ID)
			}
		}
		if len(reg) == 0 {
			reg = ids
		}
		c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Req {
			r := Req{rapid.IntRange(0, c.Conns-1).Draw(t, "c"), rapid.SampledFrom(reg).Draw(t, "id")}
			if rapid.IntRange(0, 9).Draw(t, "u") == 0 {
				r.ID = rapid.SampledFrom(ids).Draw(t, "uid")
			}
			return r
		}), 1, 12).Draw(t, "reqs")
		return c
	}
}

type boom struct{}

// expect is the reference interpreter: entry (+n) and exit (-n) marks of the handlers hs (numbers), and whether it panicked.
func expect(hs []int, act []string) (tr []int, panicked bool) {
	pos := 0
	var next func()
	next = func() {
		for pos < len(hs) {
			h := hs[pos]
			pos++
			tr = append(tr, h+1)
			switch act[h] {
			case "next":
				next()
			case "abort":
				pos = len(hs)
			case "nextabort":
				next()
				pos = len(hs)
			case "abortnext":
				pos = len(hs)
				next()
			case "nextnext":
				next()
				next()
			case "panic":
				panic(boom{})
			case "nextpanic":
				next()
				panic(boom{})
			}
			tr = append(tr, -h-1)
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				panicked = true
			}
		}()
		next()
	}()
	return
}

func run(c Case, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	if c.Dflt {
		s = znet.NewDefaultRouterSlicesServer()
	}
	var mu sync.Mutex
	var bad error
	tr := make([][]int, len(c.Reqs))
	events := 0
	body := func(i int) []byte {
		b := make([]byte, 4)
		binary.BigEndian.PutUint32(b, uint32(i))
		return append(b, hx.Fill(uint64(i+3), i)...)
	}
	var act []string
	mk := func(scripts []string) ([]ziface.RouterHandler, []int) {
		var out []ziface.RouterHandler
		var ns []int
		for _, a := range scripts {
			a, h := a, len(act)
			act = append(act, a)
			ns = append(ns, h)
			out = append(out, func(q ziface.IRequest) {
				d := q.GetData()
				n := int(binary.BigEndian.Uint32(d))
				mu.Lock()
				if n >= len(c.Reqs) || c.Reqs[n].ID != q.GetMsgID() || !bytes.Equal(d, body(n)) {
					if bad == nil {
						bad = fmt.Errorf("handler %d got a garbled request (id %d, number %d)", h, q.GetMsgID(), n)
					}
					mu.Unlock()
					return
				}
				tr[n] = append(tr[n], h+1)
				events++
				mu.Unlock()
				switch a {
				case "next":
					q.RouterSlicesNext()
				case "abort":
					q.Abort()
				case "nextabort":
					q.RouterSlicesNext()
					q.Abort()
				case "abortnext":
					q.Abort()
					q.RouterSlicesNext()
				case "nextnext":
					q.RouterSlicesNext()
					q.RouterSlicesNext()
				case "panic":
					panic("boom")
				case "nextpanic":
					q.RouterSlicesNext()
					panic(boom{})
				}
				mu.Lock()
				tr[n] = append(tr[n], -h-1)
				events++
				mu.Unlock()
			})
		}
		return out, ns
	}
	var global []int
	type grp struct {
		g          ziface.IGroupRouterSlices
		hs         []int
		start, end uint32
	}
	var groups []*grp
	routes := map[uint32][]int{}
	var rs ziface.IRouterSlices
	long := false
	for k, o := range c.Ops {
		hs, ns := mk(o.H)
		long = long || len(hs) > 120
		switch o.K {
		case "use":
			if o.Via == 1 && rs != nil {
				rs.Use(hs...)
			} else {
				rs = s.Use(hs...)
			}
			global = append(global[:len(global):len(global)], ns...)
		case "group":
			var g ziface.IGroupRouterSlices
			if o.Via == 1 && rs != nil {
				g = rs.Group(o.Start, o.End, hs...)
			} else {
				g = s.Group(o.Start, o.End, hs...)
			}
			groups = append(groups, &grp{g, ns, o.Start, o.End})
		case "groupuse":
			g := groups[o.G]
			g.g.Use(hs...)
			g.hs = append(g.hs[:len(g.hs):len(g.hs)], ns...)
		case "add", "groupadd":
			var pan error
			_, dup := routes[o.ID]
			ok := !dup
			full := append([]int{}, global...)
			if o.K == "groupadd" {
				g := groups[o.G]
				ok = ok && o.ID >= g.start && o.ID <= g.end
				full = append(full, g.hs...)
				pan = hx.Call(func() { g.g.AddHandler(o.ID, hs...) })
			} else if o.Via == 1 && rs != nil {
				pan = hx.Call(func() { rs.AddHandler(o.ID, hs...) })
			} else {
				pan = hx.Call(func() { rs = s.AddRouterSlices(o.ID, hs...) })
			}
			if ok != (pan == nil) {
				return fmt.Errorf("registration %d (%s id %d, already registered: %v): expected accepted=%v, got %v", k, o.K, o.ID, dup, ok, pan)
			}
			if ok {
				routes[o.ID] = append(full, ns...)
			}
		}
		if len(hs) > 0 { // the caller's slice is his own
			hs[0] = func(ziface.IRequest) {
				mu.Lock()
				if bad == nil {
					bad = fmt.Errorf("changing the slice passed to registration %d changed the route", k)
				}
				mu.Unlock()
			}
		}
	}
	feed, err := nx.NewFeed(s, c.Conf, c.Live, c.Conns)
	if err != nil {
		return err
	}
	want, multi := 0, 0
	exp := make([][]int, len(c.Reqs))
	for i, q := range c.Reqs {
		if hs, ok := routes[q.ID]; ok {
			var p bool
			exp[i], p = expect(hs, act)
			rec.Label(p, "panic")
			if p && c.Dflt {
				exp[i] = nil // what runs after a panic was recovered by the default middleware is not specified
				rec.Label(true, "recovered by middleware")
			}
			want += len(exp[i])
			if len(hs) > 1 {
				multi++
			}
		}
		if err := feed.Send(q.Conn, q.ID, body(i)); err != nil {
			return fmt.Errorf("sending request %d: %v", i, err)
		}
	}
	hx.Wait(nx.Patience, func() bool {
		mu.Lock()
		defer mu.Unlock()
		if bad != nil {
			return true
		}
		n := 0
		for i := range c.Reqs {
			if exp[i] != nil {
				n += len(tr[i])
			}
		}
		return n >= want
	})
	time.Sleep(time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	for i, q := range c.Reqs {
		if exp[i] == nil {
			hs, ok := routes[q.ID]
			if !ok && len(tr[i]) > 0 {
				return fmt.Errorf("request %d with the unregistered id %d reached handler %d", i, q.ID, tr[i][0]-1)
			}
			if ok && len(hs) > 0 {
				if err := once(tr[i]); err != nil {
					return fmt.Errorf("request %d (id %d, a handler panics): %v", i, q.ID, err)
				}
			}
			continue
		}
		if fmt.Sprint(exp[i]) != fmt.Sprint(tr[i]) {
			return fmt.Errorf("request %d (id %d, %d handlers): handler trace %s, expected %s", i, q.ID, len(routes[q.ID]), clip(tr[i]), clip(exp[i]))
		}
	}
	feed.Close()
	rec.Label(long, "chain of over 120 handlers")
	rec.Label(len(groups) > 0, "groups")
	rec.Nontrivial(multi > 0)
	return nil
}

func once(tr []int) error {
	seen := map[int]bool{}
	for _, x := range tr {
		if x > 0 {
			if seen[x] {
				return fmt.Errorf("handler %d ran twice", x-1)
			}
			seen[x] = true
		}
	}
	return nil
}

func clip(x []int) string {
	if len(x) > 24 {
		return fmt.Sprintf("%v...(%d marks)", x[:24], len(x))
	}
	return fmt.Sprint(x)
}

func main() {
	hx.Main(hx.Property{
		ID:   "C07",
		Rule: "programs of up to 14 registrations (global middleware, groups with id ranges, group middleware, routes, duplicate and out-of-range ids; chains of up to several hundred handlers) whose handlers follow scripts over next, abort and panic in every order; up to 12 requests per program on 1-3 connections, through the message handler or from sockets. Oracle: reference interpreter gives the exact sequence of handler entries and exits; refused registrations must panic and change nothing. With the default server's recovery middleware, requests with a panic only have to keep the process alive and run no handler twice. Non-trivial: a request to a route of two or more handlers.",
		Facets: []hx.Facet{
			hx.F("dispatch", 50000, 2000000, gen(false), run),
			hx.F("live", 4000, 120000, gen(true), run, hx.OneShot()),
		},
	})
}
