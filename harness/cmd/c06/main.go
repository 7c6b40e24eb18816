// C06: the classic router runs its phases in order and contains panics.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// Act is what a phase does on its k-th run for a request.
// "" abort panic panicerr panicnil pre handle post over (goto) prexabort (goto, then abort)
type Router struct {
	ID     uint32
	Phases [3][]string // per phase: actions of its first, second, ... run
	Wait   [3]int
}

type Req struct {
	Conn    int
	Router  int // index; -1: unknown id
	N       int
	Unknown uint32
}

type Case struct {
	Conf    nx.Conf
	Live    bool
	Conns   int
	Routers []Router
	Dups    []int // routers whose id is registered a second time
	Reqs    []Req
}

var acts = []string{"", "", "", "", "abort", "panic", "panicerr", "panicnil", "pre", "handle", "post", "over", "prexabort"}

func gen(live bool) func(t *rapid.T) Case {
	return func(t *rapid.T) Case {
		c := Case{Live: live, Conf: nx.Conf{
			Transport: "tcp",
			Mode:      "",
			Pool:      uint32(rapid.IntRange(0, 3).Draw(t, "pool")),
			ReqPool:   rapid.Bool().Draw(t, "rp"),
		}}
		if live {
			c.Conf.Transport = rapid.SampledFrom([]string{"tcp", "tcp", "ws", "kcp"}).Draw(t, "tr")
			c.Conf.Mode = rapid.SampledFrom([]string{"", "Bind", "DynamicBind"}).Draw(t, "mode")
			if c.Conf.Mode == "DynamicBind" && c.Conf.Pool == 0 {
				c.Conf.Pool = 1
			}
		}
		c.Conns = rapid.IntRange(1, 4).Draw(t, "conns")
		nr := rapid.IntRange(1, 6).Draw(t, "nr")
		for i := 0; i < nr; i++ {
			r := Router{ID: uint32(i) * uint32(rapid.SampledFrom([]int{1, 7, 1 << 20}).Draw(t, "idm"))}
			r.ID = r.ID*10 + uint32(i)
			for p := range r.Phases {
				r.Phases[p] = rapid.SliceOfN(rapid.SampledFrom(acts), 0, 3).Draw(t, "acts")
			}
			c.Routers = append(c.Routers, r)
		}
		c.Dups = rapid.SliceOfN(rapid.IntRange(0, nr-1), 0, 2).Draw(t, "dups")
		c.Reqs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Req {
			return Req{rapid.IntRange(0, c.Conns-1).Draw(t, "c"), rapid.IntRange(-1, nr-1).Draw(t, "r"), rapid.IntRange(0, 40).Draw(t, "n"), 0xfffffff0}
		}), 1, 25).Draw(t, "reqs")
		return c
	}
}

// expect is the reference interpreter: the phases that run for one request.
func expect(r Router) (tr []string, panicked, jumped, aborted bool) {
	var runs [3]int
	p := 0
	for p < 3 {
		tr = append(tr, fmt.Sprintf("%d", p))
		a := ""
		if runs[p] < len(r.Phases[p]) {
			a = r.Phases[p][runs[p]]
		}
		runs[p]++
		switch a {
		case "":
			p++
		case "abort", "prexabort":
			return tr, panicked, jumped, true
		case "panic", "panicerr", "panicnil":
			return tr, true, jumped, aborted
		case "pre":
			p, jumped = 0, true
		case "handle":
			p, jumped = 1, true
		case "post":
			p, jumped = 2, true
		case "over":
			return tr, panicked, true, aborted
		}
	}
	return
}

type state struct {
	tr   []string
	runs [3]int
}

func run(c Case, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	var mu sync.Mutex
	var bad error
	fail := func(f string, a ...any) {
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
	}
	st := make([]state, len(c.Reqs))
	order := make([][]int, c.Conns) // per connection: request numbers in the order their first phase ran
	events := 0
	body := func(i int) []byte {
		b := make([]byte, 4, 4+c.Reqs[i].N)
		binary.BigEndian.PutUint32(b, uint32(i))
		return append(b, hx.Fill(uint64(i+7), c.Reqs[i].N)...)
	}
	phase := func(ri, p int) func(ziface.IRequest) {
		return func(q ziface.IRequest) {
			d := q.GetData()
			if len(d) < 4 {
				mu.Lock()
				fail("a request with %d bytes of data", len(d))
				mu.Unlock()
				return
			}
			n := int(binary.BigEndian.Uint32(d))
			mu.Lock()
			if n >= len(c.Reqs) || c.Reqs[n].Router != ri || q.GetMsgID() != c.Routers[ri].ID || !bytes.Equal(d, body(n)) {
				fail("router %d got a request that is not its own (id %d, number %d)", ri, q.GetMsgID(), n)
				mu.Unlock()
				return
			}
			k := &st[n]
			if len(k.tr) == 0 {
				order[c.Reqs[n].Conn] = append(order[c.Reqs[n].Conn], n)
			}
			k.tr = append(k.tr, fmt.Sprintf("%d", p))
			events++
			if len(k.tr) > 50 {
				fail("request %d loops: %v...", n, k.tr[:12])
				q.Abort()
				mu.Unlock()
				return
			}
			a := ""
			if k.runs[p] < len(c.Routers[ri].Phases[p]) {
				a = c.Routers[ri].Phases[p][k.runs[p]]
			}
			k.runs[p]++
			mu.Unlock()
			switch a {
			case "abort":
				q.Abort()
			case "prexabort":
				q.Goto(znet.PRE_HANDLE)
				q.Abort()
			case "panic":
				panic("boom")
			case "panicerr":
				panic(errors.New("boom"))
			case "panicnil":
				var m map[string]int
				m["x"] = 1
			case "pre":
				q.Goto(znet.PRE_HANDLE)
			case "handle":
				q.Goto(znet.HANDLE)
			case "post":
				q.Goto(znet.POST_HANDLE)
			case "over":
				q.Goto(znet.HANDLE_OVER)
			}
		}
	}
	for i, r := range c.Routers {
		i, r := i, r
		if pan := hx.Call(func() { s.AddRouter(r.ID, &nx.Router{Pre: phase(i, 0), H: phase(i, 1), Post: phase(i, 2)}) }); pan != nil {
			return fmt.Errorf("registering id %d for the first time: %v", r.ID, pan)
		}
	}
	for _, i := range c.Dups {
		wrong := func(ziface.IRequest) {
			mu.Lock()
			fail("the refused second router of id %d ran", c.Routers[i].ID)
			mu.Unlock()
		}
		if pan := hx.Call(func() { s.AddRouter(c.Routers[i].ID, &nx.Router{Pre: wrong, H: wrong, Post: wrong}) }); pan == nil {
			return fmt.Errorf("registering id %d a second time was accepted", c.Routers[i].ID)
		}
	}
	feed, err := nx.NewFeed(s, c.Conf, c.Live, c.Conns)
	if err != nil {
		return err
	}
	want := 0
	for i, q := range c.Reqs {
		id := q.Unknown
		if q.Router >= 0 {
			id = c.Routers[q.Router].ID
			tr, p, j, a := expect(c.Routers[q.Router])
			want += len(tr)
			rec.Label(p, "panic")
			rec.Label(j, "goto")
			rec.Label(a, "abort")
		}
		if err := feed.Send(q.Conn, id, body(i)); err != nil {
			return fmt.Errorf("sending request %d: %v", i, err)
		}
	}
	ok := hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); return events >= want || bad != nil })
	time.Sleep(time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	served := 0
	for i, q := range c.Reqs {
		var tr []string
		if q.Router >= 0 {
			served++
			tr, _, _, _ = expect(c.Routers[q.Router])
		}
		if fmt.Sprint(tr) != fmt.Sprint(st[i].tr) {
			return fmt.Errorf("request %d (router script %v): phases %v ran, expected %v (waited: %v)", i, scriptOf(c, q), st[i].tr, tr, !ok)
		}
	}
	if c.Conf.Pool > 0 || c.Conf.Mode == "Bind" {
		for k, o := range order {
			for i := 1; i < len(o); i++ {
				if o[i] < o[i-1] {
					return fmt.Errorf("connection %d: requests ran in the order %v", k, o)
				}
			}
		}
	}
	feed.Close()
	rec.Nontrivial(served >= 2)
	return nil
}

func scriptOf(c Case, q Req) any {
	if q.Router < 0 {
		return "none"
	}
	return c.Routers[q.Router].Phases
}

func main() {
	hx.Main(hx.Property{
		ID:   "C06",
		Rule: "1-6 classic routers whose phases follow generated scripts (nothing, abort, redirect to a phase or the end, redirect then abort, three kinds of panic, per run of the phase), duplicate registrations, and up to 25 requests on 1-4 connections (known and unknown ids); dispatched through the message handler (facet dispatch) or from sockets on TCP, WebSocket and KCP (facet live); pool 0-3, request pooling on/off. Oracle: a reference interpreter gives the exact phase trace per request. Non-trivial: at least two requests with a known id.",
		Facets: []hx.Facet{
			hx.F("dispatch", 50000, 2000000, gen(false), run),
			hx.F("live", 4000, 120000, gen(true), run, hx.OneShot()),
		},
	})
}
