// C20: notifications reach exactly the connection registered for the id.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znotify"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---------------------------------------------------------------- histories

const (
	opSet = iota
	opDel
	opGet
	opNotify
	opAll
)

type Op struct {
	Kind  int
	Id    int // index into Ids
	Conn  int // connection set
	Buff  bool
	Msg   uint32
	Data  hx.Hex
	Other bool // the second notifier
}

type Case struct {
	Ids  []uint64
	Fail []int // per connection: 0 works, 1 fails direct sends, 2 fails buffered sends, 3 both
	Ops  []Op
}

var anyID = rapid.OneOf(
	rapid.Uint64Range(0, 40),
	rapid.SampledFrom([]uint64{0, 1, 10, 100, 1000, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1 << 63, math.MaxUint64, math.MaxUint64 - 1, math.MaxInt64}),
	rapid.Uint64(),
)

var payload = rapid.Custom(func(t *rapid.T) hx.Hex {
	return hx.Hex(rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "data"))
})

func gen(t *rapid.T) Case {
	var c Case
	c.Ids = rapid.SliceOfNDistinct(anyID, 1, 12, rapid.ID[uint64]).Draw(t, "ids")
	// an id that another one turns into when it is cut to 32 bits
	if x := c.Ids[0] & math.MaxUint32; x != c.Ids[0] {
		dup := false
		for _, y := range c.Ids {
			dup = dup || y == x
		}
		if !dup {
			c.Ids = append(c.Ids, x)
		}
	}
	c.Fail = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}), 1, 8).Draw(t, "conns")
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		return Op{
			Kind:  rapid.SampledFrom([]int{opSet, opSet, opSet, opDel, opGet, opNotify, opNotify, opAll}).Draw(t, "kind"),
			Id:    rapid.IntRange(0, len(c.Ids)-1).Draw(t, "id"),
			Conn:  rapid.IntRange(0, len(c.Fail)-1).Draw(t, "conn"),
			Buff:  rapid.Bool().Draw(t, "buff"),
			Msg:   rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(0, 3)).Draw(t, "msg"),
			Data:  payload.Draw(t, "data"),
			Other: rapid.IntRange(0, 7).Draw(t, "other") == 5,
		}
	}), 1, 100).Draw(t, "ops")
	return c
}

type sent struct {
	msg  uint32
	data []byte
	buff bool
}

// rconn records what is sent on it. Sends it does not define panic.
type rconn struct {
	ziface.IConnection
	n    int
	fail int
	mu   sync.Mutex
	got  []sent
}

func (r *rconn) put(msg uint32, data []byte, buff bool) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.got = append(r.got, sent{msg, append([]byte{}, data...), buff})
	if (r.fail&1 != 0 && !buff) || (r.fail&2 != 0 && buff) {
		return errors.New("generated failure")
	}
	return nil
}
func (r *rconn) SendMsg(msg uint32, data []byte) error     { return r.put(msg, data, false) }
func (r *rconn) SendBuffMsg(msg uint32, data []byte) error { return r.put(msg, data, true) }
func (r *rconn) GetConnID() uint64                         { return uint64(r.n) }
func (r *rconn) GetConnIdStr() string                      { return fmt.Sprint(r.n) }
func (r *rconn) fails(buff bool) bool {
	if buff {
		return r.fail&2 != 0
	}
	return r.fail&1 != 0
}
func (r *rconn) take() []sent {
	r.mu.Lock()
	defer r.mu.Unlock()
	g := r.got
	r.got = nil
	return g
}

func run(c Case, rec *hx.Rec) error {
	nx.Quiet(0)
	conns := make([]*rconn, len(c.Fail))
	for i, f := range c.Fail {
		conns[i] = &rconn{n: i, fail: f}
	}
	ns := []ziface.Inotify{znotify.NewZNotify(), znotify.NewZNotify()}
	models := []map[uint64]int{{}, {}}
	replaced, deleted, unknown, failed, casts := false, false, false, false, 0
	for k, op := range c.Ops {
		w := 0
		if op.Other {
			w = 1
		}
		n, m := ns[w], models[w]
		id := c.Ids[op.Id]
		at, has := m[id]
		expect := map[int]int{}
		var perr error
		switch op.Kind {
		case opSet:
			replaced = replaced || has
			perr = hx.Call(func() { n.SetNotifyID(id, conns[op.Conn]) })
			m[id] = op.Conn
		case opDel:
			deleted = deleted || has
			perr = hx.Call(func() { n.DelNotifyByID(id) })
			delete(m, id)
		case opNotify:
			var err error
			perr = hx.Call(func() {
				if op.Buff {
					err = n.NotifyBuffToConnByID(id, op.Msg, op.Data)
				} else {
					err = n.NotifyToConnByID(id, op.Msg, op.Data)
				}
			})
			want := !has || conns[at].fails(op.Buff)
			if perr == nil && (err != nil) != want {
				return fmt.Errorf("step %d: notifying id %d (registered: %v, its connection fails: %v) gave the error %v", k, id, has, want && has, err)
			}
			unknown = unknown || !has
			failed = failed || has && want
			if has {
				expect[at] = 1
			}
		case opAll:
			perr = hx.Call(func() {
				if op.Buff {
					n.NotifyBuffAll(op.Msg, op.Data)
				} else {
					n.NotifyAll(op.Msg, op.Data)
				}
			})
			for _, i := range m {
				expect[i]++
			}
			if len(m) > 1 {
				casts++
			}
		}
		if perr != nil {
			return fmt.Errorf("step %d: %v", k, perr)
		}
		for i, conn := range conns {
			got := conn.take()
			if len(got) != expect[i] {
				return fmt.Errorf("step %d: connection %d was sent %d messages, %d were due", k, i, len(got), expect[i])
			}
			for _, s := range got {
				if s.msg != op.Msg || !bytes.Equal(s.data, op.Data) || s.buff != op.Buff {
					return fmt.Errorf("step %d: connection %d was sent (%d, %x, buffered %v), not (%d, %x, buffered %v)", k, i, s.msg, s.data, s.buff, op.Msg, []byte(op.Data), op.Buff)
				}
			}
		}
		for w, n := range ns {
			m := models[w]
			if got := n.ConnNums(); got != len(m) {
				return fmt.Errorf("step %d: %d connections are counted, %d are registered", k, got, len(m))
			}
			for _, id := range c.Ids {
				at, has := m[id]
				if n.HasIdConn(id) != has {
					return fmt.Errorf("step %d: HasIdConn(%d) is %v", k, id, !has)
				}
				conn, err := n.GetNotifyByID(id)
				if (err == nil) != has {
					return fmt.Errorf("step %d: GetNotifyByID(%d), registered %v: error %v", k, id, has, err)
				}
				if has && conn != ziface.IConnection(conns[at]) {
					return fmt.Errorf("step %d: GetNotifyByID(%d) is another connection", k, id)
				}
			}
		}
	}
	rec.Label(replaced, "id set again")
	rec.Label(deleted, "id deleted")
	rec.Label(unknown, "unknown id notified")
	rec.Label(failed, "failing connection notified")
	rec.Label(casts > 0, "broadcast to several")
	rec.Nontrivial(len(c.Ops) >= 10 && (replaced || deleted) && casts > 0)
	return nil
}

// ---------------------------------------------------------------- schedules

type RaceCase struct {
	Procs   int
	Owners  [][]Change // one goroutine each; every goroutine has ids of its own
	Casters [][]Cast
	Slow    int // microseconds a send takes now and then
}

type Change struct {
	Id   int // 0..3: of this owner
	Kind int // 0 set (a fresh connection), 1 delete, 2 notify
	Buff bool
	Nap  int
}

type Cast struct {
	Buff bool
	Nap  int
}

func genRace(t *rapid.T) RaceCase {
	return RaceCase{
		Procs: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs"),
		Owners: rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Change {
			return Change{rapid.IntRange(0, 3).Draw(t, "id"), rapid.SampledFrom([]int{0, 0, 1, 2, 2}).Draw(t, "kind"), rapid.Bool().Draw(t, "buff"), rapid.IntRange(0, 4).Draw(t, "nap")}
		}), 1, 60), 1, 5).Draw(t, "owners"),
		Casters: rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Cast {
			return Cast{rapid.Bool().Draw(t, "buff"), rapid.IntRange(0, 6).Draw(t, "nap")}
		}), 1, 30), 1, 3).Draw(t, "casters"),
		Slow: rapid.SampledFrom([]int{0, 0, 1, 5, 30}).Draw(t, "slow"),
	}
}

type span struct{ from, to int64 } // logical times, to 0: still

type slowConn struct {
	ziface.IConnection
	mu   sync.Mutex
	got  map[uint32]int
	bad  error
	slow int
}

func (r *slowConn) put(msg uint32, data []byte, buff bool) error {
	r.mu.Lock()
	r.got[msg]++
	if len(data) != 5 || data[0] != byte(msg) || (data[4] == 1) != buff {
		r.bad = fmt.Errorf("message %d was sent with the payload %x, buffered %v", msg, data, buff)
	}
	r.mu.Unlock()
	if r.slow > 0 && msg%5 == 0 {
		time.Sleep(time.Duration(r.slow) * time.Microsecond)
	}
	return nil
}
func (r *slowConn) SendMsg(msg uint32, data []byte) error     { return r.put(msg, data, false) }
func (r *slowConn) SendBuffMsg(msg uint32, data []byte) error { return r.put(msg, data, true) }
func (r *slowConn) GetConnID() uint64                         { return 1 }
func (r *slowConn) GetConnIdStr() string                      { return "1" }

type life struct {
	id         uint64
	conn       *slowConn
	setB, setE int64
	endB, endE int64 // replaced or deleted
	replaced   bool
}

func runRace(c RaceCase, rec *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	nx.Quiet(0)
	n := znotify.NewZNotify()
	var clock atomic.Int64
	var msgs atomic.Uint32
	var mu sync.Mutex
	var lives []*life
	type cast struct {
		msg        uint32
		from, to   int64
		owner, idx int
	}
	var casts []cast
	var firstErr atomic.Value
	fail := func(f string, a ...any) { firstErr.CompareAndSwap(nil, fmt.Errorf(f, a...)) }
	pay := func(m uint32, buff bool) []byte {
		b := []byte{byte(m), 1, 2, 3, 0}
		if buff {
			b[4] = 1
		}
		return b
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for o, chs := range c.Owners {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			cur := map[int]*life{}
			direct := map[*life]map[uint32]bool{}
			for _, ch := range chs {
				for i := 0; i < ch.Nap; i++ {
					runtime.Gosched()
				}
				id := uint64(o*4+ch.Id) * 0x9E3779B97F4A7C15
				l := cur[ch.Id]
				switch ch.Kind {
				case 0:
					nl := &life{id: id, conn: &slowConn{got: map[uint32]int{}, slow: c.Slow}}
					nl.setB = clock.Add(1)
					if l != nil {
						l.endB = nl.setB
					}
					n.SetNotifyID(id, nl.conn)
					nl.setE = clock.Add(1)
					if l != nil {
						l.endE, l.replaced = nl.setE, true
					}
					mu.Lock()
					lives = append(lives, nl)
					mu.Unlock()
					cur[ch.Id] = nl
				case 1:
					if l != nil {
						l.endB = clock.Add(1)
					}
					n.DelNotifyByID(id)
					if l != nil {
						l.endE = clock.Add(1)
					}
					delete(cur, ch.Id)
				case 2:
					m := msgs.Add(1)
					var err error
					if ch.Buff {
						err = n.NotifyBuffToConnByID(id, m, pay(m, true))
					} else {
						err = n.NotifyToConnByID(id, m, pay(m, false))
					}
					if (err == nil) != (l != nil) {
						fail("notifying id %d, registered %v, gave the error %v", id, l != nil, err)
					}
					if l != nil {
						if direct[l] == nil {
							direct[l] = map[uint32]bool{}
						}
						direct[l][m] = true
						l.conn.mu.Lock()
						k := l.conn.got[m]
						l.conn.mu.Unlock()
						if k != 1 {
							fail("a notification to id %d was sent %d times on its connection", id, k)
						}
						mu.Lock()
						casts = append(casts, cast{m, -1, -1, o, ch.Id})
						mu.Unlock()
					}
				}
				if got := n.HasIdConn(id); got != (cur[ch.Id] != nil) {
					fail("HasIdConn(%d) is %v after its owner's change", id, got)
				}
				conn, err := n.GetNotifyByID(id)
				if (err == nil) != (cur[ch.Id] != nil) || err == nil && conn != ziface.IConnection(cur[ch.Id].conn) {
					fail("GetNotifyByID(%d) is not the connection last set", id)
				}
			}
		}()
	}
	for _, cs := range c.Casters {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, x := range cs {
				for i := 0; i < x.Nap; i++ {
					runtime.Gosched()
				}
				m := msgs.Add(1)
				from := clock.Add(1)
				if x.Buff {
					n.NotifyBuffAll(m, pay(m, true))
				} else {
					n.NotifyAll(m, pay(m, false))
				}
				to := clock.Add(1)
				mu.Lock()
				casts = append(casts, cast{m, from, to, -1, -1})
				mu.Unlock()
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(nx.Patience):
		return errors.New("the notifier did not return from its calls")
	}
	if e := firstErr.Load(); e != nil {
		return e.(error)
	}
	live := 0
	for _, l := range lives {
		if l.endE == 0 {
			live++
		}
		if l.conn.bad != nil {
			return l.conn.bad
		}
	}
	if got := n.ConnNums(); got != live {
		return fmt.Errorf("%d connections are counted, %d are registered", got, live)
	}
	over := 0
	byId := map[uint64][]*life{}
	for _, l := range lives {
		byId[l.id] = append(byId[l.id], l)
	}
	for _, x := range casts {
		if x.from < 0 {
			k := 0
			for _, l := range lives {
				k += l.conn.got[x.msg]
			}
			if k != 1 {
				return fmt.Errorf("a notification to one id was sent %d times in all", k)
			}
			continue
		}
		for id, ls := range byId {
			total := 0
			through := true // registered all the time of the broadcast
			covered := int64(-1)
			for _, l := range ls {
				g := l.conn.got[x.msg]
				total += g
				may := l.setB < x.to && (l.endE == 0 || l.endE > x.from)
				must := l.setE < x.from && (l.endB == 0 || l.endB > x.to)
				if g > 1 || g == 1 && !may || g == 0 && must {
					return fmt.Errorf("a broadcast was sent %d times on a connection of id %d (registered throughout: %v, at any time: %v)", g, id, must, may)
				}
				if may && !must {
					over++
				}
				// a chain of registrations, each replacing the one before
				if l.setE < x.from && (l.endE == 0 || l.endE > x.from || l.replaced) {
					covered = math.MaxInt64
					if l.endE != 0 && !l.replaced {
						covered = l.endB
					}
				}
				if l.endE != 0 && !l.replaced && l.endB <= x.to && l.endE >= x.from {
					through = false
				}
			}
			if covered < x.to {
				through = false
			}
			if through {
				// registered when it began, and never deleted meanwhile
				alive := false
				for _, l := range ls {
					if l.setE < x.from && (l.endB == 0 || l.endB > x.from) {
						alive = true
					}
				}
				if alive && total != 1 {
					return fmt.Errorf("a broadcast was sent %d times for id %d, which was registered all the time", total, id)
				}
			}
			if total > 1 {
				return fmt.Errorf("a broadcast was sent %d times for id %d", total, id)
			}
		}
	}
	rec.Label(over > 0, "registration changed during a broadcast")
	rec.Nontrivial(len(lives) >= 4 && len(casts) >= 4)
	return nil
}

// ---------------------------------------------------------------- real connections

type LiveCase struct {
	Conf  nx.Conf
	Conns int
	Ids   []uint64 // per registration
	To    []int    // the connection of every registration
	Msgs  []LiveMsg
}

type LiveMsg struct {
	Id   int // index into Ids, -1 all
	Buff bool
	Msg  uint32
	Size int
}

func genLive(t *rapid.T) LiveCase {
	var c LiveCase
	c.Conf.Transport = rapid.SampledFrom([]string{"tcp", "tls", "ws", "kcp"}).Draw(t, "transport")
	c.Conf.Pool = 2
	c.Conns = rapid.IntRange(1, 4).Draw(t, "conns")
	c.Ids = rapid.SliceOfNDistinct(anyID, 1, 6, rapid.ID[uint64]).Draw(t, "ids")
	for range c.Ids {
		c.To = append(c.To, rapid.IntRange(0, c.Conns-1).Draw(t, "to"))
	}
	c.Msgs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) LiveMsg {
		return LiveMsg{rapid.IntRange(-1, len(c.Ids)-1).Draw(t, "id"), rapid.Bool().Draw(t, "buff"), rapid.Uint32Range(10, 1<<31).Draw(t, "msg"), rapid.SampledFrom([]int{0, 1, 10, 500, 3000}).Draw(t, "size")}
	}), 1, 12).Draw(t, "msgs")
	return c
}

func runLive(c LiveCase, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	n := znotify.NewZNotify()
	came := make(chan ziface.IConnection, 16)
	nx.Route(s, false, 1, func(q ziface.IRequest) { came <- q.GetConnection() })
	s.Start()
	defer s.Stop()
	if err := nx.Up(c.Conf.Transport); err != nil {
		return err
	}
	var peers []*nx.Peer
	var conns []ziface.IConnection
	for i := 0; i < c.Conns; i++ {
		p, err := nx.Dial(c.Conf.Transport)
		if err != nil {
			return fmt.Errorf("dial: %v", err)
		}
		defer p.Close()
		peers = append(peers, p)
		if err := p.Write(nx.TLV(1, nil), nil); err != nil {
			return err
		}
		select {
		case q := <-came:
			conns = append(conns, q)
		case <-time.After(nx.Patience):
			return errors.New("the first message of a connection was not handled")
		}
	}
	for i, id := range c.Ids {
		n.SetNotifyID(id, conns[c.To[i]])
	}
	type exp struct {
		msg  uint32
		data []byte
	}
	due := make([][]exp, c.Conns)
	for k, m := range c.Msgs {
		data := hx.Fill(uint64(k)+7, m.Size)
		add := func(i int) { due[i] = append(due[i], exp{m.Msg, data}) }
		var err error
		if m.Id < 0 {
			for i := range c.Ids {
				add(c.To[i])
			}
			if m.Buff {
				err = n.NotifyBuffAll(m.Msg, data)
			} else {
				err = n.NotifyAll(m.Msg, data)
			}
		} else {
			add(c.To[m.Id])
			if m.Buff {
				err = n.NotifyBuffToConnByID(c.Ids[m.Id], m.Msg, data)
			} else {
				err = n.NotifyToConnByID(c.Ids[m.Id], m.Msg, data)
			}
		}
		if err != nil {
			return fmt.Errorf("message %d: %v", k, err)
		}
	}
	for i, p := range peers {
		// direct and buffered messages take different ways: any order between them
		p.SetReadDeadline(time.Now().Add(nx.Patience))
		left := append([]exp{}, due[i]...)
		for len(left) > 0 {
			id, data, err := nx.ReadTLV(p)
			if err != nil {
				return fmt.Errorf("connection %d: %d of %d notifications did not arrive: %v", i, len(left), len(due[i]), err)
			}
			ok := false
			for j, e := range left {
				if e.msg == id && bytes.Equal(e.data, data) {
					left = append(left[:j], left[j+1:]...)
					ok = true
					break
				}
			}
			if !ok {
				return fmt.Errorf("connection %d got the message %d with %d bytes, which was not due", i, id, len(data))
			}
		}
		// then a mark behind everything, and nothing before it
		mark := uint32(3)
		if err := conns[i].SendMsg(mark, []byte("end")); err != nil {
			return err
		}
		if id, data, err := nx.ReadTLV(p); err != nil || id != mark || string(data) != "end" {
			return fmt.Errorf("connection %d got the message %d with %d bytes (%v) after everything due had come", i, id, len(data), err)
		}
	}
	rec.Nontrivial(len(c.Ids) > 1 && len(c.Msgs) > 2)
	rec.Label(c.Conf.Transport == "tcp", "tcp")
	rec.Label(c.Conf.Transport == "tls", "tls")
	rec.Label(c.Conf.Transport == "ws", "ws")
	rec.Label(c.Conf.Transport == "kcp", "kcp")
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:   "C20",
		Rule: "histories: at least ten operations, a broadcast to several ids and an id replaced or deleted; schedules: at least four registrations and four notifications; connections: several ids and more than two notifications",
		Assumptions: []string{
			"registered connections are not nil",
			"connections do not call the notifier from inside their send methods",
		},
		Facets: []hx.Facet{
			hx.F("histories", 120000, 4000000, gen, run),
			hx.F("schedules", 25000, 800000, genRace, runRace, hx.Par(4)),
			hx.F("connections", 2000, 40000, genLive, runLive, hx.OneShot()),
		},
	})
}
