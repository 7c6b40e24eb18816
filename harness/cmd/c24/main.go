// C24: the demo game's areas of interest.
package main

import (
	"fmt"
	"math"
	"os"
	"sort"
	"sync"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/api"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/core"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/pb"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"

	"verif/hx"
)

// ---------------------------------------------------------------- the model: columns and rows

type Area struct{ MinX, MaxX, CntsX, MinY, MaxY, CntsY int }

func genArea(t *rapid.T, max int) Area {
	if rapid.IntRange(0, 9).Draw(t, "game") == 0 {
		return Area{core.AOI_MIN_X, core.AOI_MAX_X, core.AOI_CNTS_X, core.AOI_MIN_Y, core.AOI_MAX_Y, core.AOI_CNTS_Y}
	}
	a := Area{CntsX: rapid.IntRange(1, max).Draw(t, "cx"), CntsY: rapid.IntRange(1, max).Draw(t, "cy")}
	min := rapid.SampledFrom([]int{0, 85, -100, 7, -3, 1000})
	a.MinX, a.MinY = min.Draw(t, "minx"), min.Draw(t, "miny")
	a.MaxX = a.MinX + a.CntsX*rapid.IntRange(1, 40).Draw(t, "w") + rapid.IntRange(0, a.CntsX-1).Draw(t, "restx")
	a.MaxY = a.MinY + a.CntsY*rapid.IntRange(1, 40).Draw(t, "h") + rapid.IntRange(0, a.CntsY-1).Draw(t, "resty")
	return a
}

func (a Area) make() *core.AOIManager {
	return core.NewAOIManager(a.MinX, a.MaxX, a.CntsX, a.MinY, a.MaxY, a.CntsY)
}

// cell is the column (or row) of a coordinate: what the division leaves over, and what lies outside,
// belongs to the cell nearest to it.
func cell(p float32, min, max, cnts int) int {
	w := (max - min) / cnts
	i := int(math.Floor((float64(p) - float64(min)) / float64(w)))
	switch {
	case i < 0:
		return 0
	case i >= cnts:
		return cnts - 1
	}
	return i
}

func (a Area) at(x, y float32) int {
	return cell(y, a.MinY, a.MaxY, a.CntsY)*a.CntsX + cell(x, a.MinX, a.MaxX, a.CntsX)
}

func (a Area) near(g, h int) bool {
	dx, dy := g%a.CntsX-h%a.CntsX, g/a.CntsX-h/a.CntsX
	return dx >= -1 && dx <= 1 && dy >= -1 && dy <= 1
}

// Pos is a position as the game sends it.
type Pos struct{ X, Y float32 }

func genCoord(t *rapid.T, name string, min, max, cnts int, out bool) float32 {
	w := (max - min) / cnts
	switch rapid.IntRange(0, 5).Draw(t, name) {
	case 0, 1: // at or next to an edge between cells
		e := float32(min + w*rapid.IntRange(0, cnts).Draw(t, "edge"))
		e += rapid.SampledFrom([]float32{0, -0.5, 0.5, -1, 1}).Draw(t, "off")
		if !out {
			e = float32(math.Max(float64(min), math.Min(float64(max), float64(e))))
		}
		return e
	case 2:
		if out {
			return rapid.SampledFrom([]float32{float32(min) - 0.25, float32(min) - 1000, float32(max) + 0.25, float32(max) + 1000, 1e9, -1e9, float32(max)}).Draw(t, "outside")
		}
		return float32(max)
	}
	return float32(min) + float32(rapid.IntRange(0, (max-min)*4).Draw(t, "q"))/4
}

func genPos(t *rapid.T, a Area, out bool) Pos {
	return Pos{genCoord(t, "x", a.MinX, a.MaxX, a.CntsX, out), genCoord(t, "y", a.MinY, a.MaxY, a.CntsY, out)}
}

// ---------------------------------------------------------------- geometry

type GeoCase struct {
	Area Area
	Pos  []Pos
}

func genGeo(t *rapid.T) GeoCase {
	c := GeoCase{Area: genArea(t, 12)}
	for i := 0; i < 12; i++ {
		c.Pos = append(c.Pos, genPos(t, c.Area, i%2 == 0))
	}
	return c
}

func gids(gs []*core.GrID) []int {
	out := []int{}
	for _, g := range gs {
		if g == nil {
			out = append(out, -999)
		} else {
			out = append(out, g.GID)
		}
	}
	sort.Ints(out)
	return out
}

func runGeo(c GeoCase, r *hx.Rec) error {
	a := c.Area
	m := a.make()
	n := a.CntsX * a.CntsY
	for g := -2; g < n+2; g++ {
		want := []int{}
		for h := 0; h < n && g >= 0 && g < n; h++ {
			if a.near(g, h) {
				want = append(want, h)
			}
		}
		if got := gids(m.GetSurroundGrIDsByGID(g)); fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Errorf("%+v: around grid %d: %v, not %v", a, g, got, want)
		}
	}
	for _, p := range c.Pos {
		if got, want := m.GetGIDByPos(p.X, p.Y), a.at(p.X, p.Y); got != want {
			return fmt.Errorf("%+v: the position %v,%v is in grid %d, not %d", a, p.X, p.Y, got, want)
		}
	}
	r.Label((a.MaxX-a.MinX)%a.CntsX != 0, "columns do not divide the width")
	r.Label(a.MinX < 0, "negative coordinates")
	r.Label(a.CntsX == 1 || a.CntsY == 1, "one column or row")
	r.Nontrivial(n > 1)
	return nil
}

// ---------------------------------------------------------------- who is where

// Op: 0 add at a position, 1 remove at a position, 2 add to a grid, 3 remove from a grid
type GridOp struct {
	K, P, G int
	Pos     Pos
}

type GridCase struct {
	Area Area
	Ops  []GridOp
	Ask  []Pos
	Par  int // 1: in turn; more: at the same time, each its own players
}

func genGrid(t *rapid.T) GridCase {
	c := GridCase{Area: genArea(t, 6), Par: rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "par")}
	for i := rapid.IntRange(1, 60).Draw(t, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, GridOp{K: rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3}).Draw(t, "k"), P: rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 7, 8, 4097, 65538, 1<<31 - 1}).Draw(t, "p"),
			G: rapid.IntRange(0, c.Area.CntsX*c.Area.CntsY-1).Draw(t, "g"), Pos: genPos(t, c.Area, true)})
	}
	for i := 0; i < 4; i++ {
		c.Ask = append(c.Ask, genPos(t, c.Area, true))
	}
	return c
}

func runGrid(c GridCase, r *hx.Rec) error {
	a := c.Area
	m := a.make()
	in := map[[2]int]bool{} // grid, player
	do := func(o GridOp) {
		switch o.K {
		case 0:
			m.AddToGrIDByPos(o.P, o.Pos.X, o.Pos.Y)
		case 1:
			m.RemoveFromGrIDByPos(o.P, o.Pos.X, o.Pos.Y)
		case 2:
			m.AddPIDToGrID(o.P, o.G)
		case 3:
			m.RemovePIDFromGrID(o.P, o.G)
		}
	}
	check := func() error {
		n := a.CntsX * a.CntsY
		for g := 0; g < n; g++ {
			want := []int{}
			for k := range in {
				if k[0] == g {
					want = append(want, k[1])
				}
			}
			sort.Ints(want)
			got := append([]int{}, m.GetPIDsByGID(g)...)
			sort.Ints(got)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("%+v: in grid %d: %v, not %v", a, g, got, want)
			}
		}
		for _, p := range c.Ask {
			want := []int{}
			for k := range in {
				if a.near(k[0], a.at(p.X, p.Y)) {
					want = append(want, k[1])
				}
			}
			sort.Ints(want)
			got := append([]int{}, m.GetPIDsByPos(p.X, p.Y)...)
			sort.Ints(got)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("%+v: around %v,%v: %v, not %v", a, p.X, p.Y, got, want)
			}
		}
		return nil
	}
	model := func(o GridOp) {
		g := o.G
		if o.K < 2 {
			g = a.at(o.Pos.X, o.Pos.Y)
		}
		if o.K%2 == 0 {
			in[[2]int{g, o.P}] = true
		} else {
			delete(in, [2]int{g, o.P})
		}
	}
	if c.Par == 1 {
		for i, o := range c.Ops {
			do(o)
			model(o)
			if err := check(); err != nil {
				return fmt.Errorf("after step %d: %v", i, err)
			}
		}
	} else {
		var wg sync.WaitGroup
		for w := 0; w < c.Par; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for _, o := range c.Ops {
					if o.P%c.Par == w {
						do(o)
						m.GetPIDsByPos(o.Pos.X, o.Pos.Y)
					}
				}
			}(w)
		}
		wg.Wait()
		for _, o := range c.Ops {
			model(o)
		}
		if err := check(); err != nil {
			return err
		}
	}
	r.Label(true, fmt.Sprintf("par %d", c.Par))
	r.Nontrivial(len(in) > 1)
	return nil
}

// ---------------------------------------------------------------- the world and what its players see

type conn struct {
	ziface.IConnection
	pid   int32
	props map[string]interface{}
	see   map[int32]Pos4
	chat  []string
	bad   error
	dead  bool
}

type Pos4 struct{ X, Y, Z, V float32 }

func at(p *pb.Position) Pos4 { return Pos4{p.X, p.Y, p.Z, p.V} }

func (c *conn) fail(f string, a ...interface{}) {
	if c.bad == nil {
		c.bad = fmt.Errorf("player %d: "+f, append([]interface{}{c.pid}, a...)...)
	}
}

// SendMsg is the player's client: it shows and hides what it is told.
func (c *conn) SendMsg(id uint32, data []byte) error {
	if c.dead {
		return fmt.Errorf("closed")
	}
	switch id {
	case 1:
		m := &pb.SyncPID{}
		if err := proto.Unmarshal(data, m); err != nil {
			c.fail("message 1: %v", err)
		}
		c.pid = m.PID
	case 200:
		m := &pb.BroadCast{}
		if err := proto.Unmarshal(data, m); err != nil {
			c.fail("message 200: %v", err)
			return nil
		}
		switch d := m.Data.(type) {
		case *pb.BroadCast_Content:
			if m.Tp != 1 {
				c.fail("a chat broadcast has type %d, not 1", m.Tp)
			}
			c.chat = append(c.chat, fmt.Sprint(m.PID, ":", d.Content))
		case *pb.BroadCast_P:
			if m.Tp != 2 && m.Tp != 4 {
				c.fail("a position broadcast has type %d, neither 2 nor 4", m.Tp)
			}
			c.see[m.PID] = at(d.P)
		default:
			c.fail("message 200 of type %d with %T", m.Tp, m.Data)
		}
	case 201:
		m := &pb.SyncPID{}
		if err := proto.Unmarshal(data, m); err != nil {
			c.fail("message 201: %v", err)
		}
		delete(c.see, m.PID)
	case 202:
		m := &pb.SyncPlayers{}
		if err := proto.Unmarshal(data, m); err != nil {
			c.fail("message 202: %v", err)
			return nil
		}
		for _, p := range m.Ps {
			c.see[p.PID] = at(p.P)
		}
	default:
		c.fail("message %d", id)
	}
	return nil
}

func (c *conn) GetProperty(k string) (interface{}, error) {
	if v, ok := c.props[k]; ok {
		return v, nil
	}
	return nil, fmt.Errorf("no property %s", k)
}

type req struct {
	ziface.IRequest
	c    *conn
	data []byte
}

func (q *req) GetConnection() ziface.IConnection { return q.c }
func (q *req) GetData() []byte                   { return q.data }

// K: 0 join, 1 move, 2 leave, 3 chat, 4 a message that cannot be decoded
type WorldOp struct {
	K, P int
	Pos  Pos
	API  bool
}

type WorldCase struct {
	Area Area
	Ops  []WorldOp
}

func genWorld(t *rapid.T) WorldCase {
	c := WorldCase{Area: genArea(t, 7)}
	for i := rapid.IntRange(2, 40).Draw(t, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, WorldOp{K: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 1, 2, 3, 4}).Draw(t, "k"), P: rapid.IntRange(0, 20).Draw(t, "p"),
			Pos: genPos(t, c.Area, rapid.IntRange(0, 3).Draw(t, "out") == 0), API: rapid.Bool().Draw(t, "api")})
	}
	return c
}

func runWorld(c WorldCase, r *hx.Rec) error {
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	return hx.Virtual(r, func() error {
		a := c.Area
		core.WorldMgrObj = &core.WorldManager{Players: map[int32]*core.Player{}, AoiMgr: a.make()}
		type pl struct {
			p   *core.Player
			c   *conn
			pos Pos4
		}
		var live []*pl
		ids := map[int32]bool{}
		moves, crossings, most := 0, 0, 0
		var said []string
		for i, o := range c.Ops {
			var x *pl
			if len(live) > 0 {
				x = live[o.P%len(live)]
			}
			to := Pos4{o.Pos.X, float32(i), o.Pos.Y, float32(i % 360)}
			call := func(f func()) error {
				if pan := hx.Call(f); pan != nil {
					return fmt.Errorf("%+v: step %d %+v: %v", a, i, o, pan)
				}
				return nil
			}
			var err error
			switch {
			case o.K == 0 || x == nil:
				cn := &conn{props: map[string]interface{}{}, see: map[int32]Pos4{}}
				x = &pl{c: cn, pos: to}
				err = call(func() {
					x.p = core.NewPlayer(cn)
					x.p.X, x.p.Y, x.p.Z, x.p.V = to.X, to.Y, to.Z, to.V
					x.p.SyncPID()
					x.p.BroadCastStartPosition()
					core.WorldMgrObj.AddPlayer(x.p)
					cn.props["pID"] = x.p.PID
					x.p.SyncSurrounding()
				})
				if err == nil && cn.pid != x.p.PID {
					return fmt.Errorf("player %d was told its id is %d", x.p.PID, cn.pid)
				}
				if err == nil && ids[x.p.PID] {
					return fmt.Errorf("two players have the id %d", x.p.PID)
				}
				live = append(live, x)
				if err == nil {
					ids[x.p.PID] = true
				}
			case o.K == 1:
				moves++
				if a.at(to.X, to.Z) != a.at(x.pos.X, x.pos.Z) {
					crossings++
				}
				x.pos = to
				err = call(func() {
					if o.API {
						b, _ := proto.Marshal(&pb.Position{X: to.X, Y: to.Y, Z: to.Z, V: to.V})
						(&api.MoveApi{}).Handle(&req{c: x.c, data: b})
					} else {
						x.p.UpdatePos(to.X, to.Y, to.Z, to.V)
					}
				})
			case o.K == 2:
				err = call(x.p.LostConnection)
				x.c.dead = true
				for j := range live {
					if live[j] == x {
						live = append(live[:j], live[j+1:]...)
						break
					}
				}
			case o.K == 3:
				said = append(said, fmt.Sprint(x.p.PID, ":", i))
				for _, y := range live {
					y.c.chat = nil
				}
				err = call(func() {
					if o.API {
						b, _ := proto.Marshal(&pb.Talk{Content: fmt.Sprint(i)})
						(&api.WorldChatApi{}).Handle(&req{c: x.c, data: b})
					} else {
						x.p.Talk(fmt.Sprint(i))
					}
				})
				for _, y := range live {
					if len(y.c.chat) != 1 || y.c.chat[0] != said[len(said)-1] {
						return fmt.Errorf("step %d: player %d hears %q, not %q", i, y.p.PID, y.c.chat, said[len(said)-1])
					}
				}
			default:
				err = call(func() {
					(&api.MoveApi{}).Handle(&req{c: x.c, data: []byte{0xff, 0xff}})
					(&api.WorldChatApi{}).Handle(&req{c: x.c, data: []byte{0xff, 0xff}})
				})
			}
			if err != nil {
				return err
			}
			if len(live) > most {
				most = len(live)
			}
			// everybody sees exactly the players around, where they are
			if n := len(core.WorldMgrObj.GetAllPlayers()); n != len(live) {
				return fmt.Errorf("step %d: %d players are in the world, not %d", i, n, len(live))
			}
			for _, y := range live {
				if y.c.bad != nil {
					return y.c.bad
				}
				if core.WorldMgrObj.GetPlayerByPID(y.p.PID) != y.p {
					return fmt.Errorf("step %d: player %d is not found", i, y.p.PID)
				}
				want := map[int32]Pos4{}
				for _, z := range live {
					if a.near(a.at(y.pos.X, y.pos.Z), a.at(z.pos.X, z.pos.Z)) {
						want[z.p.PID] = z.pos
					}
				}
				for id, p := range want {
					if q, ok := y.c.see[id]; !ok || q != p {
						return fmt.Errorf("%+v: step %d %+v: player %d, at %v, sees player %d: %v %v; it is at %v", a, i, o, y.p.PID, y.pos, id, ok, q, p)
					}
				}
				for id := range y.c.see {
					if _, ok := want[id]; !ok {
						return fmt.Errorf("%+v: step %d %+v: player %d, at %v, still sees player %d, which is not around", a, i, o, y.p.PID, y.pos, id)
					}
				}
				sur := map[int32]int{}
				for _, z := range y.p.GetSurroundingPlayers() {
					if z != nil {
						sur[z.PID]++
					}
				}
				if len(sur) != len(want) {
					return fmt.Errorf("step %d: %d players surround player %d, not %d", i, len(sur), y.p.PID, len(want))
				}
				for id := range want {
					if sur[id] != 1 {
						return fmt.Errorf("step %d: player %d is found %d times around player %d", i, id, sur[id], y.p.PID)
					}
				}
			}
		}
		r.Label(crossings > 0, "a grid was crossed")
		r.Label(most > 3, "more than 3 players")
		r.Nontrivial(most > 1 && moves > 0)
		return nil
	})
}

func main() {
	hx.Main(hx.Property{
		ID:   "C24",
		Rule: "geometry: more than one grid; grids: more than one entry at the end; world: two players at once and a move; game: a player moved to another grid or left while others were there; crowd: two or more players leave at once",
		Assumptions: []string{
			"every grid is at least one unit wide and long",
			"what the players see is asserted when the calls are made one after another; of players who act at the same time, that none fails because of another and that exactly those who stay are left in the world and its grids",
		},
		Facets: []hx.Facet{
			hx.F("geometry", 20000, 300000, genGeo, runGeo),
			hx.F("grids", 10000, 150000, genGrid, runGrid),
			hx.F("world", 2000, 30000, genWorld, runWorld, hx.OneShot()),
			hx.F("game", 400, 8000, genGame, runGame, hx.OneShot(), hx.Timeout(300*time.Second)),
			hx.F("crowd", 1200, 30000, genCrowd, runCrowd, hx.OneShot()),
		},
	})
}
