package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/core"
	"pgregory.net/rapid"

	"verif/hx"
)

// ---------------------------------------------------------------- players who come, move, talk and leave at the same time

// deaf is a client that takes what it is told.
type deaf struct {
	ziface.IConnection
	mu    sync.Mutex
	gone  bool
	yield int
	n     int
}

func (d *deaf) SendMsg(uint32, []byte) error {
	d.mu.Lock()
	d.n++
	gone, y := d.gone, d.yield > 0 && d.n%d.yield == 0
	d.mu.Unlock()
	if y {
		runtime.Gosched()
	}
	if gone {
		return fmt.Errorf("closed")
	}
	return nil
}

type Life struct {
	Start Pos
	Moves []Pos // in its grid if Stay
	Talk  bool
	Stays bool
	Yield int
}

type CrowdCase struct {
	Area   Area
	Rounds int
	Procs  int
	Lives  []Life
}

func genCrowd(t *rapid.T) CrowdCase {
	c := CrowdCase{Area: genArea(t, 3), Rounds: rapid.IntRange(5, 60).Draw(t, "rounds"), Procs: rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "procs")}
	for i := rapid.IntRange(2, 8).Draw(t, "lives"); i > 0; i-- {
		l := Life{Start: genPos(t, c.Area, false), Talk: rapid.Bool().Draw(t, "talk"), Stays: rapid.IntRange(0, 3).Draw(t, "stays") == 0, Yield: rapid.IntRange(0, 3).Draw(t, "yield")}
		for j := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "moves"); j > 0; j-- {
			l.Moves = append(l.Moves, genPos(t, c.Area, rapid.IntRange(0, 3).Draw(t, "out") == 0))
		}
		c.Lives = append(c.Lives, l)
	}
	return c
}

func runCrowd(c CrowdCase, r *hx.Rec) error {
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	runtime.GOMAXPROCS(c.Procs)
	defer runtime.GOMAXPROCS(runtime.NumCPU())
	return hx.Virtual(r, func() error {
		a := c.Area
		moves := 0
		for round := 0; round < c.Rounds; round++ {
			core.WorldMgrObj = &core.WorldManager{Players: map[int32]*core.Player{}, AoiMgr: a.make()}
			w := core.WorldMgrObj
			errs := make([]error, len(c.Lives))
			ps := make([]*core.Player, len(c.Lives))
			ends := make([]Pos, len(c.Lives))
			bar := make(chan struct{})
			var wg sync.WaitGroup
			for i, l := range c.Lives {
				wg.Add(1)
				go func() {
					defer wg.Done()
					what := "arriving"
					cn := &deaf{yield: l.Yield}
					<-bar
					if pan := hx.Call(func() {
						p := core.NewPlayer(cn)
						ps[i] = p
						p.X, p.Z = l.Start.X, l.Start.Y
						ends[i] = l.Start
						p.SyncPID()
						p.BroadCastStartPosition()
						w.AddPlayer(p)
						p.SyncSurrounding()
						for _, to := range l.Moves {
							what = "moving"
							p.UpdatePos(to.X, 0, to.Y, 0)
							ends[i] = to
						}
						if l.Talk {
							what = "talking"
							p.Talk("hi")
						}
						if !l.Stays {
							what = "leaving"
							cn.mu.Lock()
							cn.gone = true
							cn.mu.Unlock()
							p.LostConnection()
						}
					}); pan != nil {
						errs[i] = fmt.Errorf("player %d of %d, %s: %v", i, len(c.Lives), what, pan)
					}
				}()
			}
			close(bar)
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return fmt.Errorf("round %d: %v", round, err)
				}
			}
			stay := map[int]int{} // id -> grid
			for i, l := range c.Lives {
				moves += len(l.Moves)
				if l.Stays {
					stay[int(ps[i].PID)] = a.at(ends[i].X, ends[i].Y)
				}
			}
			if len(stay) != 0 && len(ids(stay)) != len(stay) {
				return fmt.Errorf("HARNESS")
			}
			all := w.GetAllPlayers()
			if len(all) != len(stay) {
				return fmt.Errorf("round %d: %d players are in the world, but %d stayed", round, len(all), len(stay))
			}
			for _, p := range all {
				if _, ok := stay[int(p.PID)]; !ok {
					return fmt.Errorf("round %d: player %d is in the world, but has left", round, p.PID)
				}
			}
			for g := 0; g < a.CntsX*a.CntsY; g++ {
				var want []int
				for id, at := range stay {
					if at == g {
						want = append(want, id)
					}
				}
				got := append([]int{}, w.AoiMgr.GetPIDsByGID(g)...)
				sort.Ints(got)
				sort.Ints(want)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("round %d: grid %d holds %v, not %v", round, g, got, want)
				}
			}
		}
		r.Label(moves > 0, "moves")
		leavers := 0
		for _, l := range c.Lives {
			if !l.Stays {
				leavers++
			}
		}
		r.Label(leavers > 1, "several leave at once")
		r.Nontrivial(leavers > 1)
		return nil
	})
}

func ids(m map[int]int) (l []int) {
	for k := range m {
		l = append(l, k)
	}
	return l
}
