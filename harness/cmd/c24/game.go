package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/aceld/zinx/zinx_app_demo/mmo_game/core"
	"github.com/aceld/zinx/zinx_app_demo/mmo_game/pb"
	"github.com/golang/protobuf/proto"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---------------------------------------------------------------- the game server itself, over the network

type GameCase struct{ Ops []WorldOp }

func genGame(t *rapid.T) GameCase {
	var c GameCase
	a := Area{core.AOI_MIN_X, core.AOI_MAX_X, core.AOI_CNTS_X, core.AOI_MIN_Y, core.AOI_MAX_Y, core.AOI_CNTS_Y}
	near := rapid.Custom(func(t *rapid.T) Pos {
		return Pos{rapid.Float32Range(100, 260).Draw(t, "x"), rapid.Float32Range(100, 240).Draw(t, "y")}
	})
	for i := rapid.IntRange(2, 9).Draw(t, "ops"); i > 0; i-- {
		p := near.Draw(t, "near")
		if rapid.IntRange(0, 3).Draw(t, "far") == 0 {
			p = genPos(t, a, rapid.Bool().Draw(t, "out"))
		}
		c.Ops = append(c.Ops, WorldOp{K: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 2, 3, 4}).Draw(t, "k"), P: rapid.IntRange(0, 20).Draw(t, "p"), Pos: p})
	}
	return c
}

// gamer is a player's client at the other end of a socket.
type gamer struct {
	conn
	mu   sync.Mutex
	nc   net.Conn
	pos  Pos4
	ends chan struct{}
}

func (g *gamer) read() {
	defer close(g.ends)
	for {
		h := make([]byte, 8)
		if _, err := io.ReadFull(g.nc, h); err != nil {
			return
		}
		b := make([]byte, binary.LittleEndian.Uint32(h))
		if _, err := io.ReadFull(g.nc, b); err != nil {
			return
		}
		g.mu.Lock()
		_ = g.SendMsg(binary.LittleEndian.Uint32(h[4:]), b)
		g.mu.Unlock()
	}
}

func (g *gamer) say(id uint32, b []byte) error {
	m := binary.LittleEndian.AppendUint32(nil, uint32(len(b)))
	m = binary.LittleEndian.AppendUint32(m, id)
	_, err := g.nc.Write(append(m, b...))
	return err
}

// runGame fails when the history fails each of three times: what a player who
// leaves is still shown to for a moment is not told apart otherwise.
func runGame(c GameCase, r *hx.Rec) (err error) {
	for i := 0; i < 3; i++ {
		if err = playGame(c, r); err == nil {
			return nil
		}
	}
	return err
}

func playGame(c GameCase, r *hx.Rec) error {
	exe := os.Getenv("VERIF_GAME")
	if exe == "" {
		return fmt.Errorf("HARNESS: VERIF_GAME is not set")
	}
	dir, err := os.MkdirTemp("", "game-")
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer os.RemoveAll(dir)
	js, _ := json.Marshal(map[string]any{"Name": "game", "Host": nx.IP(), "TCPPort": nx.TCPPort, "MaxConn": 100, "WorkerPoolSize": 4,
		"LogDir": filepath.Join(dir, "log"), "LogFile": "g.log"})
	conf := filepath.Join(dir, "g.json")
	if err := os.WriteFile(conf, js, 0o644); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	cmd := exec.Command(exe)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "ZINX_CONFIG_FILE_PATH="+conf)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	gone := make(chan struct{})
	go func() { _ = cmd.Wait(); close(gone) }()
	defer func() { _ = cmd.Process.Kill(); <-gone }()

	a := Area{core.AOI_MIN_X, core.AOI_MAX_X, core.AOI_CNTS_X, core.AOI_MIN_Y, core.AOI_MAX_Y, core.AOI_CNTS_Y}
	var live []*gamer
	defer func() {
		for _, g := range live {
			g.nc.Close()
		}
	}()
	dial := func() (net.Conn, error) {
		end := time.Now().Add(nx.Patience)
		for {
			nc, err := net.Dial("tcp4", fmt.Sprintf("%s:%d", nx.IP(), nx.TCPPort))
			if err == nil {
				return nc, nil
			}
			select {
			case <-gone:
				return nil, fmt.Errorf("the server ended: %v", cmd.ProcessState)
			default:
			}
			if time.Now().After(end) {
				return nil, fmt.Errorf("no connection within %v: %v", nx.Patience, err)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	until := func(what string, f func() error) error {
		var err error
		hx.Wait(nx.Patience, func() bool {
			for _, g := range live {
				g.mu.Lock()
			}
			err = f()
			for _, g := range live {
				if g.bad != nil {
					err = g.bad
				}
				g.mu.Unlock()
			}
			return err == nil
		})
		if err != nil {
			return fmt.Errorf("%s, and %v later: %w", what, nx.Patience, err)
		}
		return nil
	}
	most, crossings, left := 0, 0, 0
	for i, o := range c.Ops {
		var x *gamer
		if len(live) > 0 {
			x = live[o.P%len(live)]
		}
		what := fmt.Sprintf("step %d", i)
		switch {
		case o.K == 0 && len(live) < 4 || x == nil:
			nc, err := dial()
			if err != nil {
				return err
			}
			x = &gamer{conn: conn{see: map[int32]Pos4{}}, nc: nc, ends: make(chan struct{})}
			live = append(live, x)
			go x.read()
			// the server places the player and tells it where
			if err := until(what+": a player joined", func() error {
				if x.pid == 0 {
					return fmt.Errorf("it is not told its id")
				}
				p, ok := x.see[x.pid]
				if !ok {
					return fmt.Errorf("it is not told where it is")
				}
				x.pos = p
				return nil
			}); err != nil {
				return err
			}
			for _, y := range live {
				if y != x && y.pid == x.pid {
					return fmt.Errorf("%s: two players have the id %d", what, x.pid)
				}
			}
			what += fmt.Sprintf(": player %d joined at %v", x.pid, x.pos)
		case o.K == 1:
			to := Pos4{o.Pos.X, float32(i), o.Pos.Y, float32(i)}
			if a.at(to.X, to.Z) != a.at(x.pos.X, x.pos.Z) {
				crossings++
			}
			what += fmt.Sprintf(": player %d moved from %v to %v", x.pid, x.pos, to)
			x.pos = to
			b, _ := proto.Marshal(&pb.Position{X: to.X, Y: to.Y, Z: to.Z, V: to.V})
			if err := x.say(3, b); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
		case o.K == 2:
			what += fmt.Sprintf(": player %d left", x.pid)
			x.nc.Close()
			<-x.ends
			for j := range live {
				if live[j] == x {
					live = append(live[:j], live[j+1:]...)
					break
				}
			}
			x = nil
			left++
		case o.K == 4:
			_ = x.say(3, []byte{0xff, 0xff})
			_ = x.say(2, []byte{0xff, 0xff})
			_ = x.say(77, nil)
		}
		if len(live) > most {
			most = len(live)
		}
		if x != nil { // its next word is heard when what it did is done
			for _, y := range live {
				y.mu.Lock()
				y.chat = nil
				y.mu.Unlock()
			}
			b, _ := proto.Marshal(&pb.Talk{Content: fmt.Sprint(i)})
			if err := x.say(2, b); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			want := fmt.Sprint(x.pid, ":", i)
			if err := until(what, func() error {
				for _, y := range live {
					if len(y.chat) != 1 || y.chat[0] != want {
						return fmt.Errorf("player %d hears %q, not %q", y.pid, y.chat, want)
					}
				}
				return nil
			}); err != nil {
				return err
			}
		}
		if err := until(what, func() error {
			for _, y := range live {
				want := map[int32]Pos4{}
				for _, z := range live {
					if a.near(a.at(y.pos.X, y.pos.Z), a.at(z.pos.X, z.pos.Z)) {
						want[z.pid] = z.pos
					}
				}
				for id, p := range want {
					if q, ok := y.see[id]; !ok || q != p {
						return fmt.Errorf("player %d, at %v, sees player %d: %v %v; it is at %v", y.pid, y.pos, id, ok, q, p)
					}
				}
				for id := range y.see {
					if _, ok := want[id]; !ok {
						return fmt.Errorf("player %d, at %v, still sees player %d, which is not around", y.pid, y.pos, id)
					}
				}
			}
			return nil
		}); err != nil {
			return err
		}
		if x == nil {
			time.Sleep(50 * time.Millisecond) // the server has the rest of it to do
		}
	}
	r.Label(crossings > 0, "a grid was crossed")
	r.Label(left > 0, "a player left")
	r.Nontrivial(most > 1 && crossings+left > 0)
	return nil
}
