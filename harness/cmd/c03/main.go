// C03: checksummed (HTLV+CRC) frames: intact ones are delivered, corrupt ones never.
package main

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// crc is the bitwise Modbus CRC-16 (poly 0xA001, init 0xFFFF), low byte first.
func crc(b []byte) [2]byte {
	c := uint16(0xFFFF)
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xA001
			} else {
				c >>= 1
			}
		}
	}
	return [2]byte{byte(c), byte(c >> 8)}
}

func frame(head, fn byte, body []byte) []byte {
	f := append([]byte{head, fn, byte(len(body))}, body...)
	k := crc(f)
	return append(f, k[0], k[1])
}

// Flip corrupts a frame: XOR Mask at position Pos (modulo the frame).
type Flip struct {
	Pos  int
	Mask byte
}

type Fr struct {
	Head, Fn byte
	N        int
	Flips    []Flip `json:",omitempty"`
	AnyPos   bool   `json:",omitempty"` // also the length byte may be hit
}

func (f Fr) bytes(seed int) []byte {
	b := frame(f.Head, f.Fn, hx.Fill(uint64(seed), f.N))
	for _, x := range f.Flips {
		p := x.Pos % len(b)
		if p == 2 && !f.AnyPos {
			p = 3 // keep the framing: the byte after the length
		}
		b[p] ^= x.Mask
	}
	return b
}

func genFr(t *rapid.T) Fr {
	f := Fr{Head: byte(rapid.SampledFrom([]int{0xA2, 0, 0xFF, 0x55}).Draw(t, "head")),
		Fn: rapid.Byte().Draw(t, "fn"),
		N:  rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 1, 252, 253, 254, 255})).Draw(t, "n")}
	if rapid.IntRange(0, 2).Draw(t, "corrupt") == 0 {
		f.Flips = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Flip {
			m := rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{1, 2, 4, 8, 16, 32, 64, 128, 255})).Draw(t, "mask")
			p := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 260), rapid.Custom(func(t *rapid.T) int { return f.N + 3 + rapid.IntRange(0, 1).Draw(t, "crcbyte") })).Draw(t, "pos")
			return Flip{p, m}
		}), 1, 3).Draw(t, "flips")
	}
	return f
}

// ---- decoder alone

type DCase struct{ Frames []Fr }

type end struct{ got []ziface.IRequest }

func (e *end) Intercept(c ziface.IChain) ziface.IcResp {
	e.got = append(e.got, c.Request().(ziface.IRequest))
	return nil
}

func check(q ziface.IRequest, b []byte) error {
	if q.GetMsgID() != uint32(b[1]) {
		return fmt.Errorf("frame % x delivered with id %d", clip(b), q.GetMsgID())
	}
	if !bytes.Equal(q.GetData(), b) {
		return fmt.Errorf("frame % x delivered with data % x", clip(b), clip(q.GetData()))
	}
	r, ok := q.GetResponse().(zdecoder.HtlvCrcDecoder)
	if !ok {
		return fmt.Errorf("frame % x delivered with decoded value %T", clip(b), q.GetResponse())
	}
	if r.Head != b[0] || r.Funcode != b[1] || r.Length != b[2] || !bytes.Equal(r.Body, b[3:len(b)-2]) || !bytes.Equal(r.Crc, b[len(b)-2:]) || !bytes.Equal(r.Data, b) {
		return fmt.Errorf("frame % x decoded to head %x fn %x len %d body % x crc % x", clip(b), r.Head, r.Funcode, r.Length, clip(r.Body), r.Crc)
	}
	return nil
}

func valid(b []byte) bool {
	k := crc(b[:len(b)-2])
	return k[0] == b[len(b)-2] && k[1] == b[len(b)-1]
}

func runD(c DCase, rec *hx.Rec) error {
	dec := zdecoder.NewHTLVCRCDecoder()
	bad, good := 0, 0
	for i, f := range c.Frames {
		b := f.bytes(i + 1)
		k := zdecoder.GetCrC(b[:len(b)-2])
		if w := crc(b[:len(b)-2]); len(k) != 2 || k[0] != w[0] || k[1] != w[1] {
			return fmt.Errorf("CRC of % x is % x, Modbus CRC-16 is % x", clip(b[:len(b)-2]), k, w)
		}
		if zdecoder.CheckCRC(b[:len(b)-2], b[len(b)-2:]) != valid(b) {
			return fmt.Errorf("checksum verdict on % x is wrong", clip(b))
		}
		e := &end{}
		in := append([]byte{}, b...)
		q := znet.NewRequest(nil, zpack.NewMessage(uint32(len(in)), in))
		if pan := hx.Call(func() { zinterceptor.NewChain([]ziface.IInterceptor{dec, e}, 0, q).Proceed(q) }); pan != nil {
			return fmt.Errorf("decoding % x (checksum right: %v): %v", clip(b), valid(b), pan)
		}
		if !valid(b) {
			bad++
			if len(e.got) != 0 {
				return fmt.Errorf("corrupt frame % x was passed on", clip(b))
			}
			continue
		}
		good++
		if len(e.got) != 1 {
			return fmt.Errorf("valid frame % x passed on %d times", clip(b), len(e.got))
		}
		if err := check(e.got[0], b); err != nil {
			return err
		}
	}
	rec.Label(bad > 0, "corrupt")
	rec.Label(good > 0, "valid")
	rec.Nontrivial(bad+good > 0)
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// ---- live

type Conn struct {
	Frames []Fr
	Chunks []int
}

type LCase struct {
	Conf  nx.Conf
	Conns []Conn
}

func genL(t *rapid.T) LCase {
	c := LCase{Conf: nx.Conf{
		Transport: rapid.SampledFrom([]string{"tcp", "tcp", "ws", "kcp"}).Draw(t, "tr"),
		Mode:      rapid.SampledFrom([]string{"", "Bind", "DynamicBind"}).Draw(t, "mode"),
		Pool:      uint32(rapid.IntRange(1, 3).Draw(t, "pool")),
		MaxConn:   10,
		ReadBuf:   uint32(rapid.SampledFrom([]int{5, 64, 1024}).Draw(t, "rb")),
		Slices:    rapid.Bool().Draw(t, "slices"),
		ReqPool:   rapid.Bool().Draw(t, "reqpool"),
	}}
	n := rapid.IntRange(1, 4).Draw(t, "conns")
	for i := 0; i < n; i++ {
		fr := rapid.Custom(func(t *rapid.T) Fr {
			f := genFr(t)
			f.AnyPos = rapid.IntRange(0, 5).Draw(t, "any") == 0
			return f
		})
		c.Conns = append(c.Conns, Conn{rapid.SliceOfN(fr, 1, 20).Draw(t, "frames"),
			rapid.SliceOfN(rapid.IntRange(1, 200), 0, 4).Draw(t, "chunks")})
	}
	return c
}

const sentinel = 250 // function code of the frames that end a script; every other code < 128 is registered

// parse is the reference: cut by the length byte, keep what has a right checksum and a registered code.
func parse(s []byte) (out [][]byte, corrupt int, rest int) {
	for len(s) >= 3 {
		n := int(s[2]) + 5
		if len(s) < n {
			break
		}
		if !valid(s[:n]) {
			corrupt++
		} else if s[1] < 128 || s[1] == sentinel {
			out = append(out, s[:n])
		}
		s = s[n:]
	}
	return out, corrupt, len(s)
}

func runL(c LCase, rec *hx.Rec) error {
	s, err := nx.Server(c.Conf)
	if err != nil {
		return err
	}
	s.SetDecoder(zdecoder.NewHTLVCRCDecoder())
	var mu sync.Mutex
	got := map[string][][]byte{}
	total := 0
	var bad error
	h := func(q ziface.IRequest) {
		b := append([]byte{}, q.GetData()...)
		var e error
		if len(b) < 5 {
			e = fmt.Errorf("a request of %d bytes was delivered", len(b))
		} else {
			e = check(q, b)
		}
		mu.Lock()
		defer mu.Unlock()
		if bad == nil {
			bad = e
		}
		a := nx.Port(q.GetConnection().RemoteAddrString())
		got[a] = append(got[a], b)
		total++
	}
	for id := uint32(0); id < 128; id++ {
		nx.Route(s, c.Conf.Slices, id, h)
	}
	nx.Route(s, c.Conf.Slices, sentinel, h)
	s.Start()
	if err := nx.Up(c.Conf.Transport); err != nil {
		return err
	}
	want := 0
	type exp struct {
		addr   string
		frames [][]byte
	}
	var exps []exp
	var wg sync.WaitGroup
	nCorrupt := 0
	var peers []*nx.Peer
	for i, cc := range c.Conns {
		p, err := nx.Dial(c.Conf.Transport)
		if err != nil {
			return fmt.Errorf("dial: %v", err)
		}
		peers = append(peers, p)
		var st []byte
		for k, f := range cc.Frames {
			st = append(st, f.bytes(i*100+k+1)...)
		}
		st = append(st, frame(0xA2, sentinel, []byte("end"))...)
		fs, corrupt, _ := parse(st)
		nCorrupt += corrupt
		want += len(fs)
		exps = append(exps, exp{p.Local(), fs})
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := p.Write(st, cc.Chunks); err != nil {
				mu.Lock()
				if bad == nil {
					bad = fmt.Errorf("the server ended the connection: %v", err)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	hx.Wait(nx.Patience, func() bool { mu.Lock(); defer mu.Unlock(); return total >= want || bad != nil })
	time.Sleep(5 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	for i, e := range exps {
		g := got[e.addr]
		for k := 0; k < len(g) && k < len(e.frames); k++ {
			if !bytes.Equal(g[k], e.frames[k]) {
				return fmt.Errorf("connection %d: delivery #%d is % x, want % x", i, k, clip(g[k]), clip(e.frames[k]))
			}
		}
		if len(g) != len(e.frames) {
			return fmt.Errorf("connection %d: %d frames delivered, %d intact frames with a registered code were sent", i, len(g), len(e.frames))
		}
	}
	for _, p := range peers {
		p.Reset()
	}
	rec.Label(true, c.Conf.Transport)
	rec.Label(nCorrupt > 0, "corrupt")
	rec.Nontrivial(nCorrupt > 0 && want > 1)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:   "C03",
		Rule: "decoder: frames of generated head, function code and body length 0-255, a third corrupted by 1-3 byte flips (checksum, body, header); live: 1-4 connections (TCP, WebSocket, KCP) sending up to 20 such frames, some with the length byte corrupted too, in generated chunks. Oracle: bitwise Modbus CRC-16 and a reference parse of the byte stream. Non-trivial: live cases with at least one corrupt frame and two deliveries; all decoder cases.",
		Facets: []hx.Facet{
			hx.F("decoder", 20000, 600000, func(t *rapid.T) DCase {
				return DCase{rapid.SliceOfN(rapid.Custom(genFr), 1, 6).Draw(t, "frames")}
			}, runD),
			hx.F("live", 700, 25000, genL, runL, hx.OneShot()),
		},
	})
}
