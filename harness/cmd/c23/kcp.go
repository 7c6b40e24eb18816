package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/xtaci/kcp-go"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---------------------------------------------------------------- KCP options, seen on the wire

// KcpCase is a KCP server's configuration. The peer's packets pass through a relay that
// looks at what the server sends; in the dark, none of it reaches the peer.
type KcpCase struct {
	How        string // object, global
	Send, Recv int
	Nc         int
	Stream     bool
	Data, Par  int
	Dark       bool
	Size       int
}

func genKcp(t *rapid.T) KcpCase {
	c := KcpCase{
		How:    rapid.SampledFrom([]string{"object", "global"}).Draw(t, "how"),
		Send:   rapid.OneOf(rapid.IntRange(2, 60), rapid.SampledFrom([]int{1, 2, 31, 32, 33, 128, 200})).Draw(t, "send"),
		Recv:   rapid.OneOf(rapid.IntRange(33, 300), rapid.SampledFrom([]int{33, 128, 512, 1024})).Draw(t, "recv"),
		Stream: rapid.Bool().Draw(t, "stream"),
		Dark:   rapid.Bool().Draw(t, "dark"),
		Size:   rapid.IntRange(1, 200).Draw(t, "size"),
	}
	if c.Dark {
		c.Nc = rapid.IntRange(0, 1).Draw(t, "nc")
	}
	if c.How == "object" {
		c.Nc = 1 // an object cannot turn it off
		c.Dark = true
	}
	f := rapid.SampledFrom([][2]int{{0, 0}, {0, 0}, {10, 3}, {3, 1}, {2, 2}, {5, 4}}).Draw(t, "fec")
	c.Data, c.Par = f[0], f[1]
	return c
}

func runKcp(c KcpCase, rec *hx.Rec) error {
	nx.Quiet(0)
	g := zconf.GlobalObject
	ip := nx.IP()
	opt := func(z *zconf.Config) {
		z.KcpSendWindow, z.KcpRecvWindow, z.KcpStreamMode = c.Send, c.Recv, c.Stream
		z.KcpFecDataShards, z.KcpFecParityShards = c.Data, c.Par
		z.Host, z.KcpPort, z.Mode = ip, nx.KCPPort, zconf.ServerModeKcp
	}
	var s ziface.IServer
	if c.How == "object" {
		z := &zconf.Config{}
		opt(z)
		s = znet.NewUserConfServer(z)
	} else {
		opt(g)
		g.KcpNc = c.Nc
		s = znet.NewServer()
	}
	const n = 300
	var sent atomic.Int64
	s.AddRouter(1, &nx.Router{H: func(q ziface.IRequest) {
		for i := 0; i < n; i++ {
			if q.GetConnection().SendMsg(2, hx.Fill(uint64(i), c.Size)) != nil {
				return
			}
			sent.Add(1)
		}
	}})
	s.Start()
	if err := nx.Up("kcp"); err != nil {
		return err
	}
	srv, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf("%s:%d", ip, nx.KCPPort))
	front, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip)})
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	back, err := net.DialUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip)}, srv)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer front.Close()
	defer back.Close()
	_ = back.SetReadBuffer(4 << 20)
	var mu sync.Mutex
	var peer *net.UDPAddr
	var bad error
	sns := map[uint32]int{} // pushed segments and their sizes
	wnd, parity, pkts := 0, 0, 0
	go func() {
		b := make([]byte, 4096)
		for {
			k, a, err := front.ReadFromUDP(b)
			if err != nil {
				return
			}
			mu.Lock()
			peer = a
			mu.Unlock()
			_, _ = back.Write(b[:k])
		}
	}()
	go func() {
		b := make([]byte, 4096)
		for {
			k, err := back.Read(b)
			if err != nil {
				return
			}
			d := b[:k]
			mu.Lock()
			pkts++
			push := true
			if c.Data > 0 {
				flag := uint16(0)
				if len(d) >= 8 {
					flag = binary.LittleEndian.Uint16(d[4:])
				}
				at := int(binary.LittleEndian.Uint32(d)) % (c.Data + c.Par)
				switch {
				case flag != 0xf1 && flag != 0xf2:
					bad = fmt.Errorf("the server sends packets without error correction, %d+%d shards are configured", c.Data, c.Par)
				case (flag == 0xf1) != (at < c.Data):
					bad = fmt.Errorf("packet %d of a group is sent as type %x, %d+%d shards are configured", at, flag, c.Data, c.Par)
				}
				if flag == 0xf2 {
					parity++
				}
				push = flag == 0xf1
				if len(d) >= 8 {
					d = d[8:]
				}
			}
			for push && len(d) >= 24 {
				l := int(binary.LittleEndian.Uint32(d[20:]))
				if d[4] < 81 || d[4] > 84 || l > len(d)-24 {
					if bad == nil {
						bad = fmt.Errorf("a packet of the server is not plain KCP (command %d, length %d of %d): no error correction is configured", d[4], l, len(d)-24)
					}
					break
				}
				if d[4] == 81 {
					sns[binary.LittleEndian.Uint32(d[12:])] = l
					if w := int(binary.LittleEndian.Uint16(d[6:])); w > wnd {
						wnd = w
					}
				}
				d = d[24+l:]
			}
			a := peer
			mu.Unlock()
			if !c.Dark && c.Stream && c.Send > 2 {
				// Before the first acknowledgement one segment is sent: the next message
				// waits, and the ones after that join it.
				hx.Wait(nx.Patience, func() bool { return sent.Load() >= 4 })
			}
			if !c.Dark && a != nil {
				_, _ = front.WriteToUDP(b[:k], a)
			}
		}
	}()
	cl, err := kcp.DialWithOptions(front.LocalAddr().String(), nil, c.Data, c.Par)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer cl.Close()
	cl.SetStreamMode(true)
	cl.SetNoDelay(1, 10, 2, 1)
	cl.SetWindowSize(1024, 1024)
	if _, err := cl.Write(nx.TLV(1, nil)); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	if c.Dark {
		// nothing is acknowledged, so what the server sends is what its window allows
		want := c.Send
		if c.Nc == 0 {
			want = 1
		}
		count := func() int { mu.Lock(); defer mu.Unlock(); return len(sns) }
		if !hx.Wait(nx.Patience, func() bool { return count() >= want }) {
			return fmt.Errorf("the server has sent %d segments into the dark after %v, the send window is %d (Nc %d)", count(), nx.Patience, c.Send, c.Nc)
		}
		time.Sleep(30 * time.Millisecond)
		if k := count(); k > want {
			return fmt.Errorf("the server has sent %d segments into the dark, its window allows %d (send window %d, Nc %d)", k, want, c.Send, c.Nc)
		}
	} else {
		cl.SetReadDeadline(time.Now().Add(nx.Patience))
		for i := 0; i < n; i++ {
			id, b, err := nx.ReadTLV(cl)
			if err != nil || id != 2 || string(b) != string(hx.Fill(uint64(i), c.Size)) {
				return fmt.Errorf("message %d of the server: id %d, %d bytes, %v", i, id, len(b), err)
			}
		}
		mu.Lock()
		merged := false
		for sn, l := range sns {
			if l != 8+c.Size {
				merged = true
				if !c.Stream && bad == nil {
					bad = fmt.Errorf("segment %d carries %d bytes, the messages have %d and stream mode is off", sn, l, 8+c.Size)
				}
			}
		}
		if c.Stream && !merged && c.Send > 2 && bad == nil {
			bad = fmt.Errorf("stream mode is on, but none of %d messages shares a segment with another", n)
		}
		mu.Unlock()
		rec.Label(c.Stream, "stream")
		rec.Label(!c.Stream, "messages")
	}
	mu.Lock()
	defer mu.Unlock()
	if bad != nil {
		return bad
	}
	if wnd != c.Recv {
		return fmt.Errorf("the server announces a receive window of %d, %d is configured", wnd, c.Recv)
	}
	if c.Par > 0 && pkts >= 3*(c.Data+c.Par) && parity == 0 {
		return fmt.Errorf("the server sent %d packets and none for error correction", pkts)
	}
	rec.Label(c.Data > 0, "error correction")
	rec.Label(c.Dark, "dark")
	rec.Nontrivial(true)
	return nil
}
