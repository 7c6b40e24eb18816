package hx

import (
	"encoding/hex"
	"fmt"
	"time"
)

// Hex is a byte slice that is readable in JSON replay files.
type Hex []byte

func (h Hex) MarshalText() ([]byte, error) { return []byte(hex.EncodeToString(h)), nil }
func (h *Hex) UnmarshalText(b []byte) error {
	d, err := hex.DecodeString(string(b))
	*h = d
	return err
}

// Fill returns n deterministic bytes that depend on (seed, position).
func Fill(seed uint64, n int) []byte {
	b := make([]byte, n)
	x := seed*2654435761 + 88172645463325252
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

// Wait polls cond until it holds or d has passed.
func Wait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	sl := 50 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(sl)
		if sl < 2*time.Millisecond {
			sl += sl / 2
		}
	}
}

// Call runs fn and turns a panic into an error value.
func Call(fn func()) (pan error) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Errorf("panic: %v", r)
		}
	}()
	fn()
	return nil
}
