// C16: the sharded map behaves like one atomic map.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aceld/zinx/zutils"
	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"

	"verif/hx"
)

// ---- the map under test

type badHash struct {
	k     int
	yield bool
}

func (h *badHash) Sum(s string) uint32 {
	if h.yield {
		runtime.Gosched()
	}
	switch h.k {
	case 1:
		return 7
	case 2:
		return uint32(len(s)) * 0xffffffff
	}
	x := uint32(0)
	for i := 0; i < len(s); i++ {
		x = x*31 + uint32(s[i])
	}
	return x<<31 | x>>1 // high bits set
}

// Map is how the map is made.
type Map struct {
	Shards int // zutils.ShardCount
	Hash   int // 0: the default
	Yield  bool
}

func genMap(t *rapid.T) Map {
	return Map{rapid.SampledFrom([]int{32, 32, 1, 2, 3, 64}).Draw(t, "shards"), rapid.IntRange(0, 3).Draw(t, "hash"), rapid.Bool().Draw(t, "yield")}
}
func (m Map) make() zutils.ShardLockMaps {
	zutils.ShardCount = m.Shards
	if m.Hash == 0 {
		return zutils.NewShardLockMaps()
	}
	return zutils.NewWithCustomHash(&badHash{m.Hash, m.Yield})
}

// ---- sequential histories

// Op is one operation: key index, value index.
type Op struct {
	K   string
	Key int
	V   int
	Ok  bool // what a remove callback answers
}

type SeqCase struct {
	M    Map
	Keys []string
	Ops  []Op
}

var values = []interface{}{nil, "", "v", 0.0, 1.5, -7.0, true, false, "é<&>\u2028\"\\", []interface{}{1.0, "x", nil}, map[string]interface{}{"a": 1.0, "": []interface{}{}}}

func genSeq(t *rapid.T) SeqCase {
	c := SeqCase{M: genMap(t)}
	c.Keys = rapid.SliceOfNDistinct(rapid.OneOf(rapid.StringMatching(`[a-c0-9]{0,3}`), rapid.String(), rapid.Just(strings.Repeat("long", 500))), 1, 12, rapid.ID[string]).Draw(t, "keys")
	op := rapid.Custom(func(t *rapid.T) Op {
		return Op{
			K: rapid.SampledFrom([]string{"set", "set", "set", "setnx", "setnx", "mset", "get", "has", "rm", "rmcb", "rmcb", "pop", "list", "list", "clear",
				"json", "unjson", "badjson"}).Draw(t, "k"),
			Key: rapid.IntRange(0, len(c.Keys)-1).Draw(t, "key"),
			V:   rapid.IntRange(0, len(values)-1).Draw(t, "v"),
			Ok:  rapid.Bool().Draw(t, "ok"),
		}
	})
	c.Ops = rapid.SliceOfN(op, 1, 120).Draw(t, "ops")
	return c
}

func equalMaps(a, b map[string]interface{}) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// listings compares every whole-map view with the model.
func listings(m zutils.ShardLockMaps, model map[string]interface{}) error {
	if n := m.Count(); n != len(model) {
		return fmt.Errorf("Count is %d, there are %d entries", n, len(model))
	}
	if e := m.IsEmpty(); e != (len(model) == 0) {
		return fmt.Errorf("IsEmpty is %v with %d entries", e, len(model))
	}
	want := make([]string, 0, len(model))
	for k := range model {
		want = append(want, k)
	}
	sort.Strings(want)
	keys := m.Keys()
	sort.Strings(keys)
	if len(keys) != len(want) || len(keys) > 0 && !reflect.DeepEqual(keys, want) {
		return fmt.Errorf("Keys is %q, the entries are %q", keys, want)
	}
	if it := m.Items(); !equalMaps(it, model) {
		return fmt.Errorf("Items is %v, the entries are %v", it, model)
	}
	buf := map[string]interface{}{}
	n := 0
	for x := range m.IterBuffered() {
		buf[x.Key] = x.Val
		n++
	}
	if n != len(model) || !equalMaps(buf, model) {
		return fmt.Errorf("IterBuffered gives %d entries %v, the entries are %v", n, buf, model)
	}
	buf, n = map[string]interface{}{}, 0
	m.IterCb(func(k string, v interface{}) { buf[k] = v; n++ })
	if n != len(model) || !equalMaps(buf, model) {
		return fmt.Errorf("IterCb gives %d entries %v, the entries are %v", n, buf, model)
	}
	return nil
}

func runSeq(c SeqCase, rec *hx.Rec) error {
	m := c.M.make()
	model := map[string]interface{}{}
	changes := 0
	for i, o := range c.Ops {
		k, v := c.Keys[o.Key], values[o.V]
		w, has := model[k]
		fail := func(f string, a ...interface{}) error {
			return fmt.Errorf("operation %d, %s %q: %s", i, o.K, k, fmt.Sprintf(f, a...))
		}
		switch o.K {
		case "set":
			m.Set(k, v)
			model[k] = v
			changes++
		case "setnx":
			if ok := m.SetNX(k, v); ok == has {
				return fail("returned %v, the key was present: %v", ok, has)
			}
			if !has {
				model[k] = v
				changes++
			}
		case "mset":
			d := map[string]interface{}{}
			for j := 0; j <= o.V; j++ {
				d[c.Keys[(o.Key+j)%len(c.Keys)]] = values[(o.V+j)%len(values)]
			}
			m.MSet(d)
			for a, b := range d {
				model[a] = b
			}
			changes++
		case "get":
			if g, ok := m.Get(k); ok != has || !reflect.DeepEqual(g, w) {
				return fail("returned %v, %v; the entry is %v, %v", g, ok, w, has)
			}
		case "has":
			if ok := m.Has(k); ok != has {
				return fail("returned %v", ok)
			}
		case "rm":
			m.Remove(k)
			delete(model, k)
			changes++
		case "rmcb":
			calls := 0
			ok := m.RemoveCb(k, func(kk string, vv interface{}, ex bool) bool {
				calls++
				if kk != k || ex != has || !reflect.DeepEqual(vv, w) {
					calls = 100
				}
				return o.Ok
			})
			if calls != 1 || ok != o.Ok {
				return fail("returned %v (the callback %v); the callback ran %d times (100: with other arguments than the entry)", ok, o.Ok, calls)
			}
			if o.Ok {
				delete(model, k)
				changes++
			}
		case "pop":
			if g, ok := m.Pop(k); ok != has || !reflect.DeepEqual(g, w) {
				return fail("returned %v, %v; the entry is %v, %v", g, ok, w, has)
			}
			delete(model, k)
			changes++
		case "clear":
			m.Clear()
			model = map[string]interface{}{}
		case "list":
			if err := listings(m, model); err != nil {
				return fail("%v", err)
			}
		case "json", "unjson":
			b, err := json.Marshal(m)
			if err != nil {
				return fail("encoding: %v", err)
			}
			d := map[string]interface{}{}
			if err := json.Unmarshal(b, &d); err != nil || !equalMaps(d, model) {
				return fail("the JSON form is %s (%v), the entries are %v", b, err, model)
			}
			if o.K == "unjson" {
				m2 := c.M.make()
				if _, has := model[k]; has && o.Ok { // what is decoded replaces what was there
					m2.Set(k, values[o.V])
				}
				if err := json.Unmarshal(b, &m2); err != nil {
					return fail("decoding: %v", err)
				}
				if err := listings(m2, model); err != nil {
					return fail("after decoding the JSON form: %v", err)
				}
				m = m2
			}
		case "badjson":
			if err := m.UnmarshalJSON([]byte(`{"` + "x" + `": 1, `)); err == nil {
				return fail("decoding garbage reports no error")
			}
		}
		if g, ok := m.Get(k); true {
			w, has := model[k]
			if ok != has || !reflect.DeepEqual(g, w) {
				return fail("afterwards Get returns %v, %v; the entry is %v, %v", g, ok, w, has)
			}
		}
	}
	if err := listings(m, model); err != nil {
		return fmt.Errorf("at the end: %v", err)
	}
	rec.Label(c.M.Hash != 0, "custom hash")
	rec.Nontrivial(changes >= 5)
	return nil
}

// ---- concurrent histories, checked for linearizability

// COp is one concurrent operation. Whole-map operations count as one
// operation per key, taking effect somewhere between call and return.
type COp struct {
	K   string
	Key int
	Y   int // yields before
}

type ConcCase struct {
	M       Map
	Procs   int
	NK      int
	Pre     int // keys present at the start (bits)
	Scripts [][]COp
}

func genConc(t *rapid.T) ConcCase {
	c := ConcCase{M: genMap(t), Procs: rapid.SampledFrom([]int{2, 4, 8, 8}).Draw(t, "procs"), NK: rapid.IntRange(1, 4).Draw(t, "nk")}
	c.Pre = rapid.IntRange(0, 1<<c.NK-1).Draw(t, "pre")
	c.Scripts = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) COp {
		return COp{
			rapid.SampledFrom([]string{"set", "set", "setnx", "setnx", "get", "get", "has", "rm", "rmcb", "rmcb", "pop", "pop", "mset", "items", "keys", "itercb", "iterbuf", "json", "clear", "count"}).Draw(t, "k"),
			rapid.IntRange(0, c.NK-1).Draw(t, "key"), rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "y")}
	}), 1, 14), 2, 6).Draw(t, "scripts")
	return c
}

type in struct {
	key int
	op  string // set setnx get has rm rmcb pop
	v   int
}
type out struct {
	v  int // 0: absent
	ok bool
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(in).key
			m[k] = append(m[k], o)
		}
		var r [][]porcupine.Operation
		for _, v := range m {
			r = append(r, v)
		}
		return r
	},
	Init: func() interface{} { return 0 },
	Step: func(st, i, o interface{}) (bool, interface{}) {
		s, a, b := st.(int), i.(in), o.(out)
		switch a.op {
		case "set":
			return true, a.v
		case "setnx":
			if b.ok != (s == 0) {
				return false, s
			}
			if s == 0 {
				return true, a.v
			}
			return true, s
		case "get":
			return b.v == s && b.ok == (s != 0), s
		case "has":
			return b.ok == (s != 0), s
		case "rm":
			return true, 0
		case "rmcb": // removes even values
			if b.v != s || b.ok != (s != 0 && s%2 == 0) {
				return false, s
			}
			if b.ok {
				return true, 0
			}
			return true, s
		case "pop":
			return b.v == s && b.ok == (s != 0), 0
		}
		return false, s
	},
	Equal:             func(a, b interface{}) bool { return a == b },
	DescribeOperation: func(i, o interface{}) string { return fmt.Sprint(i, "->", o) },
}

func val(v interface{}, ok bool) out {
	n := 0
	switch x := v.(type) {
	case int:
		n = x
	case float64:
		n = int(x)
	}
	return out{n, ok}
}

func runConc(c ConcCase, rec *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	m := c.M.make()
	key := func(i int) string { return fmt.Sprintf("key-%d", i*37) }
	num := map[string]int{}
	for i := 0; i < c.NK; i++ {
		num[key(i)] = i
	}
	t0 := time.Now()
	now := func() int64 { return int64(time.Since(t0)) }
	var hist [][]porcupine.Operation
	hist = append(hist, nil)
	for i := 0; i < c.NK; i++ {
		if c.Pre>>i&1 == 1 {
			a := now()
			m.Set(key(i), 2000+i)
			hist[0] = append(hist[0], porcupine.Operation{ClientId: 0, Input: in{i, "set", 2000 + i}, Call: a, Output: out{}, Return: now()})
		}
	}
	for range c.Scripts {
		hist = append(hist, nil)
	}
	errs := make([]error, len(c.Scripts))
	var ready atomic.Int32
	var wg sync.WaitGroup
	nops := 0
	for g, sc := range c.Scripts {
		nops += len(sc)
		wg.Add(1)
		go func(g int, sc []COp) {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int32(len(c.Scripts)) {
				runtime.Gosched()
			}
			add := func(i in, o out, a, b int64) {
				hist[g+1] = append(hist[g+1], porcupine.Operation{ClientId: g + 1, Input: i, Call: a, Output: o, Return: b})
			}
			seen := map[string]out{}
			view := func(k string, v interface{}) {
				if _, ok := num[k]; !ok {
					errs[g] = fmt.Errorf("a listing contains the key %q, which was never set", k)
				}
				if _, ok := seen[k]; ok {
					errs[g] = fmt.Errorf("a listing contains the key %q twice", k)
				}
				seen[k] = val(v, true)
			}
			views := func(op string, a, b int64) {
				for i := 0; i < c.NK; i++ {
					add(in{i, op, 0}, seen[key(i)], a, b)
				}
			}
			for i, o := range sc {
				for y := 0; y < o.Y; y++ {
					runtime.Gosched()
				}
				k, v := key(o.Key), (g+1)*100+i+1
				for s := range seen {
					delete(seen, s)
				}
				a := now()
				switch o.K {
				case "set":
					m.Set(k, v)
					add(in{o.Key, "set", v}, out{}, a, now())
				case "setnx":
					ok := m.SetNX(k, v)
					add(in{o.Key, "setnx", v}, out{0, ok}, a, now())
				case "get":
					x, ok := m.Get(k)
					add(in{o.Key, "get", 0}, val(x, ok), a, now())
				case "has":
					ok := m.Has(k)
					add(in{o.Key, "has", 0}, out{0, ok}, a, now())
				case "rm":
					m.Remove(k)
					add(in{o.Key, "rm", 0}, out{}, a, now())
				case "rmcb":
					var saw int
					ok := m.RemoveCb(k, func(kk string, x interface{}, ex bool) bool {
						saw = val(x, ex).v
						if o.Y > 0 {
							runtime.Gosched()
						}
						return ex && saw%2 == 0
					})
					add(in{o.Key, "rmcb", 0}, out{saw, ok}, a, now())
				case "pop":
					x, ok := m.Pop(k)
					add(in{o.Key, "pop", 0}, val(x, ok), a, now())
				case "mset":
					d := map[string]interface{}{}
					for j := 0; j < c.NK; j++ {
						d[key(j)] = v
					}
					m.MSet(d)
					b := now()
					for j := 0; j < c.NK; j++ {
						add(in{j, "set", v}, out{}, a, b)
					}
				case "clear":
					m.Clear()
					b := now()
					for j := 0; j < c.NK; j++ {
						add(in{j, "rm", 0}, out{}, a, b)
					}
				case "items":
					for kk, x := range m.Items() {
						view(kk, x)
					}
					views("get", a, now())
				case "iterbuf":
					for x := range m.IterBuffered() {
						view(x.Key, x.Val)
					}
					views("get", a, now())
				case "itercb":
					m.IterCb(view)
					views("get", a, now())
				case "keys":
					for _, kk := range m.Keys() {
						view(kk, nil)
					}
					views("has", a, now())
				case "json":
					js, err := m.MarshalJSON()
					d := map[string]interface{}{}
					if err == nil {
						err = json.Unmarshal(js, &d)
					}
					if err != nil {
						errs[g] = fmt.Errorf("JSON: %v", err)
					}
					for kk, x := range d {
						view(kk, x)
					}
					views("get", a, now())
				case "count":
					if n := m.Count(); n < 0 || n > c.NK {
						errs[g] = fmt.Errorf("Count is %d, at most %d keys exist", n, c.NK)
					}
				}
			}
		}(g, sc)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	// quiescence: the last reads join the history, and the listings agree with them
	final := map[string]interface{}{}
	g := len(c.Scripts) + 1
	hist = append(hist, nil)
	for i := 0; i < c.NK; i++ {
		a := now()
		x, ok := m.Get(key(i))
		hist[g] = append(hist[g], porcupine.Operation{ClientId: g, Input: in{i, "get", 0}, Call: a, Output: val(x, ok), Return: now()})
		if ok {
			final[key(i)] = x
		}
	}
	if err := listings(m, final); err != nil {
		return fmt.Errorf("after all operations: %v", err)
	}
	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}
	switch porcupine.CheckOperationsTimeout(model, all, 20*time.Second) {
	case porcupine.Illegal:
		for k := 0; k < c.NK; k++ {
			var one []porcupine.Operation
			for _, o := range all {
				if o.Input.(in).key == k {
					one = append(one, o)
				}
			}
			if porcupine.CheckOperationsTimeout(model, one, 20*time.Second) == porcupine.Illegal {
				sort.Slice(one, func(i, j int) bool { return one[i].Call < one[j].Call })
				var sb strings.Builder
				for _, o := range one {
					fmt.Fprintf(&sb, " g%d %v->%v [%d,%d]", o.ClientId, o.Input, o.Output, o.Call, o.Return)
				}
				return fmt.Errorf("no order of the operations on key %d explains their results:%s", k, sb.String())
			}
		}
		return fmt.Errorf("no order of the operations explains their results")
	case porcupine.Unknown:
		rec.Label(true, "too long to decide")
	}
	rec.Label(c.M.Hash != 0, "custom hash")
	rec.Nontrivial(nops >= 6)
	return nil
}

// ---- contention on one key, many rounds

type HotCase struct {
	M      Map
	Procs  int
	N      int
	Kind   string
	Rounds int
}

func genHot(t *rapid.T) HotCase {
	return HotCase{genMap(t), rapid.SampledFrom([]int{2, 4, 8}).Draw(t, "procs"), rapid.IntRange(2, 4).Draw(t, "n"),
		rapid.SampledFrom([]string{"setnx", "pop", "rmcb", "set-pop", "many"}).Draw(t, "kind"), rapid.IntRange(20, 400).Draw(t, "rounds")}
}

// runHot: in every round N goroutines do the same thing to one key at once.
func runHot(c HotCase, rec *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	c.M.Yield = false
	m := c.M.make()
	res := make([][]int, c.Rounds) // per round: how often each goroutine won
	for r := range res {
		res[r] = make([]int, c.N)
	}
	var arrive, leave atomic.Int64
	var wg sync.WaitGroup
	errs := make([]error, c.N)
	wait := func(a *atomic.Int64, n int64) {
		a.Add(1)
		for i := 0; a.Load() < n; i++ {
			if i > 200 {
				runtime.Gosched()
			}
		}
	}
	for g := 0; g < c.N; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for r := 0; r < c.Rounds; r++ {
				k := fmt.Sprintf("r%d", r)
				if g == 0 && (c.Kind == "pop" || c.Kind == "rmcb") {
					m.Set(k, r+1)
				}
				wait(&arrive, int64(r+1)*int64(c.N))
				switch c.Kind {
				case "setnx":
					if m.SetNX(k, g+1) {
						res[r][g]++
					}
				case "pop":
					if v, ok := m.Pop(k); ok {
						res[r][g]++
						if v != r+1 {
							errs[g] = fmt.Errorf("round %d: Pop returned %v, true; the value is %d", r, v, r+1)
						}
					} else if v != nil {
						errs[g] = fmt.Errorf("round %d: Pop returned %v, false", r, v)
					}
				case "rmcb":
					if m.RemoveCb(k, func(_ string, v interface{}, ok bool) bool { return ok }) {
						res[r][g]++
					}
				case "set-pop": // every value set is popped or overwritten; what is popped was set
					if g%2 == 0 {
						m.Set(k, g+1)
					} else if v, ok := m.Pop(k); ok {
						if x, is := v.(int); !is || x < 1 || x > c.N || x%2 == 0 {
							errs[g] = fmt.Errorf("round %d: Pop returned %v, which nobody set", r, v)
						}
					}
				case "many": // distinct keys at once: nothing is lost
					for i := 0; i < 4; i++ {
						m.Set(fmt.Sprintf("%s-%d-%d", k, g, i), i)
					}
				}
				wait(&leave, int64(r+1)*int64(c.N))
			}
		}(g)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	for r, x := range res {
		n, w := 0, 0
		for g, k := range x {
			n += k
			if k > 0 {
				w = g + 1
			}
		}
		k := fmt.Sprintf("r%d", r)
		switch c.Kind {
		case "setnx":
			if v, ok := m.Get(k); n != 1 || !ok || v != w {
				return fmt.Errorf("round %d: of %d concurrent SetNX %d succeeded; the entry is %v (winner %d)", r, c.N, n, v, w)
			}
		case "pop", "rmcb":
			if n != 1 || m.Has(k) {
				return fmt.Errorf("round %d: of %d concurrent %s %d got the entry; still present: %v", r, c.N, c.Kind, n, m.Has(k))
			}
		case "many":
			for g := 0; g < c.N; g++ {
				for i := 0; i < 4; i++ {
					if v, ok := m.Get(fmt.Sprintf("%s-%d-%d", k, g, i)); !ok || v != i {
						return fmt.Errorf("round %d: the entry set by goroutine %d is %v, %v", r, g, v, ok)
					}
				}
			}
		}
	}
	want := map[string]int{"setnx": c.Rounds, "many": c.Rounds * c.N * 4}
	if w, ok := want[c.Kind]; ok && (m.Count() != w || len(m.Keys()) != w || len(m.Items()) != w) {
		return fmt.Errorf("%d entries were made; Count is %d, Keys lists %d, Items %d", w, m.Count(), len(m.Keys()), len(m.Items()))
	}
	rec.Label(true, c.Kind)
	rec.Nontrivial(c.Rounds >= 50)
	return nil
}

func main() {
	hx.Main(hx.Property{
		ID:          "C16",
		Rule:        "seq: up to 120 operations on up to 12 generated keys (any strings), shard counts 1-64 and default or degenerate hashes, every result and all listings, iterations and the JSON form compared with a map model; decoding the JSON form into a new map gives the same entries. conc: 2-6 goroutines with generated scripts on 1-4 keys; the history, in which whole-map operations count as one operation per key, is checked for linearizability (porcupine). hot: 2-4 goroutines do the same conditional insert, pop or remove-by-callback on one key at once, for up to 400 rounds: exactly one wins. Non-trivial: at least 5 changes / 6 operations / 50 rounds.",
		Assumptions: []string{"zutils.ShardCount is not changed while maps are in use", "callbacks do not use the map and do not panic"},
		Facets: []hx.Facet{
			hx.F("seq", 20000, 400000, genSeq, runSeq),
			hx.F("conc", 60000, 2000000, genConc, runConc, hx.Par(4)),
			hx.F("hot", 4000, 200000, genHot, runHot, hx.Par(3)),
		},
	})
}
