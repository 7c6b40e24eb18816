// C22: loggers write whole lines at or above their level.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
	"pgregory.net/rapid"

	"verif/hx"
)

var names = []string{"[DEBUG]", "[INFO]", "[WARN]", "[ERROR]", "[PANIC]", "[FATAL]"}

// ---------------------------------------------------------------- calls

// via: 0 a logger of its own, 1 the package functions, 2 zlog.Ins(), 3 zlog.Ins() with a context
// method: 0 Debugf 1 Debug 2 Infof 3 Info 4 Warnf 5 Warn 6 Errorf 7 Error 8 Panicf 9 Panic
type Call struct {
	Via    int
	Method int
	Text   string
	Args   []string
}

func (c Call) level() int { return c.Method / 2 }

func (c Call) text() string {
	a := make([]interface{}, len(c.Args))
	for i, x := range c.Args {
		a[i] = x
	}
	if c.Method%2 == 0 {
		return fmt.Sprintf(c.Text, a...)
	}
	return fmt.Sprintln(append([]interface{}{c.Text}, a...)...)
}

type L = *zlog.ZinxLoggerCore

// made records where the next call on the same line is made.
func made(n *int) {
	_, _, l, _ := runtime.Caller(1)
	*n = l
}

var ctx = context.Background()

// calls[via][method]: f format or text, a arguments, p both
var calls = [4]map[int]func(l L, n *int, f string, a, p []interface{}){
	{
		0: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Debugf(f, a...) },
		1: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Debug(p...) },
		2: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Infof(f, a...) },
		3: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Info(p...) },
		4: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Warnf(f, a...) },
		5: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Warn(p...) },
		6: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Errorf(f, a...) },
		7: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Error(p...) },
		8: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Panicf(f, a...) },
		9: func(l L, n *int, f string, a, p []interface{}) { made(n); l.Panic(p...) },
	},
	{
		0: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Debugf(f, a...) },
		1: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Debug(p...) },
		2: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Infof(f, a...) },
		3: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Info(p...) },
		4: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Warnf(f, a...) },
		5: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Warn(p...) },
		6: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Errorf(f, a...) },
		7: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Error(p...) },
		8: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Panicf(f, a...) },
		9: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Panic(p...) },
	},
	{
		0: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Ins().DebugF(f, a...) },
		2: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Ins().InfoF(f, a...) },
		6: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Ins().ErrorF(f, a...) },
	},
	{
		0: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Ins().DebugFX(ctx, f, a...) },
		2: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Ins().InfoFX(ctx, f, a...) },
		6: func(l L, n *int, f string, a, p []interface{}) { made(n); zlog.Ins().ErrorFX(ctx, f, a...) },
	},
}

// do makes the call; n is the number of the line it is made at, pan what it panicked with.
func (c Call) do(l L) (n int, pan interface{}) {
	a := make([]interface{}, len(c.Args))
	for i, x := range c.Args {
		a[i] = x
	}
	defer func() { pan = recover() }()
	calls[c.Via][c.Method](l, &n, c.Text, a, append([]interface{}{c.Text}, a...))
	return n, nil
}

var texts = rapid.OneOf(
	rapid.SampledFrom([]string{"", "x", "hello %s", "%s%s", "%d%%", "%v\n", "two\nlines", "\n", "no arguments", "中文日志", "%", "<p>[INFO]", " lead", "trail ", "tab\there"}),
	rapid.StringN(0, 30, -1),
	rapid.Custom(func(t *rapid.T) string {
		return strings.Repeat("long ", rapid.SampledFrom([]int{10, 900, 20000}).Draw(t, "n"))
	}),
)

var genCall = rapid.Custom(func(t *rapid.T) Call {
	c := Call{Via: rapid.IntRange(0, 3).Draw(t, "via")}
	c.Method = rapid.SampledFrom(methods(c.Via)).Draw(t, "method")
	c.Text = texts.Draw(t, "text")
	c.Args = rapid.SliceOfN(rapid.StringN(0, 8, -1), 0, 2).Draw(t, "args")
	return c
})

func methods(via int) []int {
	if via > 1 {
		return []int{0, 2, 6}
	}
	return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
}

// ---------------------------------------------------------------- single calls

const (
	sCall = iota
	sLevel
	sFlags
	sAddFlag
	sPrefix
	sFile
	sHook
	sCons
	sStack
)

type Step struct {
	Kind int
	Call Call
	N    int
	Text string
}

type Case struct {
	Global bool // the package's own logger and functions
	Prefix string
	Flags  int
	Steps  []Step
}

var flags = rapid.OneOf(rapid.IntRange(0, 63), rapid.SampledFrom([]int{0, zlog.BitDefault, zlog.BitStdFlag, zlog.BitLevel, zlog.BitShortFile, zlog.BitLongFile, 63}))
var prefixes = rapid.OneOf(rapid.SampledFrom([]string{"", "", "zinx", "a b", ">", "前缀"}), rapid.StringN(0, 6, -1))

func genOwn(t *rapid.T) Case    { return gen(t, false) }
func genGlobal(t *rapid.T) Case { return gen(t, true) }

func gen(t *rapid.T, global bool) Case {
	c := Case{Global: global, Prefix: prefixes.Draw(t, "prefix"), Flags: flags.Draw(t, "flags")}
	c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Step {
		s := Step{Kind: rapid.SampledFrom([]int{sCall, sCall, sCall, sCall, sCall, sCall, sCall, sLevel, sFlags, sAddFlag, sPrefix, sFile, sHook, sCons, sStack}).Draw(t, "kind")}
		switch s.Kind {
		case sCall:
			s.Call = genCall.Draw(t, "call")
			if c.Global && s.Call.Via == 0 {
				s.Call.Via = 1
			}
			if !c.Global && s.Call.Via > 0 {
				s.Call.Via = 0
			}
		case sLevel:
			s.N = rapid.IntRange(0, 6).Draw(t, "level")
		case sFlags, sAddFlag:
			s.N = flags.Draw(t, "flags")
		case sPrefix:
			s.Text = prefixes.Draw(t, "prefix")
		case sFile:
			s.N = rapid.IntRange(0, 2).Draw(t, "file")
		case sHook, sCons:
			s.N = rapid.IntRange(0, 1).Draw(t, "on")
		}
		return s
	}), 1, 30).Draw(t, "steps")
	return c
}

// shape is the model of the header.
type shape struct {
	prefix string
	flags  int
}

// check compares one emitted record with what is due.
func (h shape) check(got []byte, level int, text string, ln int, from, to time.Time) error {
	rest := string(got)
	bad := func(what string) error {
		g := got
		if len(g) > 200 {
			g = g[:200]
		}
		return fmt.Errorf("%s (flags %d, prefix %q, message %.60q): %q", what, h.flags, h.prefix, text, g)
	}
	if h.prefix != "" {
		p := "<" + h.prefix + ">"
		if !strings.HasPrefix(rest, p) {
			return bad("the prefix is missing")
		}
		rest = rest[len(p):]
	}
	var stamp, form string
	if h.flags&zlog.BitDate != 0 {
		form += "2006/01/02 "
	}
	if h.flags&(zlog.BitTime|zlog.BitMicroSeconds) != 0 {
		form += "15:04:05"
		if h.flags&zlog.BitMicroSeconds != 0 {
			form += ".000000"
		}
		form += " "
	}
	if form != "" {
		if len(rest) < len(form) {
			return bad("the time is missing")
		}
		stamp, rest = rest[:len(form)], rest[len(form):]
		t, err := time.ParseInLocation(form, stamp, time.Local)
		if err != nil || t.Format(form) != stamp {
			return bad("the time is not one")
		}
		if h.flags&zlog.BitDate != 0 {
			step := time.Microsecond
			if h.flags&zlog.BitMicroSeconds == 0 {
				step = time.Second
			}
			if h.flags&(zlog.BitTime|zlog.BitMicroSeconds) == 0 {
				step = 24 * time.Hour
			}
			if t.Add(step).Before(from) || t.After(to) {
				return bad(fmt.Sprintf("the time is not between %v and %v", from, to))
			}
		}
	}
	if h.flags&zlog.BitLevel != 0 {
		if !strings.HasPrefix(rest, names[level]) {
			return bad("the level is missing")
		}
		rest = rest[len(names[level]):]
	}
	if h.flags&(zlog.BitShortFile|zlog.BitLongFile) != 0 {
		file := "main.go"
		if h.flags&zlog.BitShortFile == 0 {
			_, file, _, _ = runtime.Caller(0)
		}
		file += ":"
		if !strings.HasPrefix(rest, file) {
			return bad("the caller's file is missing")
		}
		rest = rest[len(file):]
		i := strings.Index(rest, ": ")
		if i < 0 {
			return bad("the caller's line is missing")
		}
		if n, err := strconv.Atoi(rest[:i]); err != nil || ln > 0 && n != ln {
			return bad(fmt.Sprintf("the caller's line is not %d", ln))
		}
		rest = rest[i+2:]
	}
	want := text
	if !strings.HasSuffix(want, "\n") {
		want += "\n"
	}
	if rest != want {
		return bad("the message is not the one logged, on lines of its own")
	}
	return nil
}

// console puts a file in place of the standard error output.
type console struct {
	was *os.File
	f   *os.File
	off int64
}

func newConsole(dir string) (*console, error) {
	f, err := os.OpenFile(filepath.Join(dir, "console"), os.O_CREATE|os.O_RDWR|os.O_APPEND, 0644)
	if err != nil {
		return nil, fmt.Errorf("HARNESS: %v", err)
	}
	c := &console{was: os.Stderr, f: f}
	os.Stderr = f
	return c, nil
}
func (c *console) take() []byte {
	fi, _ := c.f.Stat()
	b := make([]byte, fi.Size()-c.off)
	c.f.ReadAt(b, c.off)
	c.off = fi.Size()
	return b
}
func (c *console) close() { os.Stderr = c.was; c.f.Close() }

func scratch() (string, func(), error) {
	d, err := os.MkdirTemp(os.Getenv("HX_DIR"), "c22-")
	if err != nil {
		return "", nil, fmt.Errorf("HARNESS: %v", err)
	}
	return d, func() { os.RemoveAll(d) }, nil
}

func run(c Case, rec *hx.Rec) error {
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	std := os.Stdout
	os.Stdout = null // where the context of a call goes
	defer func() { os.Stdout = std; null.Close() }()
	con, err := newConsole(dir)
	if err != nil {
		return err
	}
	defer con.close()
	l := zlog.NewZinxLog(c.Prefix, c.Flags)
	if c.Global {
		l = zlog.StdZinxLog
		l.ResetFlags(c.Flags)
		l.SetPrefix(c.Prefix)
		defer l.SetLogHook(nil)
	}
	h := shape{c.Prefix, c.Flags}
	level, file, cons := 0, -1, false
	if c.Global && l == zlog.StdZinxLog {
		l.SetLogLevel(0)
	}
	var hooked [][]byte
	hook := false
	offs := map[int]int64{}
	lines, dropped, switched := 0, 0, 0
	for i, s := range c.Steps {
		fail := func(e error) error { return fmt.Errorf("step %d: %v", i, e) }
		switch s.Kind {
		case sLevel:
			if c.Global {
				zlog.SetLogLevel(s.N)
			} else {
				l.SetLogLevel(s.N)
			}
			level = s.N
			continue
		case sFlags, sAddFlag:
			set, add, get := l.ResetFlags, l.AddFlag, l.Flags
			if c.Global {
				set, add, get = zlog.ResetFlags, zlog.AddFlag, zlog.Flags
			}
			if s.Kind == sFlags {
				set(s.N)
				h.flags = s.N
			} else {
				add(s.N)
				h.flags |= s.N
			}
			if get() != h.flags {
				return fail(fmt.Errorf("the flags are %d, they were set to %d", get(), h.flags))
			}
			continue
		case sPrefix:
			if c.Global {
				zlog.SetPrefix(s.Text)
			} else {
				l.SetPrefix(s.Text)
			}
			h.prefix = s.Text
			continue
		case sFile:
			if c.Global {
				zlog.SetLogFile(dir, fmt.Sprintf("f%d.log", s.N))
			} else {
				l.SetLogFile(dir, fmt.Sprintf("f%d.log", s.N))
			}
			file, cons = s.N, false
			switched++
			continue
		case sHook:
			hook = s.N == 1
			if hook {
				l.SetLogHook(func(b []byte) { hooked = append(hooked, append([]byte{}, b...)) })
			} else {
				l.SetLogHook(nil)
			}
			continue
		case sCons:
			if c.Global {
				zlog.SetCons(s.N == 1)
			} else {
				l.SetCons(s.N == 1)
			}
			if file >= 0 {
				cons = s.N == 1
			}
			continue
		}
		var ln int
		var pan interface{}
		var text string
		lv := 3
		from := time.Now()
		if s.Kind == sStack {
			if level > 3 {
				continue
			}
			if c.Global {
				zlog.Stack("stack of", i)
			} else {
				l.Stack("stack of", i)
			}
		} else {
			lv = s.Call.level()
			text = s.Call.text()
			ln, pan = s.Call.do(l)
		}
		to := time.Now()
		due := lv >= level
		if s.Kind == sCall && lv == 4 && due {
			if pan != interface{}(text) {
				return fail(fmt.Errorf("the panic is %v, not the message %.60q", pan, text))
			}
		} else if pan != nil {
			return fail(fmt.Errorf("the call panicked: %v", pan))
		}
		// where it went
		zlog.CleanZinxLog(l)
		out := con.take()
		if file >= 0 {
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("f%d.log", file)))
			if err != nil && due {
				return fail(err)
			}
			if int64(len(b)) < offs[file] {
				return fail(errors.New("the log file is shorter than before"))
			}
			wrote := b[offs[file]:]
			if err == nil {
				offs[file] = int64(len(b))
			}
			if cons && !bytes.Equal(out, wrote) {
				return fail(fmt.Errorf("the file got %d bytes and the console %d", len(wrote), len(out)))
			}
			if !cons && len(out) > 0 {
				return fail(errors.New("a line for the file went to the console"))
			}
			out = wrote
		}
		for f := range offs {
			if fi, err := os.Stat(filepath.Join(dir, fmt.Sprintf("f%d.log", f))); err != nil || fi.Size() != offs[f] {
				return fail(fmt.Errorf("a log file that is not in use any more has changed"))
			}
		}
		if hook {
			if due && (len(hooked) != 1 || !bytes.Equal(hooked[0], out)) || !due && len(hooked) > 0 {
				return fail(fmt.Errorf("the hook was called %d times, or with something else than the line", len(hooked)))
			}
		} else if len(hooked) > 0 {
			return fail(errors.New("a hook that was removed was called"))
		}
		hooked = nil
		if !due {
			dropped++
			if len(out) > 0 {
				return fail(fmt.Errorf("a call of level %d was written, the level is %d", lv, level))
			}
			continue
		}
		lines++
		if s.Kind == sStack {
			if !strings.Contains(string(out), fmt.Sprintf("stack of%d", i)) && !strings.Contains(string(out), fmt.Sprintf("stack of %d", i)) || !strings.Contains(string(out), "goroutine ") {
				return fail(errors.New("Stack did not write its text and the stacks"))
			}
			continue
		}
		if err := h.check(out, lv, text, ln, from, to); err != nil {
			return fail(err)
		}
	}
	rec.Label(dropped > 0, "calls below the level")
	rec.Label(switched > 0, "log file")
	rec.Label(switched > 1, "log file changed")
	rec.Label(c.Global, "global logger")
	rec.Nontrivial(lines >= 3)
	return nil
}

// ---------------------------------------------------------------- concurrent calls

type RaceCase struct {
	Procs  int
	Global bool
	Flags  int
	Prefix string
	Level  int
	File   bool
	G      int
	N      int
	Size   int
	Moves  int // changes of the log file meanwhile
	Resets int // changes of the prefix meanwhile
}

func genRace(t *rapid.T) RaceCase {
	return RaceCase{
		Procs:  rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "procs"),
		Global: rapid.Bool().Draw(t, "global"),
		Flags:  flags.Draw(t, "flags"),
		Prefix: rapid.SampledFrom([]string{"", "p", "zinx"}).Draw(t, "prefix"),
		Level:  rapid.IntRange(0, 4).Draw(t, "level"),
		File:   rapid.Bool().Draw(t, "file"),
		G:      rapid.IntRange(2, 8).Draw(t, "g"),
		N:      rapid.SampledFrom([]int{10, 50, 200}).Draw(t, "n"),
		Size:   rapid.SampledFrom([]int{1, 20, 300, 6000}).Draw(t, "size"),
		Moves:  rapid.SampledFrom([]int{0, 0, 1, 5, 30}).Draw(t, "moves"),
		Resets: rapid.SampledFrom([]int{0, 0, 20}).Draw(t, "resets"),
	}
}

var mark = regexp.MustCompile(`@(\d+)\.(\d+)@`)

func runRace(c RaceCase, rec *hx.Rec) error {
	runtime.GOMAXPROCS(c.Procs)
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	con, err := newConsole(dir)
	if err != nil {
		return err
	}
	defer con.close()
	l := zlog.NewZinxLog(c.Prefix, c.Flags)
	if c.Global {
		l = zlog.StdZinxLog
		l.ResetFlags(c.Flags)
		l.SetPrefix(c.Prefix)
	}
	l.SetLogLevel(c.Level)
	logDir := filepath.Join(dir, "logs")
	if c.File {
		l.SetLogFile(logDir, "f0.log")
	}
	// What the hook is given, line by line. The hook is slow now and then, and
	// copies the line at its end: the line is the hook's until it returns.
	var hookMu sync.Mutex
	var hooked []byte
	var calls atomic.Int64
	l.SetLogHook(func(b []byte) {
		if calls.Add(1)%4 == 0 {
			runtime.Gosched()
		}
		hookMu.Lock()
		hooked = append(hooked, b...)
		hookMu.Unlock()
	})
	defer l.SetLogHook(nil)
	type want struct {
		lv, ln int
		text   string
	}
	wants := make([][]want, c.G)
	from := time.Now()
	var wg sync.WaitGroup
	var firstErr atomic.Value
	start := make(chan struct{})
	for g := 0; g < c.G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			pad := strings.Repeat(string(rune('a'+g)), c.Size)
			for k := 0; k < c.N; k++ {
				q := Call{Via: 0, Text: fmt.Sprintf("@%d.%d@%s", g, k, pad), Method: (g*7 + k) % 10}
				if c.Global {
					q.Via = 1 + (g+k)%2
					if q.Via == 2 {
						q.Method = methods(2)[k%3]
					}
				}
				ln, pan := q.do(l)
				due := q.level() >= c.Level
				if q.level() == 4 && due {
					if pan != interface{}(q.text()) {
						firstErr.CompareAndSwap(nil, fmt.Errorf("the panic is %v, not the message", pan))
					}
				} else if pan != nil {
					firstErr.CompareAndSwap(nil, fmt.Errorf("the call panicked: %v", pan))
				}
				if due {
					wants[g] = append(wants[g], want{q.level(), ln, q.text()})
				}
			}
		}()
	}
	close(start)
	files := 1
	if c.File {
		for i := 0; i < c.Moves; i++ {
			l.SetLogFile(logDir, fmt.Sprintf("f%d.log", files))
			files++
			runtime.Gosched()
		}
	}
	for i := 0; i < c.Resets; i++ {
		l.SetPrefix(c.Prefix)
		l.ResetFlags(c.Flags)
		runtime.Gosched()
	}
	wg.Wait()
	to := time.Now()
	zlog.CleanZinxLog(l)
	if e := firstErr.Load(); e != nil {
		return e.(error)
	}
	var all []byte
	if c.File {
		if b := con.take(); len(b) > 0 {
			return fmt.Errorf("lines for the file went to the console: %.100q", b)
		}
		for i := 0; i < files; i++ {
			b, err := os.ReadFile(filepath.Join(logDir, fmt.Sprintf("f%d.log", i)))
			if err != nil && !os.IsNotExist(err) {
				return fmt.Errorf("HARNESS: %v", err)
			}
			all = append(all, b...)
		}
	} else {
		all = con.take()
	}
	h := shape{c.Prefix, c.Flags}
	judge := func(all []byte) (int, error) {
		next := make([]int, c.G)
		total := 0
		for len(all) > 0 {
			i := bytes.IndexByte(all, '\n')
			if i < 0 {
				return 0, fmt.Errorf("the last line is not whole: %.100q", all)
			}
			ln := all[:i+1]
			all = all[i+1:]
			m := mark.FindSubmatch(ln)
			if m == nil {
				return 0, fmt.Errorf("a line is not one of those logged: %.100q", ln)
			}
			g, _ := strconv.Atoi(string(m[1]))
			if g >= c.G || next[g] >= len(wants[g]) {
				return 0, fmt.Errorf("a line too many of goroutine %d: %.100q", g, ln)
			}
			w := wants[g][next[g]]
			next[g]++
			total++
			if err := h.check(ln, w.lv, w.text, w.ln, from, to); err != nil {
				return 0, err
			}
		}
		for g := range wants {
			if next[g] != len(wants[g]) {
				return 0, fmt.Errorf("%d of %d lines of goroutine %d are there", next[g], len(wants[g]), g)
			}
		}
		return total, nil
	}
	total, err := judge(all)
	if err != nil {
		return err
	}
	hookMu.Lock()
	defer hookMu.Unlock()
	if _, err := judge(hooked); err != nil {
		return fmt.Errorf("the hook: %v", err)
	}
	rec.Label(c.File && c.Moves > 0, "log file changed meanwhile")
	rec.Label(c.Resets > 0, "settings changed meanwhile")
	rec.Nontrivial(total >= 20)
	return nil
}

// ---------------------------------------------------------------- the end of a process

type EndCase struct {
	Global bool
	File   bool
	Level  int
	Before int
	End    int // 0 Fatalf, 1 Fatal, 2 Panicf, 3 Panic
	Text   string
}

func genEnd(t *rapid.T) EndCase {
	return EndCase{rapid.Bool().Draw(t, "global"), rapid.Bool().Draw(t, "file"), rapid.IntRange(0, 6).Draw(t, "level"), rapid.IntRange(0, 100).Draw(t, "before"), rapid.IntRange(0, 3).Draw(t, "end"), rapid.StringMatching(`[a-z ]{1,20}`).Draw(t, "text")}
}

func child(js string) {
	var c EndCase
	if err := json.Unmarshal([]byte(js), &c); err != nil {
		os.Exit(7)
	}
	l := zlog.NewZinxLog("", zlog.BitDefault)
	if c.Global {
		l = zlog.StdZinxLog
	}
	l.SetLogLevel(c.Level)
	if c.File {
		l.SetLogFile(os.Getenv("C22_DIR"), "end.log")
	}
	for i := 0; i < c.Before; i++ {
		if c.Global {
			zlog.Errorf("before %d", i)
		} else {
			l.Errorf("before %d", i)
		}
	}
	switch {
	case c.End == 0 && c.Global:
		zlog.Fatalf("%s", c.Text)
	case c.End == 0:
		l.Fatalf("%s", c.Text)
	case c.End == 1 && c.Global:
		zlog.Fatal(c.Text)
	case c.End == 1:
		l.Fatal(c.Text)
	case c.End == 2 && c.Global:
		zlog.Panicf("%s", c.Text)
	case c.End == 2:
		l.Panicf("%s", c.Text)
	case c.End == 3 && c.Global:
		zlog.Panic(c.Text)
	case c.End == 3:
		l.Panic(c.Text)
	}
	os.Exit(42)
}

func runEnd(c EndCase, rec *hx.Rec) error {
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	exe, err := os.Executable()
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	js, _ := json.Marshal(c)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "C22_CHILD="+string(js), "C22_DIR="+dir, "GOTRACEBACK=none")
	var errOut bytes.Buffer
	cmd.Stderr = &errOut
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	cerr := cmd.Run()
	runtime.UnlockOSThread()
	code := cmd.ProcessState.ExitCode()
	lv := 5
	exit := 1
	if c.End >= 2 {
		lv, exit = 4, 2
	}
	due := lv >= c.Level
	if !due {
		exit = 42
	}
	if code == 7 || cerr == nil {
		return fmt.Errorf("HARNESS: the child ended with %v", cerr)
	}
	if code != exit {
		return fmt.Errorf("the process ended with %d, not %d, at a call of level %d, the level being %d", code, exit, lv, c.Level)
	}
	if !due {
		return nil // it ends by os.Exit of its own, without closing its log
	}
	out := errOut.String()
	if c.File {
		b, err := os.ReadFile(filepath.Join(dir, "end.log"))
		if err != nil {
			return fmt.Errorf("nothing was written to the log file: %v", err)
		}
		out = string(b)
	}
	ls := strings.Split(out, "\n")
	if c.Level <= 3 {
		for i := 0; i < c.Before; i++ {
			if i >= len(ls) || !strings.HasSuffix(ls[i], fmt.Sprintf(": before %d", i)) {
				return fmt.Errorf("line %d, logged before the last one, is missing", i)
			}
		}
		ls = ls[c.Before:]
	}
	if len(ls) == 0 || !strings.Contains(ls[0], names[lv]) || !strings.HasSuffix(ls[0], ": "+c.Text) {
		return fmt.Errorf("the last line, level %d, was not written", lv)
	}
	rec.Label(c.File, "log file")
	rec.Nontrivial(c.Before > 0)
	return nil
}

// ---------------------------------------------------------------- the framework's logger

type custom struct {
	mu  sync.Mutex
	got []string
}

func (c *custom) put(k string, f string, v []interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.got = append(c.got, k+fmt.Sprintf(f, v...))
}
func (c *custom) InfoF(f string, v ...interface{})                      { c.put("I", f, v) }
func (c *custom) ErrorF(f string, v ...interface{})                     { c.put("E", f, v) }
func (c *custom) DebugF(f string, v ...interface{})                     { c.put("D", f, v) }
func (c *custom) InfoFX(x context.Context, f string, v ...interface{})  { c.put("i", f, v) }
func (c *custom) ErrorFX(x context.Context, f string, v ...interface{}) { c.put("e", f, v) }
func (c *custom) DebugFX(x context.Context, f string, v ...interface{}) { c.put("d", f, v) }

type SetCase struct {
	Steps []int // which logger is set, -1 a call
	Calls []Call
}

func genSet(t *rapid.T) SetCase {
	return SetCase{
		Steps: rapid.SliceOfN(rapid.IntRange(-3, 2), 1, 30).Draw(t, "steps"),
		Calls: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Call {
			via := rapid.IntRange(2, 3).Draw(t, "via")
			return Call{via, rapid.SampledFrom(methods(via)).Draw(t, "method"), rapid.SampledFrom([]string{"x", "%s", "a %s b"}).Draw(t, "text"), []string{rapid.StringN(0, 5, -1).Draw(t, "arg")}}
		}), 1, 5).Draw(t, "calls"),
	}
}

func runSet(c SetCase, rec *hx.Rec) error {
	dir, clean, err := scratch()
	if err != nil {
		return err
	}
	defer clean()
	con, err := newConsole(dir)
	if err != nil {
		return err
	}
	defer con.close()
	ls := []*custom{{}, {}, {}}
	was := zlog.Ins()
	defer zlog.SetLogger(was)
	cur := -1
	n := 0
	want := make([][]string, 3)
	kinds := map[int]map[int]string{2: {0: "D", 2: "I", 6: "E"}, 3: {0: "d", 2: "i", 6: "e"}}
	for _, s := range c.Steps {
		if s >= 0 {
			zlog.SetLogger(ls[s])
			cur = s
			if zlog.Ins() != ziface.ILogger(ls[s]) {
				return errors.New("zlog.Ins() is not the logger that was set")
			}
			continue
		}
		if cur < 0 {
			continue
		}
		q := c.Calls[n%len(c.Calls)]
		n++
		if _, pan := q.do(nil); pan != nil {
			return fmt.Errorf("the call panicked: %v", pan)
		}
		want[cur] = append(want[cur], kinds[q.Via][q.Method]+q.text())
	}
	for i := range ls {
		if fmt.Sprint(ls[i].got) != fmt.Sprint(want[i]) {
			return fmt.Errorf("logger %d got %q, %q was logged", i, ls[i].got, want[i])
		}
	}
	if b := con.take(); len(b) > 0 {
		return fmt.Errorf("a call for a custom logger was written to the console: %.100q", b)
	}
	rec.Nontrivial(n > 1)
	return nil
}

func main() {
	if js := os.Getenv("C22_CHILD"); js != "" {
		child(js)
		return
	}
	hx.Main(hx.Property{
		ID:   "C22",
		Rule: "calls: at least three lines emitted; concurrent: at least twenty lines; ends: something was logged before the last call; custom: at least two calls",
		Assumptions: []string{
			"a hook does not log, and does not keep the bytes it is given",
			"Stack is not subject to the level",
			"StdZinxLog is called through the package functions and zlog.Ins() where the caller's position is wanted",
		},
		Facets: []hx.Facet{
			hx.F("calls", 40000, 300000, genOwn, run),
			hx.F("global", 6000, 40000, genGlobal, run, hx.OneShot()),
			hx.F("concurrent", 6000, 60000, genRace, runRace, hx.OneShot()),
			hx.F("ends", 3000, 10000, genEnd, runEnd),
			hx.F("custom", 20000, 100000, genSet, runSet),
		},
	})
}
