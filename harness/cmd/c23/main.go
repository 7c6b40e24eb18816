// C23: configuration options take effect where they are set and keep their value where they are not.
package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"github.com/gorilla/websocket"
	"pgregory.net/rapid"

	"verif/hx"
	"verif/nx"
)

// ---------------------------------------------------------------- fields

var fields = func() (out []reflect.StructField) {
	t := reflect.TypeOf(zconf.Config{})
	for i := 0; i < t.NumField(); i++ {
		out = append(out, t.Field(i))
	}
	return
}()

// Vals are options by name, as JSON values.
type Vals map[string]json.RawMessage

func raw(v interface{}) json.RawMessage { b, _ := json.Marshal(v); return b }

// apply is the reference merge: what is named is set.
func (v Vals) apply(c *zconf.Config) {
	for k, r := range v {
		f := reflect.ValueOf(c).Elem().FieldByName(k)
		if f.IsValid() {
			json.Unmarshal(r, f.Addr().Interface())
		}
	}
}

func (v Vals) config() *zconf.Config {
	c := &zconf.Config{}
	v.apply(c)
	return c
}

// over is the reference merge of an object: what is not empty is set. KcpStreamMode, which is on by
// default, is what the object says.
func over(c *zconf.Config, o *zconf.Config) {
	cv, ov := reflect.ValueOf(c).Elem(), reflect.ValueOf(o).Elem()
	for i := range fields {
		if !ov.Field(i).IsZero() || fields[i].Name == "KcpStreamMode" {
			cv.Field(i).Set(ov.Field(i))
		}
	}
}

func diff(got, want zconf.Config) error {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	var d []string
	for i, f := range fields {
		if g.Field(i).Interface() != w.Field(i).Interface() {
			d = append(d, fmt.Sprintf("%s is %v, not %v", f.Name, g.Field(i).Interface(), w.Field(i).Interface()))
		}
	}
	if d != nil {
		return fmt.Errorf("%s", strings.Join(d, "; "))
	}
	return nil
}

var words = []string{"a", "zinx", "Server 1", "/x/y", "中文", "V9.9", "Hash", "Bind", "DynamicBind", "websocket", "kcp", "0", "\t", "\"q\"", "tcp", "/"}

func genVal(t *rapid.T, f reflect.StructField, zero bool) json.RawMessage {
	n := rapid.IntRange(0, 9).Draw(t, f.Name)
	z := zero && n == 0
	switch f.Type.Kind() {
	case reflect.Bool:
		return raw(!z && (!zero || n < 6))
	case reflect.String:
		if z {
			return raw("")
		}
		if n < 8 {
			return raw(rapid.SampledFrom(words).Draw(t, "w"))
		}
		return raw(rapid.StringN(1, 10, -1).Draw(t, "s"))
	}
	if z {
		return raw(0)
	}
	lo, hi := int64(1), int64(1<<31-1)
	switch {
	case f.Name == "HeartbeatMax": // in seconds, so that it fits a duration
		hi = 1e9
	case f.Name == "LogIsolationLevel":
		hi = 8
	case f.Type.Kind() == reflect.Uint32:
		hi = 1<<32 - 1
	case f.Type.Kind() == reflect.Int64:
		hi = 1<<63 - 1
	case f.Type.Kind() == reflect.Int && n == 9:
		return raw(-rapid.Int64Range(1, 1<<31).Draw(t, "neg"))
	}
	if n < 4 {
		return raw(rapid.Int64Range(1, 9).Draw(t, "small"))
	}
	return raw(rapid.Int64Range(lo, hi).Draw(t, "i"))
}

// genVals draws options for a random subset of the fields: few, about half or all of them.
func genVals(t *rapid.T, zero bool, skip map[string]bool) Vals {
	v := Vals{}
	p := rapid.SampledFrom([]int{0, 1, 1, 2, 5, 9, 10}).Draw(t, "density")
	for _, f := range fields {
		if skip[f.Name] || rapid.IntRange(0, 9).Draw(t, "in") >= p {
			continue
		}
		v[f.Name] = genVal(t, f, zero)
	}
	return v
}

// ---------------------------------------------------------------- merges in this process

var logFields = map[string]bool{"LogFile": true, "LogDir": true}

type MergeCase struct {
	Base Vals
	Objs []Vals
}

var genMerge = rapid.Custom(func(t *rapid.T) MergeCase {
	return MergeCase{Base: genVals(t, true, logFields), Objs: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Vals { return genVals(t, false, logFields) }), 1, 4).Draw(t, "objects")}
})

func runMerge(c MergeCase, r *hx.Rec) error {
	nx.Quiet(0)
	*zconf.GlobalObject = zconf.Config{}
	c.Base.apply(zconf.GlobalObject)
	want := *zconf.GlobalObject
	set := 0
	for i, v := range c.Objs {
		o := v.config()
		was := *o
		set += len(v)
		zconf.UserConfToGlobal(o)
		over(&want, &was)
		if err := diff(*o, was); err != nil {
			return fmt.Errorf("object %d was changed: %v", i, err)
		}
		if err := diff(*zconf.GlobalObject, want); err != nil {
			return fmt.Errorf("after object %d, which sets %s: %v", i, keys(v), err)
		}
		if d := zconf.GlobalObject.HeartbeatMaxDuration(); d != time.Duration(want.HeartbeatMax)*time.Second {
			return fmt.Errorf("a heartbeat limit of %d is %v", want.HeartbeatMax, d)
		}
		*o = zconf.Config{Name: "changed later", MaxConn: 77}
		if err := diff(*zconf.GlobalObject, want); err != nil {
			return fmt.Errorf("changing object %d afterwards: %v", i, err)
		}
	}
	if set >= 2 && len(c.Objs) > 1 {
		r.Nontrivial(true)
	}
	r.Label(true, fmt.Sprintf("objects %d", len(c.Objs)))
	r.Label(true, "fields "+size(set))
	return nil
}

func size(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 3:
		return "1-2"
	case n < 20:
		return "3-19"
	}
	return "20+"
}

func keys(v Vals) string {
	var k []string
	for n := range v {
		k = append(k, n)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

// ---------------------------------------------------------------- a process with a file and objects

// Stage: Object is a configuration object; File a configuration file that is put in place (Gone: removed)
// and loaded again.
type Stage struct {
	Object Vals
	File   Vals
	Gone   bool
	Server bool // the object is given to NewUserConfServer
	Lines  int  // lines logged per level after the stage
}

// Where: 0 the variable names the file, 1 it names it relative to the working directory, 2 conf/zinx.json in
// the working directory, 3 there is no file
type ProcCase struct {
	Where   int
	Unknown bool // the file has an option zinx does not know
	Indent  bool
	File    Vals
	First   int // lines logged per level before the first stage
	Stages  []Stage
	Logs    bool // log files are used, and old log files are there
}

var logDirs = []string{"log", "logs2"}
var logNames = []string{"a.log", "b.log", "plain"}
var saveDays = []int{2, 10, 30, 100}
var ages = []int{1, 5, 20, 60, 200}

const smallSize, bigSize = 2000, 50 << 20

// genLogVals draws log options; paths are relative to the scratch directory.
func genLogVals(t *rapid.T, v Vals, zero bool) {
	for n := range v {
		if strings.HasPrefix(n, "Log") {
			delete(v, n)
		}
	}
	k := func(n string) bool { return rapid.IntRange(0, 9).Draw(t, n) < 4 }
	if k("LogDir") {
		v["LogDir"] = raw(rapid.SampledFrom(logDirs).Draw(t, "dir"))
	}
	if k("LogFile") {
		v["LogFile"] = raw(rapid.SampledFrom(logNames).Draw(t, "name"))
	}
	if k("LogSaveDays") {
		v["LogSaveDays"] = raw(rapid.SampledFrom(saveDays).Draw(t, "days"))
	}
	if k("LogFileSize") {
		v["LogFileSize"] = raw(rapid.SampledFrom([]int{smallSize, bigSize}).Draw(t, "size"))
	}
	if k("LogCons") {
		v["LogCons"] = raw(!zero || rapid.Bool().Draw(t, "cons"))
	}
	if k("LogIsolationLevel") {
		v["LogIsolationLevel"] = raw(rapid.IntRange(1, 4).Draw(t, "level"))
	}
}

// sane keeps the values a server is made with small.
func sane(t *rapid.T, v Vals) {
	for _, n := range []string{"WorkerPoolSize", "MaxConn", "MaxWorkerTaskLen", "MaxMsgChanLen", "IOReadBuffSize"} {
		if _, ok := v[n]; ok {
			v[n] = raw(rapid.IntRange(1, 50).Draw(t, n))
		}
	}
	if _, ok := v["WorkerMode"]; ok {
		v["WorkerMode"] = raw(rapid.SampledFrom([]string{zconf.WorkerModeHash, zconf.WorkerModeDynamicBind}).Draw(t, "mode"))
	}
}

func genProcOf(logs bool) *rapid.Generator[ProcCase] {
	return rapid.Custom(func(t *rapid.T) ProcCase {
		c := ProcCase{Logs: logs}
		skip := logFields
		file := func() Vals {
			v := genVals(t, true, skip)
			sane(t, v)
			if logs {
				genLogVals(t, v, true)
			}
			return v
		}
		lines := func() int {
			if !logs {
				return 0
			}
			return rapid.SampledFrom([]int{1, 3, 200}).Draw(t, "lines")
		}
		c.Where = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "where")
		c.Unknown = rapid.IntRange(0, 3).Draw(t, "unknown") == 0
		c.Indent = rapid.Bool().Draw(t, "indent")
		if c.Where != 3 {
			c.File = file()
		}
		c.First = lines()
		for i := rapid.IntRange(0, 4).Draw(t, "stages"); i > 0; i-- {
			s := Stage{Lines: lines()}
			switch rapid.IntRange(0, 5).Draw(t, "stage") {
			case 0:
				s.Gone = true
			case 1, 2:
				s.File = file()
			default:
				s.Object = genVals(t, false, skip)
				sane(t, s.Object)
				if logs {
					genLogVals(t, s.Object, false)
				}
				s.Server = rapid.Bool().Draw(t, "server")
			}
			c.Stages = append(c.Stages, s)
		}
		return c
	})
}

var genProc, genLogs = genProcOf(false), genProcOf(true)

// rooted makes the log directory absolute.
func rooted(v Vals, dir string) Vals {
	o := Vals{}
	for k, r := range v {
		o[k] = r
	}
	if r, ok := v["LogDir"]; ok {
		var s string
		json.Unmarshal(r, &s)
		o["LogDir"] = raw(filepath.Join(dir, s))
	}
	return o
}

func fileBytes(c ProcCase, v Vals, dir string) []byte {
	m := rooted(v, dir)
	if c.Unknown {
		m["NoSuchOption"] = raw(map[string]int{"x": 1})
	}
	b, _ := json.Marshal(m)
	if c.Indent {
		b, _ = json.MarshalIndent(m, "", "  ")
	}
	return b
}

func logLines(stage, n int) {
	f := []func(string, ...interface{}){zlog.Debugf, zlog.Infof, zlog.Warnf, zlog.Errorf}
	for i := 0; i < n; i++ {
		for l := range f {
			f[l]("<%d:%d:%d>", stage, l, i)
		}
	}
}

// child runs the stages and prints the configuration after each.
func child(js string) {
	var c ProcCase
	if err := json.Unmarshal([]byte(js), &c); err != nil {
		os.Exit(7)
	}
	dir := os.Getenv("C23_DIR")
	path := os.Getenv("C23_FILE")
	out, err := os.Create(filepath.Join(dir, "out.json"))
	if err != nil {
		os.Exit(7)
	}
	enc := json.NewEncoder(out)
	var want zconf.Config // only for what there is to wait for
	say := func(stage, lines int) {
		want = *zconf.GlobalObject
		enc.Encode(want)
		logLines(stage, lines)
	}
	say(0, c.First)
	waitOld(c, dir, want, c.First)
	for i, s := range c.Stages {
		switch {
		case s.Gone:
			os.Remove(path)
			zconf.GlobalObject.Reload()
		case s.Object != nil:
			o := rooted(s.Object, dir).config()
			if s.Server {
				sv := znet.NewUserConfServer(o)
				if sv.ServerName() != zconf.GlobalObject.Name {
					fmt.Fprintf(os.Stderr, "CHILD: server name %q\n", sv.ServerName())
				}
			} else {
				zconf.UserConfToGlobal(o)
			}
		default:
			if os.MkdirAll(filepath.Dir(path), 0o755) != nil || os.WriteFile(path, fileBytes(c, s.File, dir), 0o644) != nil {
				os.Exit(7)
			}
			zconf.GlobalObject.Reload()
		}
		say(i+1, s.Lines)
		waitOld(c, dir, want, s.Lines)
	}
	if zconf.GlobalObject.LogFile != "" {
		zlog.SetLogFile(filepath.Join(dir, "end"), "end.log") // flushes the file in use
	}
	os.Exit(0)
}

var waited = map[string]bool{}

// waitOld waits until the old files that are due are removed: they are removed in the background.
func waitOld(c ProcCase, dir string, g zconf.Config, lines int) {
	if !c.Logs || g.LogFile == "" || lines == 0 || g.LogIsolationLevel > 3 {
		return
	}
	if p := filepath.Join(g.LogDir, g.LogFile); waited[p] {
		return
	} else {
		waited[p] = true
	}
	if g.LogSaveDays == 0 {
		return
	}
	hx.Wait(10*time.Second, func() bool {
		for _, a := range ages {
			if a > g.LogSaveDays {
				if _, err := os.Lstat(filepath.Join(g.LogDir, oldName(g.LogFile, a))); err == nil {
					return false
				}
			}
		}
		return true
	})
}

func oldName(file string, age int) string {
	return strings.TrimSuffix(file, ".log") + time.Now().Add(-12*time.Hour).AddDate(0, 0, -age).Format(".2006-01-02-") + "120000.000000.zip"
}

func defaults(cwd string) zconf.Config {
	return zconf.Config{
		Name: "ZinxServerApp", Version: "V1.0", TCPPort: 8999, WsPort: 9000, WsPath: "/", KcpPort: 9001, Host: "0.0.0.0",
		MaxConn: 12000, MaxPacketSize: 4096, WorkerPoolSize: 10, MaxWorkerTaskLen: 1024, MaxMsgChanLen: 1024, LogDir: cwd + "/log",
		HeartbeatMax: 10, IOReadBuffSize: 1024, Mode: "tcp", KcpStreamMode: true,
		KcpNoDelay: 1, KcpInterval: 10, KcpResend: 2, KcpNc: 1, KcpRecvWindow: 32, KcpSendWindow: 32,
	}
}

// view is where the lines of one stage are to be found.
type view struct {
	file  string // "" for stderr only
	cons  bool
	level int
	size  int64
	lines int
}

func runProc(c ProcCase, r *hx.Rec) error {
	dir, err := os.MkdirTemp(os.Getenv("HX_DIR"), "p")
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	dir, _ = filepath.EvalSymlinks(dir)
	defer os.RemoveAll(dir)
	cwd := filepath.Join(dir, "cwd")
	path := filepath.Join(dir, "my.conf")
	env := path
	switch c.Where {
	case 1:
		path, env = filepath.Join(cwd, "sub", "z.json"), "sub/z.json"
	case 2:
		path, env = filepath.Join(cwd, "conf", "zinx.json"), ""
	}
	if err := os.MkdirAll(cwd, 0o755); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	if c.Where != 3 {
		if os.MkdirAll(filepath.Dir(path), 0o755) != nil || os.WriteFile(path, fileBytes(c, c.File, dir), 0o644) != nil {
			return fmt.Errorf("HARNESS: cannot write the file")
		}
	}
	// old log files, and logs of another day
	var places []string
	if c.Logs {
		for _, d := range []string{filepath.Join(dir, "log"), filepath.Join(dir, "logs2"), filepath.Join(cwd, "log")} {
			if err := os.MkdirAll(d, 0o755); err != nil {
				return fmt.Errorf("HARNESS: %v", err)
			}
			for _, f := range logNames {
				p := filepath.Join(d, f)
				places = append(places, p)
				if err := os.WriteFile(p, []byte("another day\n"), 0o644); err != nil {
					return fmt.Errorf("HARNESS: %v", err)
				}
				old := time.Now().AddDate(0, 0, -3)
				os.Chtimes(p, old, old)
				for _, a := range ages {
					if err := os.WriteFile(filepath.Join(d, oldName(f, a)), []byte("old"), 0o644); err != nil {
						return fmt.Errorf("HARNESS: %v", err)
					}
				}
			}
		}
	}

	exe, err := os.Executable()
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	js, _ := json.Marshal(c)
	cmd := exec.Command(exe)
	cmd.Dir = cwd
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "ZINX_CONFIG_FILE_PATH=") && !strings.HasPrefix(e, "PWD=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "C23_CHILD="+string(js), "C23_DIR="+dir, "C23_FILE="+path, "PWD="+cwd)
	if env != "" {
		cmd.Env = append(cmd.Env, "ZINX_CONFIG_FILE_PATH="+env)
	}
	var errOut bytes.Buffer
	cmd.Stderr = &errOut
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	cerr := cmd.Run()
	runtime.UnlockOSThread()
	if cerr != nil {
		if cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 2 {
			return fmt.Errorf("the process ended with a panic: %s", tail(errOut.String()))
		}
		return fmt.Errorf("HARNESS: the child ended with %v: %s", cerr, tail(errOut.String()))
	}
	if i := strings.Index(errOut.String(), "CHILD: "); i >= 0 {
		return fmt.Errorf("%s", tail(errOut.String()[i:]))
	}
	b, err := os.ReadFile(filepath.Join(dir, "out.json"))
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))

	// the model
	want := defaults(cwd)
	rooted(c.File, dir).apply(&want)
	views := []view{}
	var seen view
	see := func(lines int) {
		if want.LogIsolationLevel > 0 {
			seen.level = want.LogIsolationLevel
		}
		if want.LogFile != "" {
			seen.file = filepath.Join(want.LogDir, want.LogFile)
		}
		seen.cons = want.LogCons
		seen.size = want.LogFileSize
		seen.lines = lines
		views = append(views, seen)
	}
	check := func(stage int) error {
		var got zconf.Config
		if err := dec.Decode(&got); err != nil {
			return fmt.Errorf("HARNESS: stage %d: %v", stage, err)
		}
		if err := diff(got, want); err != nil {
			if stage == 0 {
				return fmt.Errorf("at the start: %v", err)
			}
			return fmt.Errorf("after stage %d (%s): %v", stage, what(c.Stages[stage-1]), err)
		}
		return nil
	}
	// how many days are kept of a place, when something is written to it for the first time
	kept := map[string]int{}
	keep := func() {
		v := views[len(views)-1]
		if v.file != "" && v.lines > 0 && v.level <= 3 {
			if _, ok := kept[v.file]; !ok {
				kept[v.file] = want.LogSaveDays
			}
		}
	}
	if err := check(0); err != nil {
		return err
	}
	see(c.First)
	keep()
	objs, files := 0, 0
	ambiguous := map[string]bool{}
	for i, s := range c.Stages {
		switch {
		case s.Gone:
			// zinx itself reports the missing file: that may be the first line of this place
			if v := views[len(views)-1]; v.file != "" {
				if _, ok := kept[v.file]; !ok {
					ambiguous[v.file] = true
				}
			}
		case s.Object != nil:
			over(&want, rooted(s.Object, dir).config())
			objs++
		default:
			rooted(s.File, dir).apply(&want)
			files++
		}
		if err := check(i + 1); err != nil {
			return err
		}
		see(s.Lines)
		keep()
	}

	if c.Logs {
		if err := checkLogs(c, dir, views, errOut.Bytes(), places, kept, ambiguous); err != nil {
			return err
		}
		if len(kept) > 0 && len(c.Stages) > 0 {
			r.Nontrivial(true)
		}
		r.Label(true, fmt.Sprintf("log files used %d", len(kept)))
	} else if (len(c.File) > 0 && objs > 0) || len(c.Stages) > 1 {
		r.Nontrivial(true)
	}
	r.Label(true, fmt.Sprintf("where %d", c.Where))
	r.Label(true, fmt.Sprintf("stages %d", len(c.Stages)))
	return nil
}

func what(s Stage) string {
	switch {
	case s.Gone:
		return "the file is removed"
	case s.Object != nil:
		return "an object that sets " + keys(s.Object)
	}
	return "a file that names " + keys(s.File)
}

func tail(s string) string {
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// marks are the lines of a text that the stages wrote, as stage:level:number
func marks(b []byte, into map[string]int) {
	for _, l := range strings.Split(string(b), "\n") {
		i, j := strings.Index(l, "<"), strings.LastIndex(l, ">")
		if i >= 0 && j == len(l)-1 && i < j {
			into[l[i+1:j]]++
		}
	}
}

func checkLogs(c ProcCase, dir string, views []view, stderr []byte, places []string, kept map[string]int, ambiguous map[string]bool) error {
	onErr := map[string]int{}
	marks(stderr, onErr)
	// what each place holds: the file and what was rotated out of it
	holds := map[string]map[string]int{}
	rotated := map[string]map[string]int{}
	for _, p := range places {
		h, z := map[string]int{}, map[string]int{}
		if b, err := os.ReadFile(p); err == nil {
			marks(b, h)
		}
		base := strings.TrimSuffix(filepath.Base(p), ".log")
		ents, _ := os.ReadDir(filepath.Dir(p))
		for _, e := range ents {
			n := e.Name()
			if !strings.HasPrefix(n, base+".") || n == filepath.Base(p) {
				continue
			}
			f := filepath.Join(filepath.Dir(p), n)
			if strings.HasSuffix(n, ".zip") {
				zr, err := zip.OpenReader(f)
				if err != nil {
					continue // one of the old files
				}
				for _, zf := range zr.File {
					rd, err := zf.Open()
					if err != nil {
						continue
					}
					b, _ := io.ReadAll(rd)
					rd.Close()
					marks(b, h)
					marks(b, z)
				}
				zr.Close()
			} else if b, err := os.ReadFile(f); err == nil {
				marks(b, h)
				marks(b, z)
			}
		}
		holds[p], rotated[p] = h, z
	}
	small := map[string]bool{}
	for st, v := range views {
		if v.size == smallSize {
			small[v.file] = true
		}
		for l := 0; l < 4; l++ {
			for i := 0; i < v.lines; i++ {
				m := fmt.Sprintf("%d:%d:%d", st, l, i)
				due := 0
				if l >= v.level {
					due = 1
				}
				atErr := due
				if v.file != "" && !v.cons {
					atErr = 0
				}
				if onErr[m] != atErr {
					return fmt.Errorf("stage %d (level %d, file %q, console %v): a line of level %d is written %d times to the console, not %d", st, v.level, v.file, v.cons, l, onErr[m], atErr)
				}
				for _, p := range places {
					n := 0
					if p == v.file {
						n = due
					}
					if holds[p][m] != n {
						return fmt.Errorf("stage %d (level %d, file %q, console %v): a line of level %d is written %d times to %s, not %d", st, v.level, v.file, v.cons, l, holds[p][m], p, n)
					}
				}
			}
		}
		if v.file != "" && v.size == smallSize && v.lines >= 200 && v.level <= 3 {
			// well over twice the size was written in this stage
			found := false
			for m := range rotated[v.file] {
				if strings.HasPrefix(m, fmt.Sprint(st, ":")) {
					found = true
				}
			}
			if !found {
				return fmt.Errorf("stage %d wrote far more than %d bytes to %s, and nothing was rotated out", st, smallSize, v.file)
			}
		}
	}
	for _, p := range places {
		if !small[p] && len(rotated[p]) > 0 {
			return fmt.Errorf("%s was rotated, though no small size was ever set", p)
		}
	}
	for p, days := range kept {
		if days == 0 || ambiguous[p] {
			continue
		}
		for _, a := range ages {
			_, err := os.Lstat(filepath.Join(filepath.Dir(p), oldName(filepath.Base(p), a)))
			if (err == nil) != (a < days) {
				return fmt.Errorf("logs of %s are to be kept %d days: one that is %d days old is there: %v", p, days, a, err == nil)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- servers

type pack struct {
	ziface.IDataPack
	n int
}

func newPack(n int) *pack { return &pack{zpack.Factory().NewPack(ziface.ZinxDataPack), n} }

type ServerCase struct {
	ByFile bool
	Name   string
	Mode   string // tcp websocket kcp, other: tcp and websocket
	Ports  [3]int
	Path   string
	TLS    bool
	Packs  int
	Slices bool
	Make   int // 0 the usual constructor, 1 the one with the recovery handler
}

var genServer = rapid.Custom(func(t *rapid.T) ServerCase {
	c := ServerCase{
		ByFile: rapid.Bool().Draw(t, "file"),
		Name:   rapid.SampledFrom(words).Draw(t, "name"),
		Mode:   rapid.SampledFrom([]string{"tcp", "websocket", "kcp", "all"}).Draw(t, "mode"),
		Path:   rapid.SampledFrom([]string{"/", "/ws", "/a/b", "/x/"}).Draw(t, "path"),
		Packs:  rapid.IntRange(0, 2).Draw(t, "packs"),
		Slices: rapid.Bool().Draw(t, "slices"),
	}
	p := rapid.IntRange(20100, 20900).Draw(t, "port")
	d := rapid.Permutation([]int{0, 1, 2}).Draw(t, "order")
	for i := range c.Ports {
		c.Ports[i] = p + d[i]*7
	}
	c.TLS = (c.Mode == "tcp" || c.Mode == "all") && rapid.IntRange(0, 2).Draw(t, "tls") == 0
	if c.Slices {
		c.Make = rapid.IntRange(0, 1).Draw(t, "make")
	}
	return c
})

func runServer(c ServerCase, r *hx.Rec) error {
	nx.Quiet(0)
	r.Nontrivial(true)
	r.Label(true, "mode "+c.Mode)
	os.Remove(zconf.GetConfigFilePath()) // of an earlier case
	*zconf.GlobalObject = defaults("")
	v := Vals{"Host": raw(nx.IP()), "Name": raw(c.Name), "Mode": raw(c.Mode), "TCPPort": raw(c.Ports[0]), "WsPort": raw(c.Ports[1]), "KcpPort": raw(c.Ports[2]), "WsPath": raw(c.Path)}
	if c.TLS {
		cf, kf, err := nx.Cert()
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		v["CertFile"], v["PrivateKeyFile"] = raw(cf), raw(kf)
	}
	if c.Slices {
		v["RouterSlicesMode"] = raw(true)
	}
	var opts []znet.Option
	var last *pack
	for i := 0; i < c.Packs; i++ {
		last = newPack(i)
		opts = append(opts, znet.WithPacket(last))
	}
	var s ziface.IServer
	if c.ByFile {
		b, _ := json.Marshal(v)
		if err := os.WriteFile(zconf.GetConfigFilePath(), b, 0o644); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		zconf.GlobalObject.Reload()
		if c.Make == 1 {
			s = znet.NewDefaultRouterSlicesServer(opts...)
		} else {
			s = znet.NewServer(opts...)
		}
	} else if c.Make == 1 {
		s = znet.NewUserConfDefaultRouterSlicesServer(v.config(), opts...)
	} else {
		s = znet.NewUserConfServer(v.config(), opts...)
	}
	if s.ServerName() != c.Name {
		return fmt.Errorf("the server's name is %q, not %q", s.ServerName(), c.Name)
	}
	if last != nil && s.GetPacket() != ziface.IDataPack(last) {
		return fmt.Errorf("the server does not have the last packet format it was given")
	}
	if last == nil {
		if _, ok := s.GetPacket().(*zpack.DataPack); !ok {
			return fmt.Errorf("the server's packet format is a %T", s.GetPacket())
		}
	}
	if lf := s.GetLengthField(); lf == nil || lf.LengthFieldOffset != 4 || lf.LengthFieldLength != 4 {
		return fmt.Errorf("the server's decoder is not the default: %+v", lf)
	}
	if s.GetHeartBeat() != nil || s.GetOnConnStart() != nil || s.GetOnConnStop() != nil {
		return fmt.Errorf("the server has hooks or a heartbeat nobody set")
	}
	nx.Route(s, c.Slices, 5, func(q ziface.IRequest) { q.GetConnection().SendMsg(6, q.GetData()) })
	s.Start()
	defer s.Stop()

	tcp, ws, kc := c.Mode == "tcp" || c.Mode == "all", c.Mode == "websocket" || c.Mode == "all", c.Mode == "kcp"
	state := func() [3]bool {
		return [3]bool{nx.Bound("/proc/net/tcp", nx.IP(), c.Ports[0]), nx.Bound("/proc/net/tcp", nx.IP(), c.Ports[1]), nx.Bound("/proc/net/udp", nx.IP(), c.Ports[2])}
	}
	want := [3]bool{tcp, ws, kc}
	if !hx.Wait(nx.Patience, func() bool { return state() == want }) {
		return fmt.Errorf("mode %s: listening (tcp, websocket, kcp) on the configured ports: %v", c.Mode, state())
	}
	if tcp {
		tr := "tcp"
		if c.TLS {
			tr = "tls"
		}
		p, err := nx.DialAt(tr, nx.IP(), c.Ports[0], "")
		if err != nil {
			return fmt.Errorf("cannot connect by %s: %v", tr, err)
		}
		if err := echo(p); err != nil {
			return fmt.Errorf("by %s: %v", tr, err)
		}
	}
	if ws && !c.TLS {
		p, err := nx.DialAt("ws", nx.IP(), c.Ports[1], c.Path)
		if err != nil {
			return fmt.Errorf("cannot connect to %s: %v", c.Path, err)
		}
		if err := echo(p); err != nil {
			return fmt.Errorf("by websocket: %v", err)
		}
		if c.Path != "/" {
			if p, err := nx.DialAt("ws", nx.IP(), c.Ports[1], "/other"); err == nil {
				p.Close()
				return fmt.Errorf("a connection to /other is accepted, the path being %s", c.Path)
			}
		}
	}
	if kc {
		p, err := nx.DialAt("kcp", nx.IP(), c.Ports[2], "")
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		if err := echo(p); err != nil {
			return fmt.Errorf("by kcp: %v", err)
		}
	}
	if state() != want {
		return fmt.Errorf("mode %s: listening (tcp, websocket, kcp) after a while: %v", c.Mode, state())
	}
	return nil
}

func echo(p *nx.Peer) error {
	defer p.Close()
	p.SetReadDeadline(time.Now().Add(nx.Patience))
	if err := p.Write(nx.TLV(5, []byte("hello")), nil); err != nil {
		return err
	}
	id, b, err := nx.ReadTLV(p)
	if err != nil || id != 6 || string(b) != "hello" {
		return fmt.Errorf("no echo: id %d, %q, %v", id, b, err)
	}
	return nil
}

// ---------------------------------------------------------------- clients

// Opt: 0 a packet format, 1 a name, 2 a URL
type ClientCase struct {
	Kind  int // 0 tcp 1 tls 2 websocket
	Opts  []int
	After []int // set by the methods of the client afterwards
}

var genClient = rapid.Custom(func(t *rapid.T) ClientCase {
	o := rapid.SliceOfN(rapid.IntRange(0, 2), 0, 5)
	return ClientCase{Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Opts: o.Draw(t, "options"), After: rapid.SliceOfN(rapid.IntRange(0, 2), 0, 2).Draw(t, "after")}
})

var hub struct {
	once sync.Once
	port int
	err  error
	got  chan string
}

// hubUp listens for websocket connections and reports the paths they ask for.
func hubUp() error {
	hub.once.Do(func() {
		ln, err := net.Listen("tcp4", nx.IP()+":0")
		if err != nil {
			hub.err = fmt.Errorf("HARNESS: %v", err)
			return
		}
		hub.port = ln.Addr().(*net.TCPAddr).Port
		hub.got = make(chan string, 100)
		up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
		go http.Serve(ln, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if ws, err := up.Upgrade(w, r, nil); err == nil {
				hub.got <- r.URL.RequestURI()
				io.Copy(io.Discard, ws.UnderlyingConn())
				ws.Close()
			}
		}))
	})
	return hub.err
}

func runClient(c ClientCase, r *hx.Rec) error {
	nx.Quiet(0)
	if err := hubUp(); err != nil {
		return err
	}
	var opts []znet.ClientOption
	var pk *pack
	name := []string{"ZinxClientTcp", "ZinxClientTcp", "ZinxClientWs"}[c.Kind]
	var u *url.URL
	put := func(i, k int, viaOpt bool, cl ziface.IClient) {
		switch k {
		case 0:
			pk = newPack(i)
			if viaOpt {
				opts = append(opts, znet.WithPacketClient(pk))
			} else {
				cl.SetPacket(pk)
			}
		case 1:
			name = fmt.Sprint("client ", i)
			if viaOpt {
				opts = append(opts, znet.WithNameClient(name))
			} else {
				cl.SetName(name)
			}
		case 2:
			u, _ = url.Parse(fmt.Sprintf("ws://%s:%d/p%d?q=%d", nx.IP(), hub.port, i, i))
			if viaOpt {
				opts = append(opts, znet.WithUrl(u))
			} else {
				cl.SetUrl(u)
			}
		}
	}
	for i, k := range c.Opts {
		put(i, k, true, nil)
	}
	var cl ziface.IClient
	switch c.Kind {
	case 0:
		cl = znet.NewClient(nx.IP(), hub.port, opts...)
	case 1:
		cl = znet.NewTLSClient(nx.IP(), hub.port, opts...)
	default:
		cl = znet.NewWsClient(nx.IP(), hub.port, opts...)
	}
	check := func() error {
		if cl.GetName() != name {
			return fmt.Errorf("the client's name is %q, not %q", cl.GetName(), name)
		}
		if pk != nil {
			if cl.GetPacket() != ziface.IDataPack(pk) {
				return fmt.Errorf("the client does not have the last packet format it was given")
			}
		} else if _, ok := cl.GetPacket().(*zpack.DataPack); !ok {
			return fmt.Errorf("the client's packet format is a %T", cl.GetPacket())
		}
		if cl.GetUrl() != u {
			return fmt.Errorf("the client's URL is %v, not %v", cl.GetUrl(), u)
		}
		if lf := cl.GetLengthField(); lf == nil || lf.LengthFieldOffset != 4 || lf.LengthFieldLength != 4 {
			return fmt.Errorf("the client's decoder is not the default: %+v", lf)
		}
		if cl.GetOnConnStart() != nil || cl.GetOnConnStop() != nil {
			return fmt.Errorf("the client has hooks nobody set")
		}
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	for i, k := range c.After {
		put(10+i, k, false, cl)
		if err := check(); err != nil {
			return fmt.Errorf("after a change: %v", err)
		}
	}
	// two clients do not share what they were given
	other := znet.NewClient(nx.IP(), hub.port)
	if other.GetName() != "ZinxClientTcp" || other.GetUrl() != nil {
		return fmt.Errorf("another client has the name %q and the URL %v", other.GetName(), other.GetUrl())
	}
	if len(c.Opts)+len(c.After) >= 2 {
		r.Nontrivial(true)
	}
	r.Label(true, fmt.Sprintf("kind %d", c.Kind))
	if c.Kind == 2 {
		started := make(chan ziface.IConnection, 1)
		cl.SetOnConnStart(func(cn ziface.IConnection) { started <- cn })
		cl.Start()
		defer cl.Stop()
		path := "/"
		if u != nil {
			path = u.RequestURI()
		}
		select {
		case p := <-hub.got:
			if p != path {
				return fmt.Errorf("the client asked for %q, not %q", p, path)
			}
		case err := <-cl.GetErrChan():
			return fmt.Errorf("the client cannot connect: %v", err)
		case <-time.After(nx.Patience):
			return fmt.Errorf("the client has not connected after %v", nx.Patience)
		}
		select {
		case cn := <-started:
			if cn.GetName() != name {
				return fmt.Errorf("the connection's name is %q, the client's %q", cn.GetName(), name)
			}
		case <-time.After(nx.Patience):
			return fmt.Errorf("the client's connection has not started after %v", nx.Patience)
		}
	}
	return nil
}

func main() {
	if js := os.Getenv("C23_CHILD"); js != "" {
		child(js)
		return
	}
	hx.Main(hx.Property{
		ID:   "C23",
		Rule: "merge: at least two objects and two options; process: a file and an object, or at least two stages; logs: a log file is written and there is at least one stage; server, kcp: always; client: at least two options",
		Assumptions: []string{
			"an object's KcpStreamMode is taken as it is (it is on by default, and an object is the way to turn it off)",
			"a log level cannot be lowered to 0 again",
			"the limit of days is that in force when the first line of a day is written",
		},
		Facets: []hx.Facet{
			hx.F("merge", 40000, 400000, func(t *rapid.T) MergeCase { return genMerge.Draw(t, "case") }, runMerge),
			hx.F("process", 1500, 15000, func(t *rapid.T) ProcCase { return genProc.Draw(t, "case") }, runProc),
			hx.F("logs", 1500, 15000, func(t *rapid.T) ProcCase { return genLogs.Draw(t, "case") }, runProc),
			hx.F("server", 500, 10000, func(t *rapid.T) ServerCase { return genServer.Draw(t, "case") }, runServer, hx.OneShot()),
			hx.F("kcp", 1500, 30000, genKcp, runKcp, hx.OneShot()),
			hx.F("client", 4000, 30000, func(t *rapid.T) ClientCase { return genClient.Draw(t, "case") }, runClient),
		},
	})
}
