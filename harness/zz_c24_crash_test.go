package zzverif

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/yields/ant/antcache"
)

// ---- values ---------------------------------------------------------------------

// diskValue is the value of Store number id of a key: its content names it.
func diskValue(key uint64, id, size int) []byte {
	h := fnv.New64a()
	fmt.Fprint(h, key, ".", id)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	b := []byte(fmt.Sprintf("<%d.%d.%d>", key, id, size))
	for len(b) < size {
		if r.Intn(3) == 0 {
			b = append(b, "aaaaaaaaaaaaaaaa"...)
		} else {
			b = append(b, byte(r.Intn(256)))
		}
	}
	if size >= 1 && len(b) > size && size > 24 {
		b = b[:size]
	}
	return b
}

var diskValueRE = regexp.MustCompile(`^<(\d+)\.(-?\d+)\.(\d+)>`)

// parseDiskValue returns the id of a value of key, or an error if these are not
// exactly the bytes of some value of this key.
func parseDiskValue(key uint64, b []byte) (id int, err error) {
	m := diskValueRE.FindSubmatch(b)
	if m == nil {
		return 0, fmt.Errorf("%s is no value", abbr(b))
	}
	k, _ := strconv.ParseUint(string(m[1]), 10, 64)
	id, size := atoi(string(m[2])), atoi(string(m[3]))
	if k != key {
		return id, fmt.Errorf("%s is a value of key %d", abbr(b), k)
	}
	if !bytes.Equal(b, diskValue(key, id, size)) {
		return id, fmt.Errorf("%s are not the bytes of that value (%d bytes)", abbr(b), size)
	}
	return id, nil
}

// ---- the storing process ----------------------------------------------------------

type childCfg struct {
	Mode     string
	Dir      string
	Compress bool
	Ops      [][]childOp // per goroutine
	FSize    int64       // RLIMIT_FSIZE
	Loads    bool        // load after each store
	Pace     int         // microseconds between operations
	Hist     *histCfg
}

type childOp struct {
	Key  uint64
	ID   int
	Size int
	NoFD bool // no file can be opened meanwhile
}

// TestVerifChild is not a check: it is the process that the crash workloads
// run, trace, hamper and kill.
func TestVerifChild(t *testing.T) {
	p := os.Getenv("VERIF_CHILD")
	if p == "" {
		t.Skip()
	}
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	var cfg childCfg
	if err := json.Unmarshal(b, &cfg); err != nil {
		panic(err)
	}
	mark := func(f string, a ...any) {
		if _, err := syscall.Write(3, []byte(fmt.Sprintf(f+"\n", a...))); err != nil {
			panic(err)
		}
	}
	if cfg.Mode == "hist" {
		h := runHist(cfg.Dir, cfg.Hist)
		b, _ := json.Marshal(h)
		for len(b) > 0 {
			n, err := syscall.Write(3, b)
			if err != nil {
				panic(err)
			}
			b = b[n:]
		}
		return
	}
	if cfg.FSize > 0 {
		lim := syscall.Rlimit{Cur: uint64(cfg.FSize), Max: uint64(cfg.FSize)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			panic(err)
		}
	}
	opts := []antcache.DiskOption{antcache.SweepEvery(0), antcache.Maxage(0), antcache.Maxsize(0)}
	if cfg.Compress {
		opts = append(opts, antcache.Compress())
	}
	d, err := antcache.Open(cfg.Dir, opts...)
	if err != nil {
		mark("F open %v", err)
		return
	}
	if err := d.Wait(context.Background()); err != nil {
		panic(err)
	}
	mark("R")
	var wg sync.WaitGroup
	for _, ops := range cfg.Ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range ops {
				v := diskValue(op.Key, op.ID, op.Size)
				mark("B %d %d", op.Key, op.ID)
				var lim syscall.Rlimit
				if op.NoFD {
					syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
					if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Max: lim.Max}); err != nil {
						panic(err)
					}
				}
				err := d.Store(context.Background(), op.Key, v)
				if op.NoFD {
					syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
				}
				e := 0
				if err != nil {
					e = 1
				}
				mark("E %d %d %d", op.Key, op.ID, e)
				if cfg.Loads {
					v, err := d.Load(context.Background(), op.Key)
					switch {
					case err != nil:
						mark("L %d error %s", op.Key, strings.ReplaceAll(err.Error(), "\n", " "))
					case v == nil:
						mark("L %d none", op.Key)
					default:
						id, err := parseDiskValue(op.Key, v)
						if err != nil {
							mark("L %d bad %s", op.Key, strings.ReplaceAll(err.Error(), "\n", " "))
						} else {
							mark("L %d value %d", op.Key, id)
						}
					}
				}
				if cfg.Pace > 0 {
					time.Sleep(time.Duration(cfg.Pace) * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	mark("D")
	d.Close()
	mark("C")
}

// child prepares the storing process; its marks go to the file returned.
func (c *C) child(work string, cfg childCfg, pre ...string) (*exec.Cmd, string) {
	cf := filepath.Join(work, "child.json")
	b, _ := json.Marshal(cfg)
	if err := os.WriteFile(cf, b, 0o644); err != nil {
		panic(err)
	}
	marks := filepath.Join(work, "marks")
	mf, err := os.OpenFile(marks, os.O_CREATE|os.O_TRUNC|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	argv := append(append([]string{}, pre...), env("VERIF_BIN", os.Args[0]), "-test.run", "^TestVerifChild$")
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+cf, "VERIF_OUT=", "GORACE=halt_on_error=0 exitcode=0 log_path=/dev/null", "GOMAXPROCS=4")
	cmd.ExtraFiles = []*os.File{mf}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	return cmd, marks
}

// ---- what may be there --------------------------------------------------------------

// storeHist is what is known of the Store calls at the time of the crash.
type storeHist struct {
	seq   int
	calls map[uint64][]*storeCall
}

type storeCall struct {
	id         int
	begin, end int // end 0: not returned (successfully)
	failed     bool
}

func (h *storeHist) begin(key uint64, id int) {
	h.seq++
	h.calls[key] = append(h.calls[key], &storeCall{id: id, begin: h.seq})
}

func (h *storeHist) end(key uint64, id int, failed bool) {
	h.seq++
	for _, s := range h.calls[key] {
		if s.id == id {
			if s.failed = failed; !failed {
				s.end = h.seq
			}
		}
	}
}

// allowed returns the values a key may have now, and whether it may have none.
func (h *storeHist) allowed(key uint64) (ids map[int]bool, none bool) {
	ids = map[int]bool{}
	none = true
	for _, s := range h.calls[key] {
		ok := true
		for _, t := range h.calls[key] {
			if t != s && t.end > 0 && s.end > 0 && t.begin > s.end {
				ok = false // t overwrote s
			}
			// A failed or unfinished Store that began before may still have
			// had its effect at any time only while it ran.
			if t != s && t.end > 0 && s.failed && t.begin > s.begin {
				ok = false
			}
		}
		if ok {
			ids[s.id] = true
		}
		if s.end > 0 {
			none = false
		}
	}
	return
}

// judgeDir opens a directory that a crash left behind and compares what it
// holds with what it may hold.
func (c *C) judgeDir(dir string, compress bool, h *storeHist, keys []uint64, when string) bool {
	opts := []antcache.DiskOption{antcache.SweepEvery(0), antcache.Maxage(0), antcache.Maxsize(0)}
	if compress {
		opts = append(opts, antcache.Compress())
	}
	d, err := antcache.Open(dir, opts...)
	if err != nil {
		c.Violate("open", "%s: re-opening failed: %v", when, err)
		return false
	}
	defer d.Close()
	if err := d.Wait(context.Background()); err != nil {
		c.Violate("open", "%s: Wait failed: %v", when, err)
		return false
	}
	ok := true
	known := map[uint64]bool{}
	for _, k := range keys {
		known[k] = true
		v, err := d.Load(context.Background(), k)
		ids, none := h.allowed(k)
		var want []string
		for id := range ids {
			want = append(want, fmt.Sprint(id))
		}
		sort.Strings(want)
		if none {
			want = append(want, "none")
		}
		if err != nil {
			c.Violate("load-error", "%s: loading key %d failed: %v (it may be %v)\n%s", when, k, err, want, lsDir(dir))
			ok = false
			continue
		}
		if v == nil {
			if !none {
				c.Violate("lost", "%s: key %d is gone although a Store of it had returned, it may be %v\n%s", when, k, want, lsDir(dir))
				ok = false
			}
			continue
		}
		id, err := parseDiskValue(k, v)
		if err != nil {
			c.Violate("mangled", "%s: key %d: %v, it may be %v\n%s", when, k, err, want, lsDir(dir))
			ok = false
		} else if !ids[id] {
			c.Violate("old", "%s: key %d has value %d, it may only be %v\n%s", when, k, id, want, lsDir(dir))
			ok = false
		}
	}
	// Nothing else is served, whatever numbers occur in the names of files.
	names, _ := os.ReadDir(dir)
	for _, n := range names {
		for _, s := range regexp.MustCompile(`\d+`).FindAllString(n.Name(), -1) {
			k, err := strconv.ParseUint(s, 10, 64)
			if err != nil || known[k] {
				continue
			}
			if v, err := d.Load(context.Background(), k); v != nil || err != nil {
				c.Violate("leftover", "%s: file %s is served as key %d, which was never stored: %s %v", when, n.Name(), k, abbr(v), err)
				ok = false
			}
		}
	}
	return ok
}

func lsDir(dir string) string {
	es, _ := os.ReadDir(dir)
	var b strings.Builder
	for _, e := range es {
		i, _ := e.Info()
		fmt.Fprintf(&b, "  %s", e.Name())
		if i != nil {
			fmt.Fprintf(&b, " (%d bytes)", i.Size())
		}
	}
	return "directory:" + b.String()
}

// genStores draws what the storing process does.
func genStores(r *rand.Rand, goroutines, n int) (ops [][]childOp, keys []uint64) {
	keys = []uint64{0, 7, 18446744073709551615, 42}[:1+r.Intn(4)]
	id := 100
	for g := 0; g < goroutines; g++ {
		var o []childOp
		for i := 0; i < n; i++ {
			id++
			o = append(o, childOp{Key: pick(r, keys...), ID: id, Size: pick(r, 0, 30, 200, 1500, 3000)})
		}
		ops = append(ops, o)
	}
	return
}

// prepare puts first values into the directory, as an earlier run left them.
func (c *C) prepare(dir string, compress bool, keys []uint64, h *storeHist) {
	if chance(c.Rng, .5) {
		return
	}
	opts := []antcache.DiskOption{antcache.SweepEvery(0)}
	if compress {
		opts = append(opts, antcache.Compress())
	}
	d, err := antcache.Open(dir, opts...)
	if err != nil {
		panic(err)
	}
	for _, k := range keys {
		if chance(c.Rng, .6) {
			h.begin(k, 1)
			if err := d.Store(context.Background(), k, diskValue(k, 1, 1000)); err != nil {
				panic(err)
			}
			h.end(k, 1, false)
		}
	}
	d.Close()
}

var crashSeq atomic.Int64

// workDir makes a scratch directory with the store's directory in it.
func (c *C) workDir() (work, dir string, done func()) {
	base := env("VERIF_SCRATCH", os.TempDir())
	work = filepath.Join(base, fmt.Sprintf("w%d", crashSeq.Add(1)))
	dir = filepath.Join(work, "store")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	return work, dir, func() { os.RemoveAll(work) }
}

// ---- power loss -----------------------------------------------------------------------

// sysEvent is a system call of the storing process.
type sysEvent struct {
	name string
	args string
	ret  string
	pid  string
	lost bool // did not return
}

var (
	straceLine    = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*)\)\s+= (.*)$`)
	straceUnfin   = regexp.MustCompile(`^(\d+)\s+(\w+)\((.*) <unfinished \.\.\.>$`)
	iovBase       = regexp.MustCompile(`iov_base=("[^"]*"(?:\.\.\.)?)`)
	iovOff        = regexp.MustCompile(`\], \d+, (\d+)(?:, [\w|]+)?$`)
	mustReport    = regexp.MustCompile(`^p?write|sync|^rename`)
	straceResumed = regexp.MustCompile(`^(\d+)\s+<\.\.\. (\w+) resumed>(.*)\)\s+= (.*)$`)
)

// parseStrace gives the calls in the order in which they returned, except that
// a close counts from its start: its descriptor may be in use again, by another
// thread, before strace sees it return.
func parseStrace(p string) []sysEvent {
	f, err := os.Open(p)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out []sysEvent
	open := map[string]sysEvent{}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		l := sc.Text()
		if m := straceUnfin.FindStringSubmatch(l); m != nil {
			e := sysEvent{name: m[2], args: m[3], pid: m[1]}
			if e.name == "close" {
				e.args, e.ret = strings.TrimSuffix(strings.TrimSpace(e.args), ")"), "0"
				out = append(out, e)
				e.name = ""
			}
			open[m[1]] = e
		} else if m := straceResumed.FindStringSubmatch(l); m != nil {
			e := open[m[1]]
			delete(open, m[1])
			e.args += m[3]
			e.ret = m[4]
			if e.name != "" {
				out = append(out, e)
			}
		} else if m := straceLine.FindStringSubmatch(l); m != nil {
			out = append(out, sysEvent{name: m[2], args: m[3], ret: m[4], pid: m[1]})
		}
	}
	return out
}

// straceArgs splits the arguments of a call; strings are \x-escaped.
func straceArgs(s string) []string {
	var out []string
	q := false
	cur := ""
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			q = !q
			cur += `"`
		case s[i] == ',' && !q:
			out = append(out, strings.TrimSpace(cur))
			cur = ""
		default:
			cur += string(s[i])
		}
	}
	return append(out, strings.TrimSpace(cur))
}

func unhex(s string) []byte {
	if !strings.HasPrefix(s, `"`) || !strings.HasSuffix(s, `"`) {
		panic("harness: strace shortened a string: " + s)
	}
	b, err := hex.DecodeString(strings.ReplaceAll(s[1:len(s)-1], `\x`, ""))
	if err != nil {
		panic(err)
	}
	return b
}

// vfs is a model of what of the directory is where: in memory or on disk.
type vfs struct {
	dir     string
	names   map[string]*vnode // as the process sees it
	disk    map[string]*vnode // what a power loss leaves for sure
	pending []vop             // changes of names that are not yet on disk
	fds     map[string]*vfd
}

type vnode struct {
	data   []byte
	synced []byte
	clean  bool
	everOK bool
}

type vop struct {
	add  string // name that is to be node
	node *vnode
	del  string // name that goes
}

type vfd struct {
	node *vnode
	isd  bool
	off  int
	app  bool
	sync bool
}

func newVfs(dir string) *vfs {
	v := &vfs{dir: dir, names: map[string]*vnode{}, disk: map[string]*vnode{}, fds: map[string]*vfd{}}
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			panic(err)
		}
		n := &vnode{data: b, synced: b, clean: true, everOK: true}
		v.names[e.Name()], v.disk[e.Name()] = n, n
	}
	return v
}

// newVfsOf is a second model that starts like v.
func newVfsOf(v *vfs) *vfs {
	o := &vfs{dir: v.dir, names: map[string]*vnode{}, disk: map[string]*vnode{}, fds: map[string]*vfd{}}
	for k, n := range v.names {
		m := *n
		o.names[k], o.disk[k] = &m, &m
	}
	return o
}

// differs says where the model and the real directory disagree.
func (v *vfs) differs() string {
	es, _ := os.ReadDir(v.dir)
	if len(es) != len(v.names) {
		return fmt.Sprintf("it has %d files, there are %d", len(v.names), len(es))
	}
	for n, node := range v.names {
		b, err := os.ReadFile(filepath.Join(v.dir, n))
		if err != nil || !bytes.Equal(b, node.data) {
			return fmt.Sprintf("%s: %v", n, err)
		}
	}
	return ""
}

// name returns the name in the store's directory of a path relative to fd.
func (v *vfs) name(at, path string) (string, bool) {
	p := string(unhex(path))
	if !filepath.IsAbs(p) {
		if f := v.fds[at]; f != nil && f.isd {
			p = filepath.Join(v.dir, p)
		}
	}
	if filepath.Dir(p) == v.dir {
		return filepath.Base(p), true
	}
	return "", false
}

func (v *vfs) apply(names map[string]*vnode, o vop) {
	if o.add != "" {
		names[o.add] = o.node
	}
	if o.del != "" {
		delete(names, o.del)
	}
}

func (v *vfs) do(o vop) {
	v.apply(v.names, o)
	v.pending = append(v.pending, o)
}

func (n *vnode) sync() { n.synced, n.clean, n.everOK = append([]byte(nil), n.data...), true, true }

func (v *vfs) syncDir() {
	for _, o := range v.pending {
		v.apply(v.disk, o)
	}
	v.pending = nil
}

func (n *vnode) write(off int, b []byte) {
	for len(n.data) < off+len(b) {
		n.data = append(n.data, 0)
	}
	d := append([]byte(nil), n.data...)
	copy(d[off:], b)
	n.data = d
	n.clean = false
}

// step follows one system call.  It reports whether it changed something.
func (v *vfs) step(e sysEvent) bool {
	ret := strings.Fields(e.ret)
	if len(ret) == 0 || strings.HasPrefix(ret[0], "-") || ret[0] == "?" {
		return false
	}
	if strings.Contains(e.ret, "INJECTED") {
		return false
	}
	a := straceArgs(e.args)
	openat := func(at, path, flags string) bool {
		if string(unhex(path)) == v.dir {
			v.fds[ret[0]] = &vfd{isd: true}
			return false
		}
		n, ok := v.name(at, path)
		if !ok {
			return false
		}
		changed := false
		node := v.names[n]
		if node == nil {
			if !strings.Contains(flags, "O_CREAT") {
				return false
			}
			node = &vnode{}
			v.do(vop{add: n, node: node})
			changed = true
		} else if strings.Contains(flags, "O_TRUNC") {
			node.data, node.clean = nil, false
			changed = true
		}
		v.fds[ret[0]] = &vfd{node: node, app: strings.Contains(flags, "O_APPEND"), sync: strings.Contains(flags, "SYNC")}
		return changed
	}
	switch e.name {
	case "open":
		return openat("", a[0], a[1])
	case "creat":
		return openat("", a[0], "O_CREAT|O_TRUNC")
	case "openat":
		return openat(a[0], a[1], a[2])
	case "close":
		delete(v.fds, a[0])
	case "dup", "dup2", "dup3":
		if f := v.fds[a[0]]; f != nil {
			v.fds[ret[0]] = f
		}
	case "write", "pwrite64":
		f := v.fds[a[0]]
		if f == nil || f.node == nil {
			return false
		}
		b := unhex(a[1])[:atoi(ret[0])]
		off := f.off
		if f.app {
			off = len(f.node.data)
		}
		if e.name == "pwrite64" {
			off = atoi(a[3])
		} else {
			f.off = off + len(b)
		}
		f.node.write(off, b)
		if f.sync {
			f.node.sync()
		}
		return true
	case "writev", "pwritev", "pwritev2":
		f := v.fds[a[0]]
		if f == nil || f.node == nil {
			return false
		}
		var b []byte
		for _, m := range iovBase.FindAllStringSubmatch(e.args, -1) {
			b = append(b, unhex(m[1])...)
		}
		b = b[:atoi(ret[0])]
		off := f.off
		if f.app {
			off = len(f.node.data)
		}
		if m := iovOff.FindStringSubmatch(e.args); e.name != "writev" && m != nil {
			off = atoi(m[1])
		} else {
			f.off = off + len(b)
		}
		f.node.write(off, b)
		if f.sync {
			f.node.sync()
		}
		return true
	case "lseek":
		if f := v.fds[a[0]]; f != nil {
			f.off = atoi(ret[0])
		}
	case "copy_file_range":
		// Both ends have to be known, and the offsets those of the files.
		in, out := v.fds[a[0]], v.fds[a[2]]
		if out == nil || out.node == nil {
			if in != nil {
				in.off += atoi(ret[0])
			}
			return false
		}
		if in == nil || in.node == nil || a[1] != "NULL" || a[3] != "NULL" {
			panic("harness: the store copies from outside, which is not modelled")
		}
		n := atoi(ret[0])
		out.node.write(out.off, in.node.data[in.off:in.off+n])
		in.off, out.off = in.off+n, out.off+n
		return n > 0
	case "read":
		if f := v.fds[a[0]]; f != nil {
			f.off += atoi(ret[0])
		}
	case "fallocate":
		if f := v.fds[a[0]]; f != nil && f.node != nil {
			if a[1] != "0" {
				panic("harness: the store uses fallocate with a mode, which is not modelled")
			}
			for n := atoi(a[2]) + atoi(a[3]); len(f.node.data) < n; {
				f.node.data = append(f.node.data[:len(f.node.data):len(f.node.data)], make([]byte, n-len(f.node.data))...)
				f.node.clean = false
			}
			return true
		}
	case "truncate":
		if n, ok := v.name("", a[0]); ok && v.names[n] != nil {
			node, size := v.names[n], atoi(a[1])
			d := append([]byte(nil), node.data[:min(size, len(node.data))]...)
			node.data, node.clean = append(d, make([]byte, size-len(d))...), false
			return true
		}
	case "sendfile", "splice":
		for _, x := range a {
			if f := v.fds[x]; f != nil && f.node != nil {
				panic("harness: the store uses " + e.name + ", which is not modelled")
			}
		}
	case "ftruncate":
		if f := v.fds[a[0]]; f != nil && f.node != nil {
			n := atoi(a[1])
			d := append([]byte(nil), f.node.data[:min(n, len(f.node.data))]...)
			f.node.data, f.node.clean = append(d, make([]byte, n-len(d))...), false
			return true
		}
	case "fsync", "fdatasync":
		f := v.fds[a[0]]
		if f == nil {
			return false
		}
		if f.isd {
			v.syncDir()
		} else {
			f.node.sync()
		}
		return true
	case "sync", "syncfs":
		for _, n := range v.names {
			n.sync()
		}
		v.syncDir()
		return true
	case "rename", "renameat", "renameat2", "link", "linkat":
		from, to := 0, 1
		at, at2 := "", ""
		if strings.HasSuffix(e.name, "at") || e.name == "renameat2" {
			from, to, at, at2 = 1, 3, a[0], a[2]
		}
		x, ok1 := v.name(at, a[from])
		y, ok2 := v.name(at2, a[to])
		if !ok1 && !ok2 {
			return false
		}
		if !ok1 || !ok2 {
			panic("harness: a file moves in or out of the store's directory, which is not modelled")
		}
		o := vop{add: y, node: v.names[x], del: x}
		if strings.HasPrefix(e.name, "link") || x == y {
			o.del = ""
		}
		v.do(o)
		return true
	case "unlink", "unlinkat":
		at, i := "", 0
		if e.name == "unlinkat" {
			at, i = a[0], 1
		}
		if n, ok := v.name(at, a[i]); ok {
			v.do(vop{del: n})
			return true
		}
	}
	return false
}

// crashStates lists directories that a power loss may leave right now; the
// first is what a mere kill leaves.
func (v *vfs) crashStates(r *rand.Rand, random int) []map[string][]byte {
	var out []map[string][]byte
	flat := func(names map[string]*vnode, content func(n *vnode) []byte) {
		m := map[string][]byte{}
		for k, n := range names {
			m[k] = content(n)
		}
		out = append(out, m)
	}
	cached := func(n *vnode) []byte { return n.data }
	synced := func(n *vnode) []byte { return n.synced }
	zeros := func(n *vnode) []byte {
		if n.clean {
			return n.synced
		}
		return make([]byte, len(n.data))
	}
	half := func(n *vnode) []byte {
		if n.clean {
			return n.synced
		}
		return n.data[:len(n.data)/2]
	}
	flat(v.names, cached)
	flat(v.names, synced)
	flat(v.names, zeros)
	flat(v.names, half)
	flat(v.disk, synced)
	flat(v.disk, cached)
	for i := 0; i < random; i++ {
		names := map[string]*vnode{}
		for k, n := range v.disk {
			names[k] = n
		}
		cut := r.Intn(len(v.pending) + 1)
		for j, o := range v.pending {
			if i%2 == 0 && j >= cut || i%2 == 1 && r.Intn(2) == 0 {
				continue
			}
			v.apply(names, o)
		}
		flat(names, func(n *vnode) []byte {
			return pick(r, cached, synced, zeros, half)(n)
		})
	}
	return out
}

const straceSet = "read,open,openat,creat,write,pwrite64,writev,pwritev,pwritev2,sendfile,copy_file_range,splice,fallocate,lseek,truncate,ftruncate,fsync,fdatasync,sync,syncfs,rename,renameat,renameat2,link,linkat,unlink,unlinkat,close,dup,dup2,dup3"

// powerCase: record the system calls of a storing process, then lose power
// after each of them in a model of the file system, and re-open what is left.
func powerCase(c *C) {
	r := c.Rng
	G := pick(r, 1, 1, 2, 3)
	ops, keys := genStores(r, G, 2+r.Intn(5))
	compress := chance(r, .4)
	var work string
	var v *vfs
	var h *storeHist
	var events []sysEvent
	for try := 0; ; try++ {
		w, dir, done := c.workDir()
		defer done()
		h = &storeHist{calls: map[uint64][]*storeCall{}}
		c.prepare(dir, compress, keys, h)
		slog := filepath.Join(w, "strace")
		cmd, _ := c.child(w, childCfg{Mode: "store", Dir: dir, Compress: compress, Ops: ops},
			"strace", "-f", "-qq", "-xx", "--seccomp-bpf", "-s", "1000000", "-e", "trace="+straceSet, "-o", slog)
		v = newVfs(dir)
		if err := cmd.Run(); err != nil {
			panic(fmt.Sprintf("storing process: %v\n%s", err, cmd.Stdout))
		}
		events = parseStrace(slog)
		// The model has to agree with the real directory.  The calls of several
		// threads can overlap, so that the trace does not tell their order;
		// such a trace is of no use.
		m := newVfsOf(v)
		for _, e := range events {
			m.step(e)
		}
		diff := m.differs()
		if diff == "" {
			work = w
			break
		}
		c.Count("ambiguous traces", 1)
		if try == 9 {
			panic("harness: the model of the file system is wrong: " + diff)
		}
	}
	crash := filepath.Join(work, "crash")
	seen := map[uint64]bool{}
	ran := false
	points := 0
	for i, e := range events {
		changed := false
		if a := straceArgs(e.args); e.name == "write" && a[0] == "3" {
			for _, l := range strings.Split(strings.TrimSpace(string(unhex(a[1]))), "\n") {
				var k uint64
				var id, f int
				switch l[0] {
				case 'R':
					ran = true
				case 'B':
					fmt.Sscanf(l, "B %d %d", &k, &id)
					h.begin(k, id)
				case 'E':
					fmt.Sscanf(l, "E %d %d %d", &k, &id, &f)
					if f != 0 {
						c.Violate("store-error", "Store of key %d failed", k)
						return
					}
					h.end(k, id, false)
					changed = true
				}
			}
		} else {
			changed = v.step(e)
		}
		if !ran || !changed {
			continue
		}
		points++
		for si, m := range v.crashStates(r, 4) {
			// Skip what was judged before under the same knowledge.
			sig := fnv.New64a()
			var names []string
			for n := range m {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				fmt.Fprintf(sig, "%q %x;", n, m[n])
			}
			fmt.Fprint(sig, h.seq)
			if seen[sig.Sum64()] {
				continue
			}
			seen[sig.Sum64()] = true
			os.RemoveAll(crash)
			os.Mkdir(crash, 0o755)
			for n, b := range m {
				if err := os.WriteFile(filepath.Join(crash, n), b, 0o600); err != nil {
					panic(err)
				}
			}
			c.Count("crash states re-opened", 1)
			kind := "power lost"
			if si == 0 {
				kind = "killed"
			}
			if !c.judgeDir(crash, compress, h, keys, fmt.Sprintf("%s after system call %d of %d, %s(%s) = %s", kind, i, len(events), e.name, shortArgs(e.args), e.ret)) {
				for _, x := range events[max(0, i-25) : i+1] {
					c.Logf("%s %s(%s) = %s", x.pid, x.name, shortArgs(x.args), x.ret)
				}
				return
			}
		}
	}
	if !ran || points == 0 {
		panic("harness: nothing traced")
	}
	c.Count("crash points", points)
	c.Max("system calls in a trace", len(events))
	c.Sig(points, len(seen), fmt.Sprint(ops), compress)
	if c.N < 8 {
		c.Sample(map[string]any{"goroutines": G, "keys": keys, "compressed": compress, "crash points": points, "distinct crash states": len(seen)})
	}
}

func shortArgs(s string) string {
	var out []string
	for _, a := range straceArgs(s) {
		if strings.HasPrefix(a, `"`) {
			b := unhex(a)
			if len(b) > 60 {
				b = b[:60]
			}
			a = fmt.Sprintf("%q", b)
		}
		out = append(out, a)
	}
	return strings.Join(out, ", ")
}

// readMarks follows the marks of a storing process.
func readMarks(p string, h *storeHist) (lines []string) {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	for _, l := range strings.SplitAfter(string(b), "\n") {
		if !strings.HasSuffix(l, "\n") {
			continue
		}
		l = strings.TrimSpace(l)
		lines = append(lines, l)
		var k uint64
		var id, f int
		switch {
		case strings.HasPrefix(l, "B"):
			fmt.Sscanf(l, "B %d %d", &k, &id)
			h.begin(k, id)
		case strings.HasPrefix(l, "E"):
			fmt.Sscanf(l, "E %d %d %d", &k, &id, &f)
			h.end(k, id, f != 0)
		}
	}
	return
}

// killCase: really kill the storing process, at a system call or at any time.
func killCase(c *C) {
	r := c.Rng
	work, dir, done := c.workDir()
	defer done()
	h := &storeHist{calls: map[uint64][]*storeCall{}}
	ops, keys := genStores(r, 1+r.Intn(3), 40)
	compress := chance(r, .4)
	c.prepare(dir, compress, keys, h)
	cfg := childCfg{Mode: "store", Dir: dir, Compress: compress, Ops: ops, Pace: 400}
	how := ""
	var marks string
	if chance(r, .5) {
		sc := pick(r, "write", "fsync", "renameat", "close", "openat", "newfstatat,fstat")
		n := 1 + r.Intn(40) // of one thread; without --seccomp-bpf, which loses injected signals
		how = fmt.Sprintf("killed at %s call %d", sc, n)
		var cmd *exec.Cmd
		cmd, marks = c.child(work, cfg, "strace", "-f", "-qq", "-e", "trace="+sc, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", sc, n), "-o", "/dev/null")
		cmd.Run()
	} else {
		var cmd *exec.Cmd
		cmd, marks = c.child(work, cfg)
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		want := r.Intn(30 * len(ops))
		spin := time.Duration(r.Intn(1500)) * time.Microsecond
		how = fmt.Sprintf("killed %v after %d stores", spin, want)
		for i := 0; i < 100000; i++ {
			b, _ := os.ReadFile(marks)
			if bytes.Count(b, []byte("\nE ")) >= want || bytes.Contains(b, []byte("\nC\n")) {
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		time.Sleep(spin)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		cmd.Wait()
	}
	lines := readMarks(marks, h)
	if len(lines) > 0 && lines[len(lines)-1] == "C" {
		c.Count("killed too late", 1)
	} else {
		c.Count("processes killed", 1)
	}
	for _, l := range lines {
		c.Logf("%s", l)
	}
	c.judgeDir(dir, compress, h, keys, how)
	unfinished := 0
	for _, ss := range h.calls {
		for _, s := range ss {
			if s.end == 0 {
				unfinished++
			}
		}
	}
	if unfinished > 0 {
		c.Count("killed within a Store", 1)
	}
	c.Sig(how, len(lines), lsDir(dir))
}

// faultCase: the file system fails calls; Store has to say so and keep the
// store whole.
func faultCase(c *C) {
	r := c.Rng
	work, dir, done := c.workDir()
	defer done()
	h := &storeHist{calls: map[uint64][]*storeCall{}}
	ops, keys := genStores(r, 1, 12)
	compress := chance(r, .3)
	c.prepare(dir, compress, keys, h)
	cfg := childCfg{Mode: "store", Dir: dir, Compress: compress, Ops: ops, Loads: true}
	slog := filepath.Join(work, "strace")
	kind := pick(r, "fsync", "fsync", "rename", "size", "size", "open")
	pre := []string{"strace", "-f", "-qq", "-xx", "--seccomp-bpf", "-s", "8000", "-e", "trace=" + straceSet + ",ftruncate,fstat,newfstatat", "-o", slog}
	switch kind {
	case "open":
		for i := range ops[0] {
			ops[0][i].NoFD = chance(r, .3)
		}
	case "size":
		cfg.FSize = int64(pick(r, 100, 1000, 1600))
	case "fsync":
		pre = append(pre, "-e", fmt.Sprintf("inject=fsync,fdatasync:error=%s:when=%d+%d", pick(r, "EIO", "ENOSPC", "EDQUOT"), 1+r.Intn(8), 2+r.Intn(8)))
	case "rename":
		pre = append(pre, "-e", fmt.Sprintf("inject=rename,renameat,renameat2:error=%s:when=%d+%d", pick(r, "EIO", "ENOSPC", "EACCES"), 1+r.Intn(4), 1+r.Intn(5)))
	}
	cmd, marks := c.child(work, cfg, pre...)
	if kind == "size" {
		// The marks are a file too: send them through a pipe.
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		cmd.ExtraFiles[0].Close()
		cmd.ExtraFiles = []*os.File{pw}
		fin := make(chan struct{})
		go func() {
			defer close(fin)
			var b bytes.Buffer
			b.ReadFrom(pr)
			os.WriteFile(marks, b.Bytes(), 0o644)
		}()
		defer pr.Close()
		err = cmd.Run()
		pw.Close()
		<-fin
		if err != nil {
			panic(fmt.Sprintf("storing process: %v\n%s", err, cmd.Stdout))
		}
	} else if err := cmd.Run(); err != nil {
		panic(fmt.Sprintf("storing process: %v\n%s", err, cmd.Stdout))
	}

	// Which Store calls had a failing system call?
	// One that failed to write, sync or rename has to fail; another may.
	failed, may := map[int]string{}, map[int]bool{}
	cur := 0
	for _, e := range parseStrace(slog) {
		a := straceArgs(e.args)
		if e.name == "write" && a[0] == "3" {
			var k uint64
			var id int
			l := string(unhex(a[1]))
			if n, _ := fmt.Sscanf(l, "B %d %d", &k, &id); n == 2 {
				cur = id
			} else if strings.HasPrefix(l, "E") {
				cur = 0
			}
			continue
		}
		bad := strings.HasPrefix(e.ret, "-1") && !strings.Contains(e.ret, "EAGAIN") && !strings.Contains(e.ret, "EINTR")
		if bad && cur != 0 {
			may[cur] = true
			if mustReport.MatchString(e.name) {
				failed[cur] = e.name + " = " + e.ret
			}
		}
	}
	lines := readMarks(marks, &storeHist{calls: map[uint64][]*storeCall{}})
	var last uint64
	lastID, lastFailed := 0, false
	for _, l := range lines {
		c.Logf("%s", l)
		var k uint64
		var id, f int
		switch {
		case strings.HasPrefix(l, "F"):
			c.Violate("open", "opening failed: %s", l)
			return
		case strings.HasPrefix(l, "B"):
			fmt.Sscanf(l, "B %d %d", &k, &id)
			h.begin(k, id)
		case strings.HasPrefix(l, "E"):
			fmt.Sscanf(l, "E %d %d %d", &k, &id, &f)
			h.end(k, id, f != 0)
			last, lastID, lastFailed = k, id, f != 0
			if x := failed[id]; x != "" && f == 0 {
				c.Violate("fault-hidden", "%s failed during Store %d of key %d, which returned no error", x, id, k)
			} else if !may[id] && f != 0 {
				c.Violate("store-error", "Store %d of key %d failed, but no system call of it did", id, k)
			}
			if f != 0 {
				c.Count("stores that the file system failed", 1)
			} else {
				c.Count("stores that went well", 1)
			}
		case strings.HasPrefix(l, "L"):
			p := strings.SplitN(l, " ", 4)
			k, _ = strconv.ParseUint(p[1], 10, 64)
			if k != last {
				panic("harness: marks out of order")
			}
			ids, none := h.allowed(k)
			switch p[2] {
			case "error":
				c.Violate("load-error", "after Store %d of key %d (failed: %v) loading it failed: %s", lastID, k, lastFailed, p[3])
			case "bad":
				c.Violate("mangled", "after Store %d of key %d (failed: %v): %s", lastID, k, lastFailed, p[3])
			case "none":
				if !none {
					c.Violate("lost", "after Store %d of key %d (failed: %v) it is gone, it may be %v", lastID, k, lastFailed, ids)
				}
			case "value":
				if !ids[atoi(p[3])] {
					c.Violate("old", "after Store %d of key %d (failed: %v) it has value %s, it may be %v", lastID, k, lastFailed, p[3], ids)
				}
			}
		}
	}
	if len(lines) == 0 || lines[len(lines)-1] != "C" {
		panic(fmt.Sprintf("harness: the storing process did not finish: %v\n%s", lines, cmd.Stdout))
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		k, err := strconv.ParseUint(e.Name(), 10, 64)
		ok := false
		for _, x := range keys {
			ok = ok || err == nil && x == k
		}
		if !ok {
			c.Violate("leftover", "after failed Store calls the file %s is left behind", e.Name())
		}
	}
	c.judgeDir(dir, compress, h, keys, "re-opened after file system errors")
	c.Sig(kind, len(failed), fmt.Sprint(ops), cfg.FSize)
}

func TestC24(t *testing.T) {
	Run(t, "C24", W{"power", 64, 1600, powerCase}, W{"kill", 120, 4000, killCase}, W{"faults", 64, 1600, faultCase})
}
