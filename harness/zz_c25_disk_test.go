package zzverif

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/golang/snappy"
	"github.com/yields/ant/antcache"
)

// ---- C25: concurrent histories -------------------------------------------------------

type histCfg struct {
	Seed     int64
	Keys     []uint64
	G, N     int
	Compress bool
	Sweep    int // microseconds, 0 none
	Maxage   time.Duration
	Maxsize  int64
	Warm     bool // Wait before the first operation
	Sizes    []int
	Pause    int  // up to so many microseconds between operations
	AnyEvict bool // every value may be evicted at any time
}

func (h *histCfg) options() []antcache.DiskOption {
	o := []antcache.DiskOption{antcache.Maxage(h.Maxage), antcache.Maxsize(h.Maxsize), antcache.SweepEvery(time.Duration(h.Sweep) * time.Microsecond)}
	if h.Compress {
		o = append(o, antcache.Compress())
	}
	return o
}

type histOp struct {
	G         int
	Key       uint64
	Kind      string // S, L
	ID        int    // 0 for none
	Err       string
	Call, Ret int64
}

type history struct {
	Ops      []histOp
	Warm     int64 // when Wait had returned
	Problems []string
	Left     []string // names in the directory after Close
}

// runHist runs concurrent operations on a disk store and records them.
func runHist(dir string, cfg *histCfg) *history {
	h := &history{}
	var clock atomic.Int64
	var mu sync.Mutex
	add := func(o histOp) { mu.Lock(); h.Ops = append(h.Ops, o); mu.Unlock() }
	problem := func(f string, a ...any) {
		mu.Lock()
		h.Problems = append(h.Problems, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	ctx := context.Background()
	load := func(d *antcache.Diskstore, g int, k uint64) {
		o := histOp{G: g, Key: k, Kind: "L", Call: clock.Add(1)}
		v, err := d.Load(ctx, k)
		o.Ret = clock.Add(1)
		switch {
		case err != nil:
			o.Err = err.Error()
		case v != nil:
			id, err := parseDiskValue(k, v)
			if err != nil {
				o.Err = "mangled: " + err.Error()
			}
			o.ID = id
		}
		add(o)
	}
	d, err := antcache.Open(dir, cfg.options()...)
	if err != nil {
		problem("Open failed: %v", err)
		return h
	}
	wait := func() {
		if err := d.Wait(ctx); err != nil {
			problem("Wait failed: %v", err)
		}
		h.Warm = clock.Add(1)
	}
	if cfg.Warm {
		wait()
	}
	var ids atomic.Int64
	ids.Store(100)
	var wg sync.WaitGroup
	for g := 0; g < cfg.G; g++ {
		r := rand.New(rand.NewSource(cfg.Seed + int64(g)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < cfg.N; i++ {
				k := pick(r, cfg.Keys...)
				if r.Intn(2) == 0 {
					load(d, g, k)
				} else {
					id := int(ids.Add(1))
					v := diskValue(k, id, pick(r, cfg.Sizes...))
					keep := append([]byte(nil), v...)
					o := histOp{G: g, Key: k, Kind: "S", ID: id, Call: clock.Add(1)}
					if err := d.Store(ctx, k, v); err != nil {
						o.Err = err.Error()
					}
					o.Ret = clock.Add(1)
					if !bytes.Equal(keep, v) {
						problem("Store changed the caller's bytes")
					}
					for j := range v {
						v[j] = 'x' // the caller's again
					}
					add(o)
				}
				if cfg.Pause > 0 {
					time.Sleep(time.Duration(r.Intn(cfg.Pause)) * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	if !cfg.Warm {
		wait()
	}
	for _, k := range cfg.Keys {
		load(d, 90, k)
	}
	if cfg.Sweep > 0 {
		time.Sleep(time.Duration(cfg.Sweep)*time.Microsecond + time.Millisecond)
	}
	for _, k := range cfg.Keys {
		load(d, 91, k)
	}
	if err := d.Close(); err != nil {
		problem("Close failed: %v", err)
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		h.Left = append(h.Left, e.Name())
	}
	d, err = antcache.Open(dir, cfg.options()...)
	if err != nil {
		problem("re-opening failed: %v", err)
		return h
	}
	if err := d.Wait(ctx); err != nil {
		problem("Wait failed: %v", err)
	}
	for _, k := range cfg.Keys {
		load(d, 92, k)
	}
	if err := d.Close(); err != nil {
		problem("Close failed: %v", err)
	}
	return h
}

// judgeHist checks every key's history against an atomic register whose first
// value appears during the initial scan and may be evicted at any time.
func (c *C) judgeHist(h *history, initial map[uint64]int, evictable, all bool, what string) {
	bad := func(key, f string, a ...any) { c.Violate(key, "%s: %s", what, fmt.Sprintf(f, a...)) }
	for _, p := range h.Problems {
		bad("problem", "%s", p)
	}
	for _, n := range h.Left {
		if _, err := strconv.ParseUint(n, 10, 64); err != nil {
			bad("leftover", "the file %s is left behind", n)
		}
	}
	per := map[uint64][]porcupine.Operation{}
	last := int64(0)
	texts := map[uint64][]histOp{}
	for _, o := range h.Ops {
		texts[o.Key] = append(texts[o.Key], o)
	}
	for _, o := range h.Ops {
		last = max(last, o.Ret)
		if o.Err != "" {
			key := "error"
			if strings.HasPrefix(o.Err, "mangled") {
				key = "mangled"
			}
			bad(key, "%s of key %d: %s\n%s", map[string]string{"S": "Store", "L": "Load"}[o.Kind], o.Key, o.Err, histText(texts[o.Key]))
			return
		}
		per[o.Key] = append(per[o.Key], porcupine.Operation{ClientId: o.G, Input: o, Output: o.ID, Call: o.Call, Return: o.Ret})
	}
	if all {
		c.judgeEvicting(h, initial, bad, texts)
		return
	}
	type special string
	for k, id := range initial {
		per[k] = append(per[k], porcupine.Operation{ClientId: 95, Input: special("warm"), Output: id, Call: 0, Return: max(h.Warm, 1)})
		if evictable {
			per[k] = append(per[k], porcupine.Operation{ClientId: 96, Input: special("evict"), Output: id, Call: 0, Return: last + 1})
		}
	}
	model := porcupine.Model{
		Init: func() any { return 0 },
		Step: func(state, in, out any) (bool, any) {
			s := state.(int)
			switch in := in.(type) {
			case special:
				if in == "warm" && s == 0 {
					return true, out
				}
				if in == "evict" && s == out.(int) {
					return true, 0
				}
				return true, s
			case histOp:
				if in.Kind == "S" {
					return true, in.ID
				}
				return s == out.(int), s
			}
			panic("harness: model")
		},
	}
	for k, ops := range per {
		if !porcupine.CheckOperations(model, ops) {
			extra := ""
			if id := initial[k]; id != 0 {
				extra = fmt.Sprintf(" (value %d was there at first, the scan was over at %d, may be evicted: %v)", id, h.Warm, evictable)
			}
			bad("not-atomic", "the history of key %d is not one of an atomic map%s\n%s", k, extra, histText(texts[k]))
		}
		c.Count("key histories checked", 1)
	}
	c.Count("operations", len(h.Ops))
	hits := 0
	over := 0
	for _, o := range h.Ops {
		if o.Kind == "L" && o.ID != 0 {
			hits++
		}
		if o.Ret-o.Call > 1 {
			over++
		}
	}
	c.Count("loads of values", hits)
	c.Count("overlapping operations", over)
}

// judgeEvicting checks histories in which every value may vanish at any time:
// what is loaded was stored by then, and not replaced or seen to be gone before.
func (c *C) judgeEvicting(h *history, initial map[uint64]int, bad func(key, f string, a ...any), texts map[uint64][]histOp) {
	type span struct{ call, ret int64 }
	hits := 0
	for k, ops := range texts {
		stored := map[int]span{}
		if id := initial[k]; id != 0 {
			stored[id] = span{0, 0}
		}
		for _, o := range ops {
			if o.Kind == "S" {
				stored[o.ID] = span{o.Call, o.Ret}
			}
		}
		for _, o := range ops {
			if o.Kind != "L" || o.ID == 0 {
				continue
			}
			hits++
			w, ok := stored[o.ID]
			if !ok || w.call > o.Ret {
				bad("not-stored", "Load of key %d returned %d, which was not stored by then\n%s", k, o.ID, histText(ops))
				return
			}
			for _, x := range ops {
				if x.Kind == "S" && x.ID != o.ID && x.Call > w.ret && x.Ret < o.Call {
					bad("stale", "Load of key %d returned %d, which %d had replaced\n%s", k, o.ID, x.ID, histText(ops))
					return
				}
				// Once gone it stays gone, unless the scan was still to find it.
				if x.Kind == "L" && x.ID == 0 && x.Call > w.ret && x.Ret < o.Call && (o.ID != initial[k] || x.Call > h.Warm) {
					bad("back", "Load of key %d returned %d, which was gone before\n%s", k, o.ID, histText(ops))
					return
				}
			}
		}
		c.Count("key histories checked", 1)
	}
	c.Count("operations", len(h.Ops))
	c.Count("loads of values that may be evicted", hits)
}

func histText(ops []histOp) string {
	ops = append([]histOp(nil), ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, "  %d-%d goroutine %d: %s %d %s\n", o.Call, o.Ret, o.G, map[string]string{"S": "Store", "L": "Load"}[o.Kind], o.ID, o.Err)
	}
	return b.String()
}

// putFile writes an entry as a store would have, with a modification time.
func putFile(dir string, key uint64, v []byte, compress bool, mtime time.Time) {
	if compress {
		v = snappy.Encode(nil, v)
	}
	p := filepath.Join(dir, strconv.FormatUint(key, 10))
	if err := os.WriteFile(p, v, 0o600); err != nil {
		panic(err)
	}
	if !mtime.IsZero() {
		if err := os.Chtimes(p, mtime, mtime); err != nil {
			panic(err)
		}
	}
}

// genHist prepares a directory and a configuration under which only the
// initial values may ever be evicted.
func (c *C) genHist(dir string) (cfg *histCfg, initial map[uint64]int, evictable bool, what string) {
	r := c.Rng
	cfg = &histCfg{Seed: r.Int63(), G: 2 + r.Intn(5), N: 6 + r.Intn(14), Compress: chance(r, .3), Warm: chance(r, .5), Sizes: []int{0, 40, 500, 6000}}
	cfg.Keys = []uint64{1, 2, 3, 18446744073709551615}[:1+r.Intn(4)]
	cfg.Sweep = pick(r, 0, 1, 20, 100, 300, 1000, 1000000)
	if chance(r, .4) {
		cfg.Pause = pick(r, 10, 100, 400)
	}
	initial = map[uint64]int{}
	fill := pick(r, 0, 0, 10, 60, 250)
	old := time.Time{}
	maxLen := int64(0)
	for _, s := range cfg.Sizes {
		for _, k := range cfg.Keys {
			maxLen = max(maxLen, int64(snappy.MaxEncodedLen(len(diskValue(k, 99999, s)))))
		}
	}
	kind := pick(r, "none", "generous", "expired", "expired", "size", "size", "all", "all")
	switch kind {
	case "generous":
		cfg.Maxage, cfg.Maxsize = time.Hour, 1<<30
	case "expired":
		cfg.Maxage = time.Hour
		cfg.Maxsize = pick[int64](r, 0, 1<<30)
		old = time.Now().Add(-2 * time.Hour)
		evictable = true
	case "size":
		// The newest values fit, the others do not.
		cfg.Maxsize = int64(len(cfg.Keys)) * maxLen
		cfg.Maxage = pick(r, 0, time.Hour)
		old = time.Now().Add(-20 * time.Minute)
		evictable = true
	case "all":
		cfg.AnyEvict = true
		switch r.Intn(3) {
		case 0:
			cfg.Maxage = time.Nanosecond
		case 1:
			cfg.Maxsize = 1
		case 2:
			cfg.Maxsize = pick(r, maxLen, 2*maxLen)
		}
		cfg.Sweep = pick(r, 1, 5, 20, 100)
	}
	for i := 0; i < fill; i++ {
		t := old
		if !t.IsZero() {
			t = t.Add(-time.Duration(i) * time.Second)
		}
		putFile(dir, uint64(1000+i), diskValue(uint64(1000+i), 1, 4000), cfg.Compress, t)
	}
	for _, k := range cfg.Keys {
		if chance(r, .6) {
			initial[k] = 1
			putFile(dir, k, diskValue(k, 1, pick(r, cfg.Sizes...)), cfg.Compress, old)
		}
	}
	if kind == "none" {
		cfg.Maxage, cfg.Maxsize = 0, 0
	}
	what = fmt.Sprintf("%s, %d other files, maxage %v, maxsize %d, sweep every %dus, compress %v, first waits %v", kind, fill, cfg.Maxage, cfg.Maxsize, cfg.Sweep, cfg.Compress, cfg.Warm)
	return
}

// shmDir makes the directory of a store in memory, where system calls are fast.
func (c *C) storeDir() (dir string, done func()) {
	if chance(c.Rng, .5) {
		if d, err := os.MkdirTemp("/dev/shm", "verif-"); err == nil {
			return d, func() { os.RemoveAll(d) }
		}
	}
	_, dir, done = c.workDir()
	return
}

// registerCase: concurrent operations on the real file system.
func registerCase(c *C) {
	dir, done := c.storeDir()
	defer done()
	cfg, initial, evictable, what := c.genHist(dir)
	h := runHist(dir, cfg)
	c.judgeHist(h, initial, evictable, cfg.AnyEvict, what)
	c.Sig(histSig(h))
	if c.N < 10 {
		c.Sample(map[string]any{"what": what, "operations": len(h.Ops)})
	}
}

func histSig(h *history) string {
	ops := append([]histOp(nil), h.Ops...)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprint(&b, o.Kind, o.Key%100, o.G, o.ID, o.Ret-o.Call, ";")
	}
	return b.String()
}

// sysDelayCase: the same in a process whose system calls are delayed, so that the
// windows between them are wide.
func sysDelayCase(c *C) {
	r := c.Rng
	work, dir, done := c.workDir()
	defer done()
	cfg, initial, evictable, what := c.genHist(dir)
	cfg.Pause = pick(r, 0, 500, 3000)
	cfg.N = min(cfg.N, 12)
	pre := []string{"strace", "-f", "-qq", "--seccomp-bpf", "-o", "/dev/null"}
	set := map[string]bool{}
	var inj []string
	for i := 0; i < 1+r.Intn(3); i++ {
		sc := pick(r, "renameat,renameat2,rename", "renameat,renameat2,rename", "unlinkat,unlink", "unlinkat,unlink", "getdents64", "newfstatat,statx", "fsync", "fstat", "openat", "read")
		if set[sc] {
			continue
		}
		set[sc] = true
		w := pick(r, "delay_exit", "delay_exit", "delay_enter")
		us := pick(r, 200, 1000, 4000)
		if sc == "openat" || sc == "read" || strings.HasPrefix(sc, "newfstatat") {
			us = pick(r, 100, 300)
		}
		inj = append(inj, fmt.Sprintf("inject=%s:%s=%d:when=%d+%d", sc, w, us, 1+r.Intn(3), pick(r, 1, 1, 2, 3)))
	}
	var names []string
	for s := range set {
		names = append(names, s)
	}
	pre = append(pre, "-e", "trace="+strings.Join(names, ","))
	for _, s := range inj {
		pre = append(pre, "-e", s)
	}
	cmd, marks := c.child(work, childCfg{Mode: "hist", Dir: dir, Hist: cfg}, pre...)
	if err := cmd.Run(); err != nil {
		out := fmt.Sprint(cmd.Stdout)
		if crashed := strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: "); crashed && inRepo(out) {
			c.Violate("panic", "the process crashed:\n%s", out)
			return
		}
		panic(fmt.Sprintf("harness: the delayed process: %v\n%s", err, out))
	}
	b, err := os.ReadFile(marks)
	if err != nil {
		panic(err)
	}
	var h history
	if err := json.Unmarshal(b, &h); err != nil {
		panic(err)
	}
	c.judgeHist(&h, initial, evictable, cfg.AnyEvict, what+", "+strings.Join(inj, " "))
	c.Count("histories with delayed system calls", 1)
	c.Sig(histSig(&h))
}

// bytesCase: whatever bytes are stored are loaded.
func bytesCase(c *C) {
	r := c.Rng
	dir, done := c.storeDir()
	defer done()
	var opts []antcache.DiskOption
	if chance(r, .5) {
		opts = append(opts, antcache.Compress())
	}
	ctx := context.Background()
	want := map[uint64][]byte{}
	var d *antcache.Diskstore
	open := func() {
		var err error
		if d, err = antcache.Open(dir, opts...); err != nil {
			panic(err)
		}
		if err := d.Wait(ctx); err != nil {
			c.Violate("wait", "Wait failed: %v", err)
		}
	}
	check := func(k uint64, when string) {
		v, err := d.Load(ctx, k)
		w, ok := want[k]
		if err != nil {
			c.Violate("error", "%s: loading key %d: %v", when, k, err)
		} else if (v != nil) != ok || !bytes.Equal(v, w) {
			c.Violate("bytes", "%s: key %d loads as %s (nil: %v), stored was %s (at all: %v), compressed: %v", when, k, abbr(v), v == nil, abbr(w), ok, len(opts) > 0)
		}
		c.Count("loads compared", 1)
		for i := range v {
			v[i] = '!' // the caller's
		}
	}
	open()
	keys := []uint64{0, 1, 10, 1 << 32, 1<<63 - 1, 1 << 63, 18446744073709551615, r.Uint64(), r.Uint64()}
	for i := 0; i < 12; i++ {
		k := pick(r, keys...)
		n := pick(r, 0, 0, 1, 2, 100, 4096, 65536, 300000, 1<<20+1)
		if chance(r, .005) {
			n = 5<<20 + r.Intn(20<<20)
		}
		v := make([]byte, n)
		switch r.Intn(3) {
		case 0:
			r.Read(v)
		case 1:
			copy(v, snappy.Encode(nil, []byte("not the value")))
		}
		if err := d.Store(ctx, k, v); err != nil {
			c.Violate("error", "storing key %d: %v", k, err)
			return
		}
		want[k] = v
		check(k, "just stored")
		if chance(r, .2) {
			if err := d.Close(); err != nil {
				c.Violate("close", "Close failed: %v", err)
			}
			open()
		}
	}
	for _, k := range keys {
		check(k, "in the end")
	}
	d.Close()
	open()
	for _, k := range keys {
		check(k, "re-opened")
	}
	d.Close()
	c.Sig(c.N)
}

func TestC25(t *testing.T) {
	Run(t, "C25", W{"register", 1200, 40000, registerCase}, W{"delays", 160, 4000, sysDelayCase}, W{"bytes", 160, 3000, bytesCase})
}

// ---- C26: sweeping ----------------------------------------------------------------------

type refFile struct {
	key   uint64
	size  int64
	mtime time.Time
	id    int
}

// refSweep is what is left after a sweep at now.
func refSweep(fs map[uint64]*refFile, now time.Time, maxage time.Duration, maxsize int64) (gone []uint64, ambiguous bool) {
	var keep []*refFile
	for _, f := range fs {
		if maxage > 0 && now.Sub(f.mtime) > maxage {
			gone = append(gone, f.key)
		} else {
			keep = append(keep, f)
		}
	}
	if maxsize > 0 {
		sort.Slice(keep, func(i, j int) bool { return keep[i].mtime.Before(keep[j].mtime) })
		var sum int64
		for _, f := range keep {
			sum += f.size
		}
		i := 0
		for ; sum > maxsize; i++ {
			gone = append(gone, keep[i].key)
			sum -= keep[i].size
		}
		ambiguous = i > 0 && i < len(keep) && keep[i-1].mtime.Equal(keep[i].mtime)
	}
	return
}

// sweepCase: sweeps in virtual time over files of every age and size.
func sweepCase(c *C) {
	dir, done := c.storeDir()
	defer done()
	c.Bubble(func() {
		r := c.Rng
		ctx := context.Background()
		fs := map[uint64]*refFile{}
		compress := chance(r, .2)
		put := func(key uint64, size int64, mtime time.Time) {
			p := filepath.Join(dir, strconv.FormatUint(key, 10))
			if size > 1<<20 {
				f, err := os.Create(p)
				if err != nil {
					panic(err)
				}
				f.Truncate(size) // sparse
				f.Close()
			} else {
				v := diskValue(key, 1, int(size))
				if compress {
					v = snappy.Encode(nil, v)
				}
				os.WriteFile(p, v, 0o600)
			}
			os.Chtimes(p, mtime, mtime)
			st, err := os.Stat(p)
			if err != nil {
				panic(err)
			}
			fs[key] = &refFile{key, st.Size(), st.ModTime(), 1}
			if size > 1<<20 {
				fs[key].id = -1
			}
		}
		maxage, maxsize, every := 24*time.Hour, int64(1<<30), 5*time.Minute
		var d *antcache.Diskstore
		var opened time.Time
		open := func() {
			maxage, maxsize, every = 24*time.Hour, int64(1<<30), 5*time.Minute
			var opts []antcache.DiskOption
			if chance(r, .7) {
				maxage = pick(r, 0, -time.Hour, time.Second, time.Minute, time.Hour, 25*time.Hour)
				opts = append(opts, antcache.Maxage(maxage))
			}
			if chance(r, .7) {
				var sum int64
				for _, f := range fs {
					sum += f.size
				}
				maxsize = pick(r, 0, -1, 1, sum, sum-1, sum/2, sum/4, sum+1, 2*sum, 100)
				opts = append(opts, antcache.Maxsize(maxsize))
			}
			if chance(r, .7) {
				every = pick(r, 0, -time.Minute, time.Second, 10*time.Second, time.Hour)
				opts = append(opts, antcache.SweepEvery(every))
			}
			if compress {
				opts = append(opts, antcache.Compress())
			}
			r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
			if chance(r, .15) {
				// Options given before, the last one of a kind counts.
				opts = append([]antcache.DiskOption{
					antcache.Maxage(pick(r, maxage, 0, time.Second)), antcache.Maxsize(pick(r, maxsize, 0, 1)), antcache.SweepEvery(pick(r, every, 0, time.Second)), antcache.SweepEvery(0),
					antcache.Maxage(24 * time.Hour), antcache.Maxsize(1 << 30), antcache.SweepEvery(pick(r, 0, 5*time.Minute)), antcache.SweepEvery(5 * time.Minute),
				}, opts...)
				c.Count("stores opened with options given twice", 1)
			}
			var err error
			if d, err = antcache.Open(dir, opts...); err != nil {
				c.Violate("open", "Open failed: %v", err)
				panic("harness: cannot open")
			}
			opened = time.Now()
			if err := d.Wait(ctx); err != nil {
				c.Violate("wait", "Wait failed: %v", err)
			}
			c.Logf("%v opened: maxage %v, maxsize %d, sweep every %v", time.Since(start2000), maxage, maxsize, every)
		}
		// Files around the limits of the first sweeps.
		n := pick(r, 0, 1, 3, 8, 20)
		sizes := []int64{0, 30, 100, 1000, 5000}
		many := chance(r, .004)
		if many {
			n = pick(r, 300, 1100, 2500)
			c.Count("stores of hundreds of entries", 1)
		}
		if !many && chance(r, .15) {
			sizes = []int64{300 << 20, 500 << 20, 700 << 20, 100}
		}
		seenT := map[int64]bool{}
		for i := 0; i < n; i++ {
			age := pick(r, time.Duration(r.Intn(100))*time.Second, time.Duration(r.Intn(30*3600))*time.Second, time.Second, time.Minute, time.Hour, 24*time.Hour, 25*time.Hour)
			// Exactly, just before or just after expiring at a tick.
			age -= pick(r, 0, time.Second, 10*time.Second, 5*time.Minute, time.Hour)
			t := start2000.Add(-age + time.Duration(pick(r, -1, 0, 1, r.Intn(1000)))*time.Microsecond)
			if many {
				t = start2000.Add(-time.Duration(r.Intn(30*3600*1000)) * time.Millisecond)
			}
			if seenT[t.UnixNano()/1000] {
				continue
			}
			seenT[t.UnixNano()/1000] = true
			put(uint64(i), pick(r, sizes...), t)
		}
		// What the directory holds that is none of the store's is left alone.
		os.WriteFile(filepath.Join(dir, "notes.txt"), make([]byte, 3000), 0o600)
		os.Chtimes(filepath.Join(dir, "notes.txt"), start2000.Add(-1000*time.Hour), start2000.Add(-1000*time.Hour))
		open()
		dead := false
		stuck := uint64(math.MaxUint64) // an entry whose file cannot be removed for now
		judge := func(when string) {
			es, _ := os.ReadDir(dir)
			have := map[string]bool{}
			for _, e := range es {
				have[e.Name()] = true
			}
			if !have["notes.txt"] {
				c.Violate("foreign", "%s: a file that is no entry was removed", when)
			}
			delete(have, "notes.txt")
			for k, f := range fs {
				if k == stuck {
					delete(have, strconv.FormatUint(k, 10))
					continue
				}
				if !have[strconv.FormatUint(k, 10)] {
					c.Violate("removed", "%s: entry %d (%d bytes, age %v) was removed, it should stay\n%s", when, k, f.size, time.Since(f.mtime), refText2(fs))
					dead = true
					return
				}
				delete(have, strconv.FormatUint(k, 10))
				if f.id < 0 {
					continue
				}
				v, err := d.Load(ctx, k)
				if err != nil || v == nil {
					c.Violate("not-loadable", "%s: entry %d should stay, it loads as %s, %v", when, k, abbr(v), err)
					dead = true
					return
				}
				if id, err := parseDiskValue(k, v); err != nil || id != f.id {
					c.Violate("mangled", "%s: entry %d: %v, value %d, want %d", when, k, err, id, f.id)
					dead = true
					return
				}
			}
			for name := range have {
				c.Violate("not-removed", "%s: %s is still on disk\n%s", when, name, refText2(fs))
				dead = true
				return
			}
		}
		next := func() time.Time { // the next sweep
			if every <= 0 {
				return time.Time{}
			}
			return opened.Add((time.Since(opened)/every + 1) * every)
		}
		steps := 2 + r.Intn(6)
		for i := 0; i < steps && !dead; i++ {
			switch q := r.Intn(10); {
			case q < 6:
				t := next()
				if t.IsZero() {
					time.Sleep(pick(r, time.Minute, 3*time.Hour, 48*time.Hour))
					judge("no sweeping")
					c.Count("times without sweeper", 1)
					break
				}
				if w := time.Until(t) - time.Nanosecond; w > 0 {
					time.Sleep(w)
					synctest.Wait()
					judge("just before a sweep")
				}
				if dead {
					break
				}
				// Now and then a directory is in the way of a file that is
				// to go; it goes with a later sweep.
				gone, amb := refSweep(fs, t, maxage, maxsize)
				unblock := func() bool { return true }
				if len(gone) > 0 && chance(r, .1) {
					slices.Sort(gone)
					stuck = pick(r, gone...)
					path := filepath.Join(dir, strconv.FormatUint(stuck, 10))
					os.Rename(path, dir+".aside")
					os.MkdirAll(filepath.Join(path, "sub"), 0o700)
					unblock = func() bool {
						_, err := os.Stat(path)
						os.RemoveAll(path)
						os.Rename(dir+".aside", path)
						return err == nil
					}
					c.Logf("%v %d cannot be removed", time.Since(start2000), stuck)
				}
				time.Sleep(time.Until(t))
				synctest.Wait()
				if amb {
					unblock()
					dead = true
					break
				}
				text := refText2(fs)
				if stuck != math.MaxUint64 {
					k := stuck
					gone = slices.DeleteFunc(gone, func(g uint64) bool { return g == k })
					for _, g := range gone {
						delete(fs, g)
					}
					judge("after a sweep that could not remove " + strconv.FormatUint(k, 10))
					stuck = math.MaxUint64
					if !unblock() {
						dead = true // a sweep that removes whatever is there
						break
					}
					if dead {
						break
					}
					gone2, amb := refSweep(fs, t.Add(every), maxage, maxsize)
					time.Sleep(every)
					synctest.Wait()
					if amb {
						dead = true
						break
					}
					gone = append(gone, gone2...)
					c.Count("removals that failed at first", 1)
				}
				for _, k := range gone {
					c.Logf("%v sweep removes %d", time.Since(start2000), k)
					delete(fs, k)
				}
				judge(fmt.Sprintf("after a sweep (maxage %v, maxsize %d) of\n%s", maxage, maxsize, text))
				for _, k := range gone {
					v, err := d.Load(ctx, k)
					if v != nil || err != nil {
						c.Violate("served", "entry %d was to be removed by the sweep, it loads as %s, %v", k, abbr(v), err)
						dead = true
						break
					}
				}
				c.Count("sweeps", 1)
				c.Count("entries removed", len(gone))
				c.Count("entries kept", len(fs))
			case q < 9:
				k := uint64(r.Intn(12))
				id := 100 + i
				size := pick(r, 0, 30, 100, 1000, 5000)
				v := diskValue(k, id, size)
				f, stored := fs[k]
				if stored && f.id >= 0 && chance(r, .3) {
					// The same value again, it is new nevertheless.
					if w, err := d.Load(ctx, k); err == nil && w != nil {
						v, id = w, f.id
						c.Count("values stored again", 1)
					}
				}
				// The files' times are those of the kernel, not of the bubble.
				probe := dir + ".probe"
				os.WriteFile(probe, nil, 0o600)
				var before time.Time
				if st, err := os.Stat(probe); err == nil {
					before = st.ModTime()
				}
				os.Remove(probe)
				if err := d.Store(ctx, k, v); err != nil {
					c.Violate("store", "Store failed: %v", err)
					dead = true
					break
				}
				st, err := os.Stat(filepath.Join(dir, strconv.FormatUint(k, 10)))
				if err != nil {
					c.Violate("store", "a stored entry is not in the directory: %v", err)
					dead = true
					break
				}
				if st.ModTime().Before(before) {
					c.Violate("old", "%d was stored, its file is still as old as before (%v)", k, st.ModTime().UTC())
				}
				fs[k] = &refFile{k, st.Size(), st.ModTime(), id}
				c.Logf("%v stored %d (%d bytes)", time.Since(start2000), k, size)
			default:
				if err := d.Close(); err != nil {
					c.Violate("close", "Close failed: %v", err)
				}
				open()
			}
		}
		c.Sig(maxage, maxsize, every, refText2(fs), len(fs), c.N)
		if err := d.Close(); err != nil {
			c.Violate("close", "Close failed: %v", err)
		}
	})
}

func refText2(fs map[uint64]*refFile) string {
	var l []*refFile
	for _, f := range fs {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].mtime.Before(l[j].mtime) })
	var b strings.Builder
	for _, f := range l {
		fmt.Fprintf(&b, "  entry %d: %d bytes, %v\n", f.key, f.size, f.mtime.UTC())
	}
	return b.String()
}

func TestC26(t *testing.T) { Run(t, "C26", W{"sweep", 4000, 120000, sweepCase}) }

// ---- C27: recovery and closing ------------------------------------------------------------

func fdsOn(dir string) int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (l == dir || strings.HasPrefix(l, dir+"/") || strings.HasPrefix(l, dir+" ")) {
			n++
		}
	}
	return n
}

// recoverCase: a directory is opened again, stores race with the scan.
func recoverCase(c *C) {
	dir, done := c.storeDir()
	defer done()
	r := c.Rng
	ctx := context.Background()
	compress := chance(r, .3)
	opts := []antcache.DiskOption{}
	if compress {
		opts = append(opts, antcache.Compress())
	}
	n := pick(r, 0, 1, 4, 5, 6, 10, 60, 400)
	if chance(r, .03) {
		n = pick(r, 1500, 2500, 6000)
		c.Count("directories of more than 1000 entries", 1)
	}
	keys := map[uint64]bool{}
	empty := map[uint64]bool{}
	aged := chance(r, .3)
	for i := 0; i < n; i++ {
		k := pick(r, uint64(i), uint64(r.Intn(50)), r.Uint64())
		keys[k] = true
		v, mtime := diskValue(k, 1, pick(r, 30, 300)), time.Time{}
		if delete(empty, k); chance(r, .05) {
			v, empty[k] = nil, true
		}
		if aged {
			mtime = time.Now().Add(pick(r, 0, -time.Hour, -25*time.Hour, -10000*time.Hour, 25*time.Hour))
		}
		putFile(dir, k, v, compress, mtime)
	}
	// Others.
	foreign := map[string]string{}
	for _, name := range []string{"123456.tmp", "7.tmp", ".tmp", "README", "-1", "1.5", "0x10", "99999999999999999999", "8.bak", " 9", "१२", ".hidden", "1e3", "007", "+6", "00", "lost+found"} {
		if chance(r, .35) {
			content := "foreign " + name
			foreign[name] = content
			os.WriteFile(filepath.Join(dir, name), []byte(content), 0o644)
		}
	}
	subs := map[string]bool{}
	for _, name := range []string{"sub", "77777", "88888"} {
		if chance(r, .35) {
			subs[name] = true
			os.Mkdir(filepath.Join(dir, name), 0o755)
			if name != "88888" {
				os.WriteFile(filepath.Join(dir, name, "5"), []byte("x"), 0o644)
			}
		}
	}
	fd0 := fdsOn(dir)
	sweeping := chance(r, .4)
	if sweeping {
		opts = append(opts, antcache.SweepEvery(200*time.Microsecond))
	}
	if sweeping && aged {
		opts = append(opts, antcache.Maxage(pick(r, 0, -1, time.Duration(1<<62))))
	}
	d, err := antcache.Open(dir, opts...)
	if err != nil {
		c.Violate("open", "Open failed: %v", err)
		return
	}
	// Stores, while the scan runs.
	newer := map[uint64]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < r.Intn(3); g++ {
		rg := rand.New(rand.NewSource(r.Int63()))
		var mine []uint64
		for k := range keys {
			if k%3 == uint64(g) && len(mine) < 20 {
				mine = append(mine, k)
			}
		}
		sort.Slice(mine, func(i, j int) bool { return mine[i] < mine[j] })
		mine = append(mine, 1<<40+uint64(g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				k := mine[rg.Intn(len(mine))]
				if err := d.Store(ctx, k, diskValue(k, 200+i, 100)); err != nil {
					c.Violate("store", "Store during the scan failed: %v", err)
					return
				}
				mu.Lock()
				newer[k] = 200 + i
				mu.Unlock()
			}
		}()
	}
	if chance(r, .5) {
		wg.Wait()
	}
	if err := d.Wait(ctx); err != nil {
		c.Violate("wait", "Wait failed: %v", err)
	}
	check := func(when string) {
		mu.Lock()
		defer mu.Unlock()
		for k := range newer {
			keys[k] = true
		}
		for k := range keys {
			v, err := d.Load(ctx, k)
			if err != nil || v == nil {
				c.Violate("lost", "%s: entry %d of the directory loads as %s, %v", when, k, abbr(v), err)
				return
			}
			want := 1
			if x, ok := newer[k]; ok {
				want = x
			} else if empty[k] {
				if len(v) > 0 {
					c.Violate("old", "%s: entry %d is empty, it loads as %s", when, k, abbr(v))
				}
				c.Count("empty entries recovered", 1)
				continue
			}
			id, err := parseDiskValue(k, v)
			if err != nil || id != want {
				c.Violate("old", "%s: entry %d has value %d (%v), want %d", when, k, id, err, want)
				return
			}
			c.Count("entries recovered", 1)
		}
		for name, content := range foreign {
			if b, err := os.ReadFile(filepath.Join(dir, name)); err != nil || string(b) != content {
				c.Violate("foreign", "%s: the file %q, which is no entry, was changed: %v", when, name, err)
			}
			if k, err := strconv.ParseUint(strings.TrimLeft(name, "+ "), 10, 64); err == nil && !keys[k] {
				if v, err := d.Load(ctx, k); v != nil || err != nil {
					c.Violate("foreign", "%s: the file %q, which is no entry, is served as key %d: %s, %v", when, name, k, abbr(v), err)
				}
			}
			c.Count("foreign files", 1)
		}
		for name := range subs {
			if st, err := os.Stat(filepath.Join(dir, name)); err != nil || !st.IsDir() {
				c.Violate("foreign", "%s: the directory %q was changed: %v", when, name, err)
			}
			if k, err := strconv.ParseUint(name, 10, 64); err == nil && !keys[k] {
				if v, err := d.Load(ctx, k); v != nil || err != nil {
					c.Violate("foreign", "%s: the directory %q is served as an entry: %s, %v", when, name, abbr(v), err)
				}
			}
		}
	}
	wg.Wait()
	check("after Wait")
	if err := d.Close(); err != nil {
		c.Violate("close", "Close failed: %v", err)
	}
	if n := fdsOn(dir); n != fd0 {
		c.Violate("fd-leak", "%d more file descriptors are open after Close", n-fd0)
	}
	d, err = antcache.Open(dir, opts...)
	if err != nil {
		c.Violate("open", "re-opening failed: %v", err)
		return
	}
	d.Wait(ctx)
	check("re-opened")
	d.Close()
	c.Sig(n, len(foreign), len(newer), c.N)
}

// waitCase: Wait gives up with its context, while the scan is held up by the
// debug func.
func waitCase(c *C) {
	dir, done := c.storeDir()
	defer done()
	c.Bubble(func() {
		r := c.Rng
		for i := 0; i < r.Intn(12); i++ {
			putFile(dir, uint64(i), diskValue(uint64(i), 1, 30), false, time.Time{})
		}
		hold := make(chan struct{})
		var opened atomic.Bool
		var held atomic.Int64
		d, err := antcache.Open(dir, antcache.Debug(func(f string, a ...any) {
			if !opened.Load() && !strings.Contains(f, "found") {
				return
			}
			if strings.Contains(f, "found") {
				held.Add(1)
				<-hold
			}
		}), antcache.SweepEvery(pick(r, 0, time.Second, time.Hour)))
		if err != nil {
			c.Violate("open", "Open failed: %v", err)
			return
		}
		opened.Store(true)
		synctest.Wait()
		warm := chance(r, .4)
		if warm {
			close(hold)
			synctest.Wait()
			c.Count("waits when the scan was over", 1)
		}
		waits := 1 + r.Intn(3)
		var wg sync.WaitGroup
		for i := 0; i < waits; i++ {
			ctx, cancel := context.WithCancel(context.Background())
			want := context.Canceled
			w := time.Duration(r.Intn(3)) * time.Second
			if chance(r, .5) {
				cancel()
				ctx, cancel = context.WithTimeout(context.Background(), w)
				want = context.DeadlineExceeded
			} else if w == 0 {
				cancel()
			} else {
				time.AfterFunc(w, cancel)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer cancel()
				ended := ctx.Err() != nil
				err := d.Wait(ctx)
				if err == nil && ended {
					c.Violate("wait", "Wait returned nil for a context that had ended (scan held up: %v)", held.Load() > 0)
				}
				if ended {
					c.Count("waits with a context that had ended", 1)
				}
				if warm && !ended && err != nil {
					c.Violate("wait", "the scan was over and the context live, Wait returned %v", err)
				}
				if err != nil && !errors.Is(err, want) {
					c.Violate("wait", "Wait returned %v, the context ended with %v", err, want)
				}
				if err != nil {
					c.Count("waits that the context ended", 1)
				}
			}()
		}
		wg.Wait() // a deadlock if Wait does not heed the context
		if held.Load() > 0 {
			c.Count("scans held up", 1)
		}
		if !warm {
			close(hold)
		}
		if err := d.Wait(context.Background()); err != nil {
			c.Violate("wait", "Wait returned %v", err)
		}
		if err := d.Close(); err != nil {
			c.Violate("close", "Close returned %v", err)
		}
		c.Sig(waits, c.N)
	})
}

// closeCase: Close at any moment ends everything; the bubble notices what is
// left running.
func closeCase(c *C) {
	dir, done := c.storeDir()
	defer done()
	c.Bubble(func() {
		r := c.Rng
		ctx := context.Background()
		for i := 0; i < pick(r, 0, 3, 30); i++ {
			putFile(dir, uint64(i), diskValue(uint64(i), 1, 30), false, start2000.Add(-time.Hour))
		}
		fd0 := fdsOn(dir)
		every := pick(r, -time.Second, 0, time.Millisecond, time.Second, time.Hour)
		opts := []antcache.DiskOption{antcache.Maxage(0), antcache.SweepEvery(every)}
		if chance(r, .2) {
			opts = opts[:1]
		}
		d, err := antcache.Open(dir, opts...)
		if err != nil {
			c.Violate("open", "Open failed: %v", err)
			return
		}
		stored := map[uint64]bool{}
		for i := 0; i < r.Intn(4); i++ {
			if chance(r, .5) {
				k := uint64(100 + i)
				if err := d.Store(ctx, k, diskValue(k, 2, 50)); err == nil {
					stored[k] = true
				}
			} else {
				time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
			}
		}
		if err := d.Close(); err != nil {
			c.Violate("close", "Close returned %v", err)
		}
		synctest.Wait()
		if n := fdsOn(dir); n != fd0 {
			c.Violate("fd-leak", "%d more file descriptors are open after Close", n-fd0)
		}
		for k := range stored {
			if b, err := os.ReadFile(filepath.Join(dir, strconv.FormatUint(k, 10))); err != nil {
				c.Violate("lost", "entry %d is not on disk after Close: %v", k, err)
			} else if _, err := parseDiskValue(k, b); err != nil {
				c.Violate("mangled", "entry %d after Close: %v", k, err)
			}
		}
		before := lsDir(dir)
		time.Sleep(48 * time.Hour)
		if after := lsDir(dir); after != before {
			c.Violate("running", "the directory changes after Close: %s, was %s", after, before)
		}
		c.Count("stores closed", 1)
		c.Sig(every, len(stored), c.N)
	})
}

// busyCase: Close is called while the sweeper, or the scan, is held up by the
// debug func; what runs in the background must have ended when Close returns.
func busyCase(c *C) {
	dir, done := c.storeDir()
	defer done()
	c.Bubble(func() {
		r := c.Rng
		n := 2 + r.Intn(9)
		for i := 0; i < n; i++ {
			putFile(dir, uint64(i), diskValue(uint64(i), 1, 30), false, start2000.Add(-time.Hour))
		}
		scan := chance(r, .4)
		hold := make(chan struct{})
		var held, after, closed atomic.Int64
		opts := []antcache.DiskOption{antcache.SweepEvery(time.Second), antcache.Maxage(time.Duration(pick(r, 1, 3600, 3602)) * time.Second)}
		opts = append(opts, antcache.Debug(func(f string, a ...any) {
			if strings.Contains(f, "opened") || strings.Contains(f, "closed") || scan != strings.Contains(f, "found") {
				return
			}
			held.Add(1)
			<-hold
			held.Add(-1)
			if closed.Load() > 0 {
				after.Add(1)
			}
		}))
		d, err := antcache.Open(dir, opts...)
		if err != nil {
			c.Violate("open", "Open failed: %v", err)
			return
		}
		time.Sleep(time.Duration(r.Intn(5000)) * time.Millisecond)
		synctest.Wait()
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := d.Close(); err != nil {
				c.Violate("close", "Close returned %v", err)
			}
			closed.Add(1)
		}()
		synctest.Wait()
		if held.Load() > 0 {
			c.Count("stores closed while they were busy", 1)
			if closed.Load() > 0 {
				c.Violate("running", "Close returned while a goroutine of the store was busy (scanning: %v)", scan)
			}
		}
		time.Sleep(time.Duration(r.Intn(3)) * time.Second)
		close(hold)
		wg.Wait() // a deadlock if Close does not return
		before := lsDir(dir)
		time.Sleep(time.Hour)
		if ls := lsDir(dir); ls != before || after.Load() > 0 {
			c.Violate("running", "the store is at work after Close: %s, was %s", ls, before)
		}
		c.Sig(n, scan, c.N)
	})
}

// removedCase: the directory vanishes while, or before, it is scanned.  A Close
// that does not return is noticed by the case's watchdog.
func removedCase(c *C) {
	r := c.Rng
	dir, done := c.storeDir()
	defer done()
	n := pick(r, 0, 0, 3, 300, 1500)
	for i := 0; i < n; i++ {
		putFile(dir, uint64(i), []byte("v"), false, time.Time{})
	}
	// On one processor the scan has hardly begun when Open returns.
	if chance(r, .8) {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	}
	d, err := antcache.Open(dir, antcache.SweepEvery(pick(r, 0, time.Millisecond)))
	if err != nil {
		c.Violate("open", "Open failed: %v", err)
		return
	}
	if n == 0 {
		os.Remove(dir)
	} else {
		os.RemoveAll(dir)
	}
	if chance(r, .5) {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		if err := d.Wait(ctx); err != nil {
			c.Violate("wait", "the directory is gone; Wait returned %v", err)
		}
	}
	if err := d.Close(); err != nil {
		c.Violate("close", "the directory is gone; Close returned %v", err)
	}
	c.Count("directories removed", 1)
	c.Sig(n, c.N)
}

func TestC27(t *testing.T) {
	Run(t, "C27", W{"recover", 500, 15000, recoverCase}, W{"wait", 300, 10000, waitCase}, W{"close", 800, 20000, closeCase}, W{"removed", 120, 2000, removedCase}, W{"busy", 300, 6000, busyCase})
}
