// Package zzverif is the runtime-monitoring harness for github.com/yields/ant.
//
// It is laid over /repo/internal/zzverif with `go test -overlay`, so that it is
// compiled inside the module (internal packages are importable) without
// touching the repository.  Every file is called zz_*_test.go: the driver
// tells frames of the harness from frames of the code under test by that name.
package zzverif

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/yields/ant"
)

// violation is one observed breach of a property, with what replays it.
type violation struct {
	Property string   `json:"property"`
	Workload string   `json:"workload"`
	Case     int      `json:"case"`
	Seed     int64    `json:"seed"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	History  []string `json:"history,omitempty"`
}

type report struct {
	Property    string           `json:"property"`
	Evaluations int64            `json:"evaluations"`
	Distinct    []string         `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []any            `json:"samples"`
	Violations  []violation      `json:"violations"`
	Done        bool             `json:"done"`
	Raced       []string         `json:"raced"` // cases during which a data race was reported

	mu   sync.Mutex
	sigs map[uint64]struct{}
}

// C is one case: a PRNG-determined workload with its monitor state.
type C struct {
	T        *testing.T
	ID       string
	Workload string
	N        int
	Seed     int64
	Thorough bool
	Rng      *rand.Rand

	rep  *report
	mu   sync.Mutex
	hist []string
	bad  int
}

// W is a workload: a fixed number of cases per tier.
type W struct {
	Name     string
	Quick    int
	Thorough int
	F        func(c *C)
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	return h.Sum64()
}

// Count adds n to an evidence counter.
func (c *C) Count(name string, n int) {
	c.rep.mu.Lock()
	c.rep.Counters[name] += int64(n)
	c.rep.mu.Unlock()
}

// Max raises an evidence counter to n.
func (c *C) Max(name string, n int) {
	c.rep.mu.Lock()
	if int64(n) > c.rep.Counters[name] {
		c.rep.Counters[name] = int64(n)
	}
	c.rep.mu.Unlock()
}

// Sig records the signature of a distinct, non-trivial execution.
func (c *C) Sig(parts ...any) {
	s := hash64(append([]any{c.Workload}, parts...)...)
	c.rep.mu.Lock()
	c.rep.sigs[s] = struct{}{}
	c.rep.mu.Unlock()
}

// Sample keeps v as evidence sample for a few cases.
func (c *C) Sample(v any) {
	c.rep.mu.Lock()
	if len(c.rep.Samples) < 6 {
		c.rep.Samples = append(c.rep.Samples, map[string]any{"workload": c.Workload, "case": c.N, "what": v})
	}
	c.rep.mu.Unlock()
}

// Logf adds a line to the case's history (shown in the replay file).
func (c *C) Logf(f string, a ...any) {
	c.mu.Lock()
	if len(c.hist) < 4000 {
		c.hist = append(c.hist, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Violate records a violation of the property; key classifies it.
func (c *C) Violate(key, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	c.mu.Lock()
	c.bad++
	hist := append([]string(nil), c.hist...)
	c.mu.Unlock()
	c.rep.mu.Lock()
	defer c.rep.mu.Unlock()
	if len(c.rep.Violations) < 40 {
		c.rep.Violations = append(c.rep.Violations, violation{
			Property: c.ID, Workload: c.Workload, Case: c.N, Seed: c.Seed,
			Key: key, Msg: msg, History: hist,
		})
	}
}

// Bad reports whether the case violated something.
func (c *C) Bad() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.bad > 0 }

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

var repoDir = env("VERIF_REPO", "/repo") + "/"

// inRepo tells whether a stack has a frame of the code under test that is
// called before (above) the harness frames that led to it.
func inRepo(stack string) bool {
	for _, line := range strings.Split(stack, "\n") {
		line = strings.TrimSpace(line)
		if strings.Contains(line, "/zz_") {
			return false
		}
		if strings.HasPrefix(line, repoDir) && strings.Contains(line, ".go:") {
			return true
		}
	}
	return false
}

// guard runs f and turns a panic of the code under test into a violation.
func (c *C) guard(f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			// Skip the frames of recover/panic themselves.
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if inRepo(st) {
				c.Violate("panic", "panic in the code under test: %v\n%s", r, st)
				return
			}
			if _, ok := r.(runtime.Error); ok {
				// An oracle tripped over a result of a shape that no
				// working code returns: nil, or too short.
				c.Violate("unexpected", "a result could not be judged: %v\n%s", r, st)
				return
			}
			panic(fmt.Sprintf("harness panic: %v\n%s", r, st))
		}
	}()
	f()
}

// Bubble runs f in a synctest bubble (virtual time).  A deadlock - every
// goroutine of the bubble blocked for ever, or goroutines left blocked behind -
// is a violation, decided logically and not by a wall clock.
//
// The bubble has a test of its own, which a race ends without ending c's.
func (c *C) Bubble(f func()) {
	var other any
	c.T.Run("bubble", func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if strings.Contains(msg, "deadlock:") {
					key := "hang"
					if strings.Contains(msg, "main bubble goroutine has exited") {
						key = "leak"
					}
					c.Violate(key, "%s\n%s", msg, bubbleStacks())
					return
				}
				other = r
			}
		}()
		synctest.Test(t, func(t *testing.T) { c.guard(f) })
	})
	if other != nil {
		panic(other)
	}
}

// bubbleStacks keeps the stacks of goroutines of bubbles.
func bubbleStacks() string {
	var out []string
	for _, g := range strings.Split(stacks(), "\n\n") {
		if strings.Contains(g, "synctest bubble") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

// caseLimit is the real-time watchdog of one case.  It is generous (cases take
// milliseconds); its firing only asks the driver to run the case again.
var caseLimit = time.Duration(atoi(env("VERIF_CASE_LIMIT", "60"))) * time.Second

// Run runs the workloads of one property.
func Run(t *testing.T, id string, ws ...W) {
	log.SetOutput(io.Discard)
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	thorough := env("VERIF_TIER", "quick") == "thorough"
	shard, shards := 0, 1
	fmt.Sscanf(env("VERIF_SHARD", "0/1"), "%d/%d", &shard, &shards)
	only := env("VERIF_CASE", "") // workload:case
	rep := &report{Property: id, Counters: map[string]int64{}, sigs: map[uint64]struct{}{}}

	out := env("VERIF_OUT", "")
	flush := func() {
		rep.mu.Lock()
		defer rep.mu.Unlock()
		rep.Distinct = rep.Distinct[:0]
		for s := range rep.sigs {
			rep.Distinct = append(rep.Distinct, strconv.FormatUint(s, 36))
		}
		b, err := json.Marshal(rep)
		if err != nil {
			panic(err)
		}
		if out != "" {
			if err := os.WriteFile(out, b, 0o644); err != nil {
				panic(err)
			}
		} else {
			rep.Distinct = nil
			b, _ := json.MarshalIndent(rep, "", " ")
			fmt.Println(string(b))
		}
	}
	// marker names the case being run, for the driver to blame on a crash.
	marker := func(s string) {
		if out != "" {
			os.WriteFile(out+".case", []byte(s), 0o644)
		}
	}

	// raced notes the case at whose end the race detector's log has grown.
	raceLog, raceSize := env("VERIF_RACELOG", "")+"."+strconv.Itoa(os.Getpid()), int64(0)
	raced := func(name string) {
		if st, err := os.Stat(raceLog); err == nil && st.Size() > raceSize {
			raceSize = st.Size()
			if rep.Raced = append(rep.Raced, name); len(rep.Raced) == 1 && out != "" {
				os.WriteFile(out+".raced", []byte(name), 0o644)
			}
		}
	}

	for _, w := range ws {
		n := w.Quick
		if thorough {
			n = w.Thorough
		}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%s:%d", w.Name, i)
			if only != "" {
				if only != name {
					continue
				}
			} else if int(hash64(w.Name, i)%uint64(shards)) != shard {
				continue
			}
			c := &C{
				T: t, ID: id, Workload: w.Name, N: i, Seed: seed, Thorough: thorough,
				Rng: rand.New(rand.NewSource(int64(hash64(seed, id, w.Name, i)))),
				rep: rep,
			}
			marker(name)
			wd := time.AfterFunc(caseLimit, func() {
				fmt.Fprintf(os.Stderr, "VERIF-HANG %s %s\n%s\n", id, name, stacks())
				os.Exit(77)
			})
			c.guard(func() { w.F(c) })
			wd.Stop()
			raced(name)
			rep.mu.Lock()
			rep.Evaluations++
			rep.Counters["cases/"+w.Name]++
			nv := len(rep.Violations)
			rep.mu.Unlock()
			if nv >= 5 {
				break
			}
		}
	}
	rep.Done = true
	flush()
}

// pick returns one of xs.
func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// chance is true with probability p.
func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

var errNothing = errors.New("neither an answer nor an error")

// resp passes on what a client returned; nothing at all is a violation.
func (c *C) resp(r *http.Response, err error) (*http.Response, error) {
	switch {
	case r == nil && err == nil:
		c.Violate("nothing", "the client returned neither a response nor an error")
		return nil, errNothing
	case err == nil && r.Body == nil:
		c.Violate("nothing", "the client returned a response without a body")
		r.Body = http.NoBody
	}
	return r, err
}

// page passes on what a fetcher returned for a page that is there.
func (c *C) page(p *ant.Page, err error) (*ant.Page, error) {
	if p == nil && err == nil {
		c.Violate("nothing", "the fetcher returned neither a page nor an error")
		return nil, errNothing
	}
	return p, err
}
