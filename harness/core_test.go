package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/google/uuid"
	"pgregory.net/rapid"
)

// Rec records what one generated case did: a textual trace (used for the
// distinctness count and as sample), classification labels, and whether the
// case is non-trivial by the stated rule of the test.
type Rec struct {
	trace      strings.Builder
	labels     map[string]int
	nontrivial bool
}

func (r *Rec) Logf(format string, args ...any) {
	if r.trace.Len() < 1<<16 {
		fmt.Fprintf(&r.trace, format, args...)
		r.trace.WriteByte('\n')
	}
}

func (r *Rec) Label(l string) { r.labels[l]++ }

func (r *Rec) LabelIf(b bool, l string) {
	if b {
		r.labels[l]++
	}
}

func (r *Rec) Nontrivial() { r.nontrivial = true }

type testStats struct {
	Test       string         `json:"test"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	Hashes     []string       `json:"hashes"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Failed     bool           `json:"failed"`
}

var (
	caseStart   atomic.Int64 // unix nanoseconds of the running case, 0 if none
	currentTest atomic.Value
	currentRec  atomic.Pointer[Rec]
)

// limits of the watchdog : a case normally takes milliseconds
const (
	hangLimit = 120 * time.Second
	heapLimit = 5 << 30
)

var watchdogOnce sync.Once

func startWatchdog() {
	watchdogOnce.Do(func() {
		go func() {
			for {
				time.Sleep(500 * time.Millisecond)
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > heapLimit {
					fmt.Fprintf(os.Stderr, "\nVERIF-MEMORY test=%v heap=%d\n", currentTest.Load(), m.HeapAlloc)
					if r := currentRec.Load(); r != nil {
						fmt.Fprintf(os.Stderr, "trace:\n%s\n", r.trace.String())
					}
					buf := make([]byte, 1<<20)
					os.Stderr.Write(buf[:runtime.Stack(buf, true)])
					os.Exit(4)
				}
				if s := caseStart.Load(); s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
					fmt.Fprintf(os.Stderr, "\nVERIF-HANG test=%v\n", currentTest.Load())
					if r := currentRec.Load(); r != nil {
						fmt.Fprintf(os.Stderr, "trace:\n%s\n", r.trace.String())
					}
					buf := make([]byte, 1<<20)
					os.Stderr.Write(buf[:runtime.Stack(buf, true)])
					os.Exit(3)
				}
			}
		}()
	})
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// lockedReader gives reproducible bytes to any goroutine
type lockedReader struct {
	mutex sync.Mutex
	r     *rand.Rand
}

func (l *lockedReader) Read(b []byte) (int, error) {
	l.mutex.Lock()
	defer l.mutex.Unlock()
	return l.r.Read(b)
}

// runProp runs one property test with rapid. quick is the number of cases per
// shard in the quick tier; the thorough tier multiplies it.
func runProp(t *testing.T, rule string, quick int, prop func(t *rapid.T, c *Rec)) {
	t.Helper()
	startWatchdog()
	currentTest.Store(t.Name())
	checks := quick * envInt("VERIF_SCALE", 1)
	if thorough() {
		checks = quick * envInt("VERIF_MULT", 20)
	}
	if v := os.Getenv("VERIF_CHECKS"); v != "" {
		checks, _ = strconv.Atoi(v)
	}
	checks = max(1, checks/envInt("VERIF_DIVIDE", 1))
	if flag.Lookup("rapid.failfile").Value.String() == "" {
		_ = flag.Set("rapid.checks", strconv.Itoa(checks))
		seed := fnv.New64a()
		fmt.Fprintf(seed, "%s/%s/%s", os.Getenv("VERIF_SEED"), os.Getenv("VERIF_SHARD"), t.Name())
		s := seed.Sum64()>>1 | 1
		_ = flag.Set("rapid.seed", strconv.FormatUint(s, 10))
	}
	_ = flag.Set("rapid.shrinktime", "20s")

	stats := &testStats{Test: t.Name(), Rule: rule, Labels: map[string]int{}, Failed: true}
	hashes := map[uint64]struct{}{}
	defer func() {
		caseStart.Store(0)
		stats.Failed = t.Failed()
		writeStats(stats, hashes)
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Rec{labels: map[string]int{}}
		currentRec.Store(c)
		caseStart.Store(time.Now().UnixNano())
		defer caseStart.Store(0)
		uuid.SetRand(&lockedReader{r: rand.New(rand.NewSource(1))}) // same identifiers when the case is replayed
		defer func() {
			if r := recover(); r != nil {
				// rapid uses panics internally to stop and skip cases : they are
				// not errors of the code under test
				if e, ok := r.(runtime.Error); ok {
					rt.Logf("runtime error: %v\n%s\ntrace:\n%s", e, debug.Stack(), c.trace.String())
				}
				if rt.Failed() {
					rt.Logf("history:\n%s", c.trace.String())
				}
				panic(r)
			}
		}()
		prop(rt, c)
		stats.Evals++
		for l, n := range c.labels {
			if n > 0 {
				stats.Labels[l]++
			}
		}
		if c.nontrivial {
			stats.Nontrivial++
			h := fnv.New64a()
			h.Write([]byte(c.trace.String()))
			hashes[h.Sum64()] = struct{}{}
			if len(stats.Samples) < 3 {
				s := c.trace.String()
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				stats.Samples = append(stats.Samples, s)
			}
		}
	})
}

func writeStats(stats *testStats, hashes map[uint64]struct{}) {
	dir := os.Getenv("VERIF_STATS_DIR")
	if dir == "" {
		if os.Getenv("VERIF_VERBOSE") != "" {
			ls := []string{}
			for l, n := range stats.Labels {
				ls = append(ls, fmt.Sprintf("%s=%d", l, n))
			}
			sort.Strings(ls)
			fmt.Printf("STATS %s evals=%d nontrivial=%d distinct=%d labels: %s\n", stats.Test, stats.Evals, stats.Nontrivial, len(hashes), strings.Join(ls, " "))
		}
		return
	}
	stats.Hashes = make([]string, 0, len(hashes))
	for h := range hashes {
		stats.Hashes = append(stats.Hashes, strconv.FormatUint(h, 36))
	}
	b, _ := json.Marshal(stats)
	name := fmt.Sprintf("%s-%s.json", strings.ReplaceAll(stats.Test, "/", "_"), os.Getenv("VERIF_SHARD"))
	_ = os.WriteFile(filepath.Join(dir, name), b, 0o644)
}

// knownFinding reports a listed finding that still fails.
func knownFinding(id, what string) {
	fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
}

// try runs f and returns the recovered panic value, nil if there was none.
func try(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			p = r
		}
	}()
	f()
	return nil
}

func oneIn(t *rapid.T, n int, label string) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == 0
}

func TestMain(m *testing.M) {
	flag.Parse()
	debug.SetMaxStack(64 << 20)
	rc := m.Run()
	os.RemoveAll(filesDir)
	os.Exit(rc)
}

func pickOne[T any](t *rapid.T, label string, values []T) T {
	return values[rapid.IntRange(0, len(values)-1).Draw(t, label)]
}
