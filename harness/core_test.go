// Package verifpbt holds the generated-input checks of /verif. It is laid over
// /repo/internal/verifpbt with `go test -overlay` and uses exported API only,
// so it judges what the code does and not how it is written.
package verifpbt

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- configuration from the runner -----------------------------------------

var (
	envTier  = getenv("VERIF_TIER", "quick")
	envScale = atof(getenv("VERIF_SCALE", "1"))
	envOut   = getenv("VERIF_OUT", "")
	envKnown = getenv("VERIF_KNOWN", "")
	envRepo  = getenv("VERIF_REPO", "/repo")
	envCLI   = getenv("VERIF_CLI", "")
	envDir   = getenv("VERIF_SCRATCH", "")
)

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func atof(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 1
	}
	return f
}

func thorough() bool { return envTier == "thorough" }

// ---- collection ------------------------------------------------------------

type failure struct {
	Sub      string         `json:"sub"`
	Message  string         `json:"message"`
	Inputs   map[string]any `json:"inputs"`
	FailFile string         `json:"fail_file"`
}

type collector struct {
	mu          sync.Mutex
	Property    string `json:"property"`
	Rule        string `json:"rule"`
	Evaluations int    `json:"evaluations"`
	distinct    map[uint64]struct{}
	Distinct    int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes"`
	SubEvals    map[string]int `json:"cases_per_generator"`
	Samples     []any          `json:"samples"`
	sampleSubs  map[string]int
	Failures    []failure      `json:"failures"`
	Known       []string       `json:"known"`
	Excluded    map[string]int `json:"excluded_known"`
	Done        bool           `json:"done"`
	Hashes      []string       `json:"-"`

	cur       *C
	curStart  float64
	curSeq    uint64
	recording bool
}

var col = &collector{
	distinct: map[uint64]struct{}{}, Classes: map[string]int{}, SubEvals: map[string]int{},
	sampleSubs: map[string]int{}, Excluded: map[string]int{},
}

// C is one generated case.
type C struct {
	sub     string
	names   []string
	inputs  map[string]any
	classes []string
	nt      bool
	key     uint64
	msg     string
}

// in records an input of the case so that it appears in replay files and samples.
func (c *C) in(name string, v any) {
	if b, ok := v.([]byte); ok {
		v = hex.EncodeToString(b)
	}
	col.mu.Lock()
	if _, ok := c.inputs[name]; !ok {
		c.names = append(c.names, name)
	}
	c.inputs[name] = v
	col.mu.Unlock()
}

// class counts the case under a label in the evidence.
func (c *C) class(name string) { c.classes = append(c.classes, name) }

func (c *C) classIf(cond bool, name string) {
	if cond {
		c.class(name)
	}
}

// nontrivial marks the case as non-trivial; key identifies it for distinctness.
func (c *C) nontrivial(key []byte) {
	h := fnv.New64a()
	h.Write([]byte(c.sub))
	h.Write([]byte{0})
	h.Write(key)
	c.nt, c.key = true, h.Sum64()
}

func (c *C) failf(t *rapid.T, format string, args ...any) {
	t.Helper()
	c.msg = fmt.Sprintf(format, args...)
	t.Fatalf("%s", c.msg)
}

type sub struct {
	name            string
	quick, thorough int
	fn              func(t *rapid.T, c *C)
}

func (co *collector) record(c *C) {
	co.mu.Lock()
	defer co.mu.Unlock()
	if !co.recording {
		return
	}
	co.Evaluations++
	co.SubEvals[c.sub]++
	for _, k := range c.classes {
		co.Classes[k]++
	}
	if c.nt {
		if _, ok := co.distinct[c.key]; !ok && len(co.distinct) < maxDistinct {
			co.distinct[c.key] = struct{}{}
			if co.sampleSubs[c.sub] < 2 {
				co.sampleSubs[c.sub]++
				m := map[string]any{"generator": c.sub}
				for _, n := range c.names {
					v := c.inputs[n]
					if s, ok := v.(string); ok && len(s) > 400 {
						v = s[:400] + fmt.Sprintf("... (%d characters)", len(s))
					}
					m[n] = v
				}
				co.Samples = append(co.Samples, m)
			}
		}
	}
}

// maxDistinct bounds how many different cases are remembered; beyond it the number
// reported is a lower bound.
const maxDistinct = 150000

func isRapidControl(r any) bool { return strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") }

// run drives every generator of one property.
func run(t *testing.T, id, rule string, subs ...sub) {
	col.Property, col.Rule = id, rule
	if collecting {
		collected = append(collected, subs...)
		return
	}
	only := getenv("VERIF_SUB", "")
	index := getenv("VERIF_SUB_INDEX", "")
	for i, s := range subs {
		if only != "" && only != s.name || index != "" && int(atof(index))%len(subs) != i {
			continue
		}
		n := s.quick
		if thorough() {
			n = s.thorough
		}
		n = int(float64(n) * envScale)
		if n < 1 {
			n = 1
		}
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
		col.recording = true
		var last *failure
		t.Run(s.name, func(t *testing.T) {
			defer func() {
				if last != nil {
					last.FailFile = findFailFile(t.Name())
					col.Failures = append(col.Failures, *last)
					t.Logf("VERIF-FAILURE %s: %s", last.Sub, last.Message)
				}
			}()
			rapid.Check(t, func(rt *rapid.T) { oneCase(rt, s, &last) })
		})
	}
}

// oneCase draws one case of a generator and judges it.
func oneCase(rt *rapid.T, s sub, last **failure) {
	c := &C{sub: s.name, inputs: map[string]any{}}
	col.begin(c)
	defer func() {
		r := recover()
		col.end()
		fail := rt.Failed() || c.msg != ""
		if r != nil && !isRapidControl(r) {
			fail = true
			c.msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
		if fail {
			col.recording = false
			*last = &failure{Sub: s.name, Message: c.msg, Inputs: c.inputs}
		} else if r == nil {
			col.record(c)
		}
		if r != nil {
			panic(r)
		}
	}()
	s.fn(rt, c)
}

// collecting makes run hand its generators to the coverage-guided search instead of
// driving them.
var (
	collecting bool
	collected  []sub
)

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func findFailFile(name string) string {
	var found string
	_ = filepath.Walk("testdata", func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(p, ".fail") {
			base := strings.NewReplacer("/", "_").Replace(name)
			if strings.Contains(strings.ReplaceAll(p, "/", "_"), strings.ReplaceAll(base, "/", "_")) {
				found = p
			}
		}
		return nil
	})
	if found == "" {
		return ""
	}
	b, err := os.ReadFile(found)
	if err != nil {
		return ""
	}
	return string(b)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func (co *collector) begin(c *C) {
	co.mu.Lock()
	co.cur = c
	co.curSeq++
	co.mu.Unlock()
}

func (co *collector) end() {
	co.mu.Lock()
	co.cur = nil
	co.curSeq++
	co.mu.Unlock()
}

// watchdogLimit is how many seconds of processor time one case may take.
var watchdogLimit = 60.0

// watchdog turns a single case that burns a minute of processor time, or
// gigabytes of memory, into a failure: every case here is a few kilobytes and
// needs milliseconds. It measures processor time, not wall-clock time, so a busy
// machine cannot trip it.
func (co *collector) watchdog() {
	var seq uint64
	var start float64
	var ticks int
	for {
		time.Sleep(100 * time.Millisecond)
		co.mu.Lock()
		cur, s := co.cur, co.curSeq
		co.mu.Unlock()
		if cur == nil || s != seq {
			seq, start, ticks = s, cpuSeconds(), 0
			continue
		}
		ticks++
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		spent := cpuSeconds() - start
		// Blocked for good: minutes of watching, and nothing computed (the watching
		// itself takes some of the time counted).
		blocked := ticks > 2400 && spent < 15
		if spent > watchdogLimit || ms.HeapAlloc > 3<<30 || blocked {
			co.mu.Lock()
			co.Failures = append(co.Failures, failure{
				Sub:     cur.sub,
				Message: fmt.Sprintf("the case does not finish: %.0f s of processor time and %d MB of heap spent on it", spent, ms.HeapAlloc>>20),
				Inputs:  cur.inputs,
			})
			co.Done = true
			co.writeLocked()
			os.Exit(1)
		}
	}
}

func (co *collector) writeLocked() {
	co.Distinct = len(co.distinct)
	if envOut == "" {
		return
	}
	type out struct {
		*collector
		Keys []string `json:"keys"`
	}
	keys := make([]string, 0, len(co.distinct))
	for k := range co.distinct {
		keys = append(keys, strconv.FormatUint(k, 36))
	}
	sort.Strings(keys)
	b, err := json.Marshal(out{co, keys})
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write result:", err)
		os.Exit(4)
	}
	if err := os.WriteFile(envOut, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write result:", err)
		os.Exit(4)
	}
}

func TestMain(m *testing.M) {
	flag.Parse()
	if w := flag.Lookup("test.fuzzworker"); w != nil && w.Value.String() == "true" && envOut != "" {
		envOut = fmt.Sprintf("%s.%d", envOut, os.Getpid())
		col.recording = true
	}
	loadKnown()
	go col.watchdog()
	rc := m.Run()
	col.mu.Lock()
	col.Done = true
	col.writeLocked()
	col.mu.Unlock()
	os.Exit(rc)
}

// ---- known findings --------------------------------------------------------

type knownEntry struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"`
	What     string `json:"what"`
	Input    string `json:"input"`
}

var knownList = map[string]knownEntry{}

func loadKnown() {
	if envKnown == "" {
		return
	}
	b, err := os.ReadFile(envKnown)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var f struct {
		Findings []knownEntry `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(4)
	}
	for _, e := range f.Findings {
		if e.Status == "known" {
			knownList[e.Property+"/"+e.ID] = e
		}
	}
}

// isKnown reports whether a finding is listed as known for a property.
func isKnown(property, id string) bool { _, ok := knownList[property+"/"+id]; return ok }

// excluded counts a case (or field) kept out of the search because of a known finding.
func excluded(id string) {
	col.mu.Lock()
	col.Excluded[id]++
	col.mu.Unlock()
}

// probeKnown re-runs the concrete input of each listed finding of a property.
func probeKnown(property string, probe func(e knownEntry) bool) {
	var ids []string
	for k, e := range knownList {
		if e.Property == property {
			ids = append(ids, k)
		}
	}
	sort.Strings(ids)
	for _, k := range ids {
		e := knownList[k]
		still := func() (r bool) {
			defer func() {
				if recover() != nil {
					r = true
				}
			}()
			return probe(e)
		}()
		if still {
			col.Known = append(col.Known, fmt.Sprintf("%s (%s)", e.What, e.ID))
		}
	}
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
