// Package mon collects what a check observed and reports its verdict.
package mon

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// M is the state of one check run.
type M struct {
	Prop     string
	Seed     int64
	Thorough bool
	Dir      string // where evidence and replays go

	mu       sync.Mutex
	start    time.Time
	evals    int64
	distinct map[uint64]struct{}
	samples  []any
	viol     int
	known    map[string]string // key -> text of listed findings
	knownHit map[string]bool
	counters map[string]int64
	rule     string
	notes    map[string]any
	assume   []string
	hs       maphash.Seed
	busy     atomic.Value // string: current case, for the watchdog
	beat     atomic.Int64
	done     bool

	extra    int64  // distinct cases of children
	childOut string // a child process: results go to this file, for Merge
	child    childResult
}

type childViolation struct{ Key, Msg, Case string }

type childResult struct {
	Evals, Distinct int64
	Counters        map[string]int64
	Maxima          map[string]int64
	Samples         []any
	Violations      []childViolation
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// New starts a check run for a property.
func New(prop, rule string) *M {
	seed, err := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = 1
	}
	m := &M{Prop: prop, Seed: seed, Thorough: env("VERIF_TIER", "quick") == "thorough", Dir: env("VERIF_EVIDENCE", "."),
		start: time.Now(), distinct: map[uint64]struct{}{}, known: map[string]string{}, knownHit: map[string]bool{},
		counters: map[string]int64{}, notes: map[string]any{}, rule: rule, hs: maphash.MakeSeed()}
	m.loadKnown(env("VERIF_KNOWN", "known-findings.txt"))
	m.busy.Store("start")
	go m.watchdog()
	return m
}

// NewChild makes a monitor for a child process, which writes what it saw to out.
func NewChild(prop, out string) *M {
	m := New(prop, "")
	m.childOut = out
	return m
}

// Merge takes over what a child process saw. prefix goes before each violation.
func (m *M) Merge(path, prefix string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var c childResult
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	m.mu.Lock()
	m.evals += c.Evals
	m.extra += c.Distinct
	for k, v := range c.Counters {
		m.counters[k] += v
	}
	for _, s := range c.Samples {
		if len(m.samples) < 6 {
			m.samples = append(m.samples, s)
		}
	}
	m.mu.Unlock()
	for k, v := range c.Maxima {
		m.Max(k, v)
	}
	for _, v := range c.Violations {
		m.Case(v.Case)
		m.Violation(v.Key, "%s%s", prefix, v.Msg)
	}
	m.beat.Add(1)
	return nil
}

// N picks a size by tier.
func (m *M) N(quick, thorough int) int {
	if m.Thorough {
		return thorough
	}
	return quick
}

func (m *M) loadKnown(p string) {
	f, err := os.Open(p)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		// finding: property=C03 key=deep-list <what fails>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		w := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(w) == 3 && w[0] == "property="+m.Prop && strings.HasPrefix(w[1], "key=") {
			m.known[strings.TrimPrefix(w[1], "key=")] = w[2]
		}
	}
}

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// MaxCPU is the processor time one case may use before it counts as not
// terminating (cases take micro- to milliseconds).
const MaxCPU = 120 * time.Second

func (m *M) watchdog() {
	last, base := int64(-1), cpu()
	for {
		time.Sleep(500 * time.Millisecond)
		m.mu.Lock()
		d := m.done
		m.mu.Unlock()
		if d {
			return
		}
		if b := m.beat.Load(); b != last {
			last, base = b, cpu()
		} else if cpu()-base > MaxCPU {
			m.Violation("nontermination", "no progress after %v of processor time in case %v", MaxCPU, m.busy.Load())
			m.Finish()
			os.Exit(1)
		}
	}
}

// Beat changes as cases start and end.
func (m *M) Beat() int64 { return m.beat.Load() }

// Case notes that a new case starts.
func (m *M) Case(s string) {
	m.busy.Store(s)
	m.beat.Add(1)
}

// Eval counts one evaluated case; id identifies it for distinctness, nontrivial
// whether it counts as non-trivial by the rule.
func (m *M) Eval(id []byte, nontrivial bool) {
	m.beat.Add(1)
	h := maphash.Bytes(m.hs, id)
	m.mu.Lock()
	m.evals++
	if nontrivial {
		m.distinct[h] = struct{}{}
	}
	m.mu.Unlock()
}

func (m *M) Evals() int64 { m.mu.Lock(); defer m.mu.Unlock(); return m.evals }

// Count adds to a named counter of the evidence.
func (m *M) Count(k string, n int64) {
	m.mu.Lock()
	m.counters[k] += n
	m.mu.Unlock()
}

func (m *M) Max(k string, n int64) {
	m.mu.Lock()
	if m.childOut != "" {
		if m.child.Maxima == nil {
			m.child.Maxima = map[string]int64{}
		}
		m.child.Maxima[k] = max(n, m.child.Maxima[k])
	} else if n > m.counters[k] {
		m.counters[k] = n
	}
	m.mu.Unlock()
}

// Note adds a free-form item to the evidence.
func (m *M) Note(k string, v any) {
	m.mu.Lock()
	m.notes[k] = v
	m.mu.Unlock()
}

func (m *M) Assume(s string) { m.assume = append(m.assume, s) }

// Sample keeps a few actual cases.
func (m *M) Sample(v any) {
	m.mu.Lock()
	if len(m.samples) < 6 {
		m.samples = append(m.samples, v)
	}
	m.mu.Unlock()
}

func (m *M) Violations() int { m.mu.Lock(); defer m.mu.Unlock(); return m.viol }

// Violation reports a violation. key identifies the failing input, call site
// or history for the known-findings list.
func (m *M) Violation(key, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	m.mu.Lock()
	defer m.mu.Unlock()
	if w, ok := m.known[key]; ok {
		if !m.knownHit[key] {
			m.knownHit[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s key=%s %s\n", m.Prop, key, w)
		}
		return
	}
	m.viol++
	if m.childOut != "" {
		if m.viol <= 20 {
			m.child.Violations = append(m.child.Violations, childViolation{key, msg, fmt.Sprint(m.busy.Load())})
		}
		return
	}
	if m.viol > 5 {
		return
	}
	p := filepath.Join(m.Dir, fmt.Sprintf("%s.violation-%d.txt", m.Prop, m.viol))
	body := fmt.Sprintf("property %s key %s seed %d thorough %v\ncase %v\n\n%s\n\nreplay: VERIF_SEED=%d VERIF_TIER=%s bin/check %s\n",
		m.Prop, key, m.Seed, m.Thorough, m.busy.Load(), msg, m.Seed, env("VERIF_TIER", "quick"), m.Prop)
	os.WriteFile(p, []byte(body), 0666)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %.1500s\n", m.Prop, p, key, msg)
}

// Finish writes the evidence file. A run that observed nothing is an error.
func (m *M) Finish() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.done = true
	if m.childOut != "" {
		m.child.Evals, m.child.Distinct, m.child.Counters, m.child.Samples = m.evals, int64(len(m.distinct)), m.counters, m.samples
		b, err := json.Marshal(m.child)
		if err == nil {
			err = os.WriteFile(m.childOut, b, 0666)
		}
		if err != nil {
			fmt.Println("cannot write results:", err)
			os.Exit(3)
		}
		return
	}
	if len(m.samples) == 0 {
		m.samples = []any{}
	}
	cov := map[string]any{"evaluations": m.evals, "distinct_nontrivial": int64(len(m.distinct)) + m.extra, "rule": m.rule, "samples": m.samples}
	ks := make([]string, 0)
	for k := range m.counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	obs := map[string]int64{}
	for _, k := range ks {
		obs[k] = m.counters[k]
	}
	cov["observed"] = obs
	for k, v := range m.notes {
		cov[k] = v
	}
	if len(m.knownHit) > 0 {
		var l []string
		for k := range m.knownHit {
			l = append(l, k)
		}
		sort.Strings(l)
		cov["known_findings_seen"] = l
	}
	tier := "quick"
	if m.Thorough {
		tier = "thorough"
	}
	ev := map[string]any{"property": m.Prop, "tier": tier, "seed": m.Seed, "level": env("VERIF_LEVEL", "exploration"), "coverage": cov,
		"assumptions": append([]string{}, m.assume...), "wall_s": time.Since(m.start).Seconds(), "violations": m.viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(m.Dir, m.Prop+".json"), append(b, '\n'), 0666); err != nil {
		fmt.Println("cannot write evidence:", err)
		os.Exit(3)
	}
	if m.evals == 0 && m.viol == 0 {
		fmt.Println("INCONCLUSIVE: nothing was observed")
		os.Exit(4)
	}
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial, %d violations\n", m.Prop, m.evals, int64(len(m.distinct))+m.extra, m.viol)
}
