// Package core drives the property checks: it generates cases with rapid, runs them, shrinks failures to an
// explicit case that can be replayed without rapid, and keeps the counts that go into the evidence.
package core

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what one execution of a case observed. Only counts, it never influences the verdict.
type Obs struct {
	nontrivial bool
	labels     []string
}

// NonTrivial marks the case as non-trivial by the rule of its sub-check
func (o *Obs) NonTrivial() { o.nontrivial = true }

// NonTrivialIf marks the case if cond
func (o *Obs) NonTrivialIf(cond bool) {
	if cond {
		o.nontrivial = true
	}
}

// Label classifies the case
func (o *Obs) Label(format string, args ...interface{}) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	o.labels = append(o.labels, format)
}

// LabelIf classifies the case if cond
func (o *Obs) LabelIf(cond bool, l string) {
	if cond {
		o.labels = append(o.labels, l)
	}
}

// Sub is one executable check of a property: a generator of explicit cases and an oracle over a case.
type Sub struct {
	Prop, Name string
	Rule       string // how cases are made and what makes one non-trivial
	Quick      int    // number of generated cases in the quick tier
	gen        func(*rapid.T) interface{}
	enum       func() []interface{} // instead of gen: a fixed enumeration
	decode     func([]byte) (interface{}, error)
	run        func(interface{}, *Obs) error
	Factor     int // thorough = Quick * factor, 0 means default
}

var registry []*Sub

// Check registers a sub-check over generated cases
func Check[C any](prop, name, rule string, quick int, gen func(*rapid.T) C, run func(C, *Obs) error) *Sub {
	s := &Sub{
		Prop: prop, Name: name, Rule: rule, Quick: quick,
		gen:    func(t *rapid.T) interface{} { return gen(t) },
		decode: decoder[C],
		run:    func(c interface{}, o *Obs) error { return run(c.(C), o) },
	}
	registry = append(registry, s)
	return s
}

// Enum registers a sub-check over a fixed enumeration of cases
func Enum[C any](prop, name, rule string, list func() []C, run func(C, *Obs) error) *Sub {
	s := &Sub{
		Prop: prop, Name: name, Rule: rule,
		enum: func() []interface{} {
			out := []interface{}{}
			for _, c := range list() {
				out = append(out, c)
			}
			return out
		},
		decode: decoder[C],
		run:    func(c interface{}, o *Obs) error { return run(c.(C), o) },
	}
	registry = append(registry, s)
	return s
}

func decoder[C any](b []byte) (interface{}, error) {
	var c C
	err := json.Unmarshal(b, &c)
	return c, err
}

// Subs returns the sub-checks of a property
func Subs(prop string) (out []*Sub) {
	for _, s := range registry {
		if s.Prop == prop {
			out = append(out, s)
		}
	}
	return
}

// Props lists the registered properties
func Props() []string {
	seen := map[string]bool{}
	out := []string{}
	for _, s := range registry {
		if !seen[s.Prop] {
			seen[s.Prop] = true
			out = append(out, s.Prop)
		}
	}
	sort.Strings(out)
	return out
}

// Failure is a failing case in a form that can be replayed
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Checks   int             `json:"checks"`
	// Alone tells whether the case fails when run alone; if not the whole run (seed, checks) is the reproduction
	Alone bool `json:"alone"`
}

// SubResult is what a sub-check did
type SubResult struct {
	Sub         string         `json:"sub"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    []uint64       `json:"distinct"` // hashes of the distinct non-trivial cases
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Enumerated  bool           `json:"enumerated"`
	WallS       float64        `json:"wall_s"`
	SlowestS    float64        `json:"slowest_s"`     // the case that took the longest
	Cut         bool           `json:"cut,omitempty"` // ended by the time budget
	Failure     *Failure       `json:"failure,omitempty"`
	HarnessErr  string         `json:"harness_error,omitempty"`
}

var current struct {
	sync.Mutex
	active bool
	start  time.Time
	cpu    time.Duration
}

func setActive(on bool) {
	current.Lock()
	current.active = on
	if on {
		current.start = time.Now()
		current.cpu = CPUTime()
	}
	current.Unlock()
}

// Run1 runs a case, turning a panic into an error
func (s *Sub) Run1(c interface{}, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return s.run(c, o)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	out := []string{}
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") { // frames before belong to the recovery
			out = nil
			continue
		}
		if i > 200 || len(out) > 24 {
			break
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

// tb implements rapid.TB without a testing.T
type tb struct {
	name   string
	failed bool
	log    []string
}

func (t *tb) Helper()                          {}
func (t *tb) Name() string                     { return t.name }
func (t *tb) Logf(f string, a ...interface{})  { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...interface{})             { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...interface{}) { t.Logf(f, a...); runtime.Goexit() }
func (t *tb) Skip(a ...interface{})            { t.Log(a...); runtime.Goexit() }
func (t *tb) SkipNow()                         { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...interface{}) {
	t.Logf(f, a...)
	t.failed = true
}
func (t *tb) Error(a ...interface{}) { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...interface{}) {
	t.Logf(f, a...)
	t.FailNow()
}
func (t *tb) Fatal(a ...interface{}) { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()               { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                  { t.failed = true }
func (t *tb) Failed() bool           { return t.failed }

// Options of a run
type Options struct {
	Seed   uint64
	Checks int    // 0: as registered
	State  *State // where the running case is recorded
	Shrink string // rapid.shrinktime
	// Deadline after which no further cases are run; zero: none
	Deadline time.Time
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		panic(err)
	}
}

func mixSeed(seed uint64, name string) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s", seed, name)))
	v := binary.LittleEndian.Uint64(h[:8])
	if v == 0 {
		v = 1
	}
	return v
}

// Run runs a sub-check
func (s *Sub) Run(opt Options) *SubResult {
	start := time.Now()
	res := &SubResult{Sub: s.Name, Rule: s.Rule, Labels: map[string]int{}, Enumerated: s.enum != nil}
	distinct := map[uint64]bool{}
	var firstFail, lastFail *Failure
	failures := 0

	one := func(c interface{}) error {
		raw, err := json.Marshal(c)
		if err != nil {
			panic("harness: case cannot be serialised: " + err.Error())
		}
		if opt.State != nil {
			opt.State.Put(s.Prop, s.Name, raw)
		}
		o := &Obs{}
		setActive(true)
		began := time.Now()
		err = s.Run1(c, o)
		setActive(false)
		res.SlowestS = max(res.SlowestS, time.Since(began).Seconds())
		if firstFail == nil {
			res.Evaluations++
			for _, l := range o.labels {
				res.Labels[l]++
			}
			if o.nontrivial {
				res.NonTrivial++
				h := sha256.Sum256(raw)
				k := binary.LittleEndian.Uint64(h[:8])
				if !distinct[k] {
					distinct[k] = true
					n := len(distinct)
					// samples spread over the run: the 3rd, 30th, 300th ... distinct non-trivial case
					if n == 3 || n == 30 || n == 300 || n == 3000 {
						res.Samples = append(res.Samples, clip(string(raw), 900))
					}
				}
			}
		}
		if err != nil && strings.Contains(err.Error(), "harness: ") {
			fmt.Fprintf(os.Stderr, "%s/%s: %v\n%s\n", s.Prop, s.Name, err, clip(string(raw), 2000))
			os.Exit(2)
		}
		if err != nil {
			failures++
			f := &Failure{Property: s.Prop, Sub: s.Name, Case: raw, Message: err.Error(), Seed: opt.Seed, Checks: opt.Checks}
			if firstFail == nil {
				firstFail = f
			}
			lastFail = f
		}
		return err
	}

	if s.enum != nil {
		for _, c := range s.enum() {
			if err := one(c); err != nil {
				break
			}
		}
	} else {
		checks := opt.Checks
		if checks == 0 {
			checks = s.Quick
		}
		setFlag("rapid.checks", fmt.Sprint(checks))
		setFlag("rapid.seed", fmt.Sprint(mixSeed(opt.Seed, s.Prop+"/"+s.Name)))
		setFlag("rapid.nofailfile", "true")
		shr := opt.Shrink
		if shr == "" {
			shr = "10s"
		}
		setFlag("rapid.shrinktime", shr)
		t := &tb{name: s.Prop + "/" + s.Name}
		done := make(chan bool)
		go func() {
			defer close(done)
			rapid.Check(t, func(rt *rapid.T) {
				if firstFail == nil && !opt.Deadline.IsZero() && time.Now().After(opt.Deadline) {
					res.Cut = true
					return
				}
				c := s.gen(rt)
				if err := one(c); err != nil {
					rt.Fatalf("violated")
				}
			})
		}()
		<-done
		if t.failed && firstFail == nil {
			res.HarnessErr = strings.Join(t.log, "\n")
		}
		if firstFail == nil && !t.failed && !res.Cut && res.Evaluations < checks {
			res.HarnessErr = fmt.Sprintf("only %d of %d cases run", res.Evaluations, checks)
		}
	}

	if firstFail != nil {
		f := lastFail
		// the shrunk case must fail alone, otherwise fall back to the first failing one
		f.Alone = s.failsAlone(f.Case)
		if !f.Alone && s.failsAlone(firstFail.Case) {
			f = firstFail
			f.Alone = true
		}
		res.Failure = f
	}
	for k := range distinct {
		res.Distinct = append(res.Distinct, k)
	}
	sort.Slice(res.Distinct, func(i, j int) bool { return res.Distinct[i] < res.Distinct[j] })
	res.WallS = time.Since(start).Seconds()
	return res
}

func (s *Sub) failsAlone(raw []byte) bool {
	c, err := s.decode(raw)
	if err != nil {
		return false
	}
	return s.Run1(c, &Obs{}) != nil
}

// Replay runs the case of a replay file and returns its failure
func Replay(f *Failure, st *State) error {
	for _, s := range Subs(f.Property) {
		if s.Name != f.Sub {
			continue
		}
		c, err := s.decode(f.Case)
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		if st != nil {
			st.Put(s.Prop, s.Name, f.Case)
		}
		setActive(true)
		defer setActive(false)
		return s.Run1(c, &Obs{})
	}
	return fmt.Errorf("harness: no sub-check %s/%s", f.Property, f.Sub)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// InitFlags makes rapid's flags usable outside of go test
func InitFlags() {
	testing.Init()
	args := os.Args
	os.Args = args[:1]
	flag.CommandLine.Parse(nil)
	os.Args = args
}

// Enumerated tells whether the sub-check runs over a fixed enumeration
func (s *Sub) Enumerated() bool { return s.enum != nil }

// Count is the number of cases at a factor
func (s *Sub) Count(factor float64) int {
	n := int(float64(s.Quick) * factor)
	if n < 1 {
		n = 1
	}
	return n
}
