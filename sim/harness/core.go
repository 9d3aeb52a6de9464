package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"verif.local/vsim"
)

type Rand = vsim.Rand

// Violation: Class is stable under minimisation, Msg is for people.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func viol(class, f string, a ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(f, a...)}
}

// RC collects what a run did; it is also the way a run reports the schedule that was
// actually executed, so that it can be replayed and minimised.
type RC struct {
	Count     map[string]int64
	Hashes    map[uint64]struct{}
	Steps     int64
	SimNs     int64
	Switch    int64
	Trace     []vsim.Preempt // of the last concurrent run
	Discard   bool
	hash      uint64
	nontriv   bool
	Samples   []string
	shrinking bool
}

func NewRC() *RC { return &RC{Count: map[string]int64{}, Hashes: map[uint64]struct{}{}} }

func (rc *RC) add(k string, n int64) { rc.Count[k] += n }

// sim accounts for one finished simulated execution.
func (rc *RC) sim(s *vsim.Sim) {
	rc.Steps += s.Steps
	rc.SimNs += s.SimTime()
	rc.Switch += s.Switches
	rc.hash = vsim.Mix(rc.hash, s.Hash, uint64(s.Steps))
}

// note mixes an observation into the run's identity.
func (rc *RC) note(xs ...interface{}) {
	h := rc.hash
	for _, x := range xs {
		for _, c := range []byte(fmt.Sprint(x)) {
			h = (h ^ uint64(c)) * 0x100000001b3
		}
		h = h*31 + 7
	}
	rc.hash = h
}

// trivial marks the run as exploring nothing (still counted as an evaluation).
func (rc *RC) nontrivial() { rc.nontriv = true }

type Sched struct {
	Seed   uint64         `json:"seed,omitempty"`
	Kind   string         `json:"kind,omitempty"`
	P      float64        `json:"p,omitempty"`
	K      int            `json:"k,omitempty"`
	Len    int            `json:"len,omitempty"`
	Replay bool           `json:"replay,omitempty"`
	Trace  []vsim.Preempt `json:"trace,omitempty"`
}

func (s Sched) config(max int64) vsim.Config {
	return vsim.Config{Seed: s.Seed, Policy: vsim.Policy{Kind: s.Kind, P: s.P, K: s.K, Len: s.Len}, Replay: s.Replay, Trace: s.Trace, MaxSteps: max}
}

func genSched(r *Rand) Sched {
	s := Sched{Seed: r.U64() >> 12}
	switch r.Intn(13) {
	case 0:
		s.Kind, s.P = "rand", 0.5
	case 1, 2:
		s.Kind, s.P = "rand", 0.1
	case 3, 4:
		s.Kind, s.P = "rand", 0.02
	case 5:
		s.Kind, s.P = "hot", 0.5
	case 6, 7:
		s.Kind, s.K, s.Len = "pct", 1+r.Intn(4), 200<<r.Intn(6)
	case 8:
		s.Kind, s.K = "rr", 1+r.Intn(12)
	case 9, 10, 11:
		s.Kind, s.K = "site", pick(r, 10, 30, 100, 300)
	default:
		s.Kind, s.P = "rand", 0.004
	}
	return s
}

type Check struct {
	ID       string
	Race     bool
	Quick    int // runs
	Thorough int
	Gen      func(r *Rand) interface{}
	Decode   func(b []byte) (interface{}, error)
	Run      func(c interface{}, rc *RC) *Violation
	SetTrace func(c interface{}, tr []vsim.Preempt)
	Rule     string
	Real     []string
	Stub     []string
	Unit     string
}

var checks = map[string]*Check{}

func reg[T any](id string, quick, thorough int, gen func(r *Rand) *T, run func(c *T, rc *RC) *Violation, sched func(c *T) *Sched, rule string) *Check {
	c := &Check{ID: id, Quick: quick, Thorough: thorough, Rule: rule}
	c.Gen = func(r *Rand) interface{} { return gen(r) }
	c.Decode = func(b []byte) (interface{}, error) {
		x := new(T)
		err := json.Unmarshal(b, x)
		return x, err
	}
	c.Run = func(x interface{}, rc *RC) *Violation { return run(x.(*T), rc) }
	if sched != nil {
		c.SetTrace = func(x interface{}, tr []vsim.Preempt) {
			s := sched(x.(*T))
			s.Replay, s.Trace, s.Kind, s.P, s.K, s.Len = true, tr, "", 0, 0, 0
		}
	}
	checks[id] = c
	return c
}

func caseSeed(seed uint64, id string, i uint64) uint64 {
	h := uint64(0)
	for _, c := range []byte(id) {
		h = h*131 + uint64(c)
	}
	return vsim.Mix(seed, h, i)
}

// runOne executes run number i of a check.
func (c *Check) runOne(seed uint64, i uint64, rc *RC) (interface{}, *Violation) {
	r := vsim.NewRand(caseSeed(seed, c.ID, i))
	x := c.Gen(r)
	return x, c.exec(x, rc)
}

func (c *Check) exec(x interface{}, rc *RC) *Violation {
	rc.hash, rc.nontriv, rc.Discard, rc.Trace = 0, false, false, nil
	v := c.guarded(x, rc)
	if rc.Discard && v == nil {
		rc.add("discarded", 1)
		return nil
	}
	rc.add("runs", 1)
	if rc.nontriv {
		rc.add("nontrivial", 1)
		if len(rc.Hashes) < 400000 {
			rc.Hashes[rc.hash] = struct{}{}
		}
	}
	return v
}

// badCase: a case that cannot be set up (only minimisation makes such cases).
type badCase string

func (c *Check) guarded(x interface{}, rc *RC) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(badCase); ok {
				rc.Discard, v = true, nil
				return
			}
			panic(r)
		}
	}()
	return c.Run(x, rc)
}

func keys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func diffLines(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<none>", "<none>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("entry %d: %s  vs  %s", i, clip(x, 300), clip(y, 300))
		}
	}
	return ""
}

func join(xs []string) string { return strings.Join(xs, "\n") }
