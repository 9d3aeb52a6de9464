package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/vsim"
)

const workers = 8

// Replay is the replay file.
type Replay struct {
	Property  string          `json:"property"`
	Class     string          `json:"class"`
	Message   string          `json:"message"`
	Seed      uint64          `json:"seed"`
	Index     uint64          `json:"index"`
	Minimised bool            `json:"minimised"`
	Original  int             `json:"original_bytes,omitempty"`
	Case      json.RawMessage `json:"case,omitempty"`
	// History: the violation shows only after the runs before it in the same process.
	From   uint64 `json:"from,omitempty"`
	Stride uint64 `json:"stride,omitempty"`
}

type workOut struct {
	Count     map[string]int64
	Faults    map[string]int64
	Steps     int64
	SimNs     int64
	Switches  int64
	Runs      uint64
	Samples   []json.RawMessage
	Viol      *Replay
	Capped    bool
	Races     int
	Last      uint64
	StackPeak int64
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	scratch := fs.String("scratch", "", "")
	verif := fs.String("verif", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	stride := fs.Uint64("stride", 1, "")
	n := fs.Uint64("n", 0, "")
	out := fs.String("out", "", "")
	secs := fs.Float64("secs", 0, "")
	idx := fs.Uint64("index", 0, "")
	fs.Parse(os.Args[2:])
	if cmd != "check" {
		go watchMemory()
	}
	switch cmd {
	case "check":
		os.Exit(parent(*id, *tier, *scratch, *verif))
	case "work":
		work(*id, *seed, *from, *stride, *n, *out, *secs)
	case "hash":
		c := checks[*id]
		rc := NewRC()
		for i := uint64(0); i < *n; i++ {
			_, v := c.runOne(*seed, *from+i, rc)
			fmt.Println(*from+i, rc.hash, v != nil)
		}
	case "gen":
		c := checks[*id]
		b, _ := json.Marshal(c.Gen(vsim.NewRand(caseSeed(*seed, c.ID, *idx))))
		fmt.Println(string(b))
	case "shrink":
		shrinkCmd(fs.Arg(0), *out, *secs)
	case "replay":
		os.Exit(replayCmd(fs.Arg(0)))
	case "rules": // for tools/mkdesign.py
		m := map[string]string{}
		for id, c := range checks {
			m[id] = c.Rule
		}
		b, _ := json.Marshal(m)
		fmt.Println(string(b))
	case "one":
		c := checks[*id]
		rc := NewRC()
		x, v := c.runOne(*seed, *idx, rc)
		b, _ := json.Marshal(x)
		fmt.Println(string(b))
		fmt.Println(rc.Count, rc.Discard, rc.Steps)
		if v != nil {
			fmt.Println("VIOLATION", v.Class, v.Msg)
		}
	default:
		os.Exit(2)
	}
}

// No run needs more than a fraction of this: the code under test does not stop allocating.
const memLimit = 3 << 30

func watchMemory() {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		metrics.Read(m)
		if m[0].Value.Uint64() > memLimit {
			fmt.Fprintln(os.Stderr, "fatal error: out of memory (more than 3 GB are in use)")
			os.Exit(97)
		}
	}
}

// ---- worker ----------------------------------------------------------------------

func work(id string, seed, from, stride, n uint64, out string, secs float64) {
	c := checks[id]
	if c == nil {
		os.Exit(2)
	}
	prog, err := os.OpenFile(out+".progress", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		os.Exit(2)
	}
	t0 := time.Now()
	rc := NewRC()
	w := &workOut{}
	var buf [8]byte
	for i := from; i < n; i += stride {
		binary.LittleEndian.PutUint64(buf[:], i)
		prog.WriteAt(buf[:], 0)
		w.Last = i
		x, v := c.runOne(seed, i, rc)
		w.Runs++
		if v != nil {
			if k := knownFor(id, v); k != "" {
				rc.add("known:"+k, 1)
				continue
			}
			b, _ := json.Marshal(x)
			w.Viol = &Replay{Property: id, Class: v.Class, Message: v.Msg, Seed: seed, Index: i, Case: b, From: from, Stride: stride}
			if c.SetTrace != nil && rc.Trace != nil {
				// the schedule as executed
				y, _ := c.Decode(b)
				c.SetTrace(y, rc.Trace)
				w.Viol.Case, _ = json.Marshal(y)
			}
			break
		}
		if rc.nontriv && len(w.Samples) < 2 && i%7 == from%7 {
			if b, err := json.Marshal(x); err == nil && len(b) < 4000 {
				w.Samples = append(w.Samples, b)
			}
		}
		if secs > 0 && time.Since(t0).Seconds() > secs {
			w.Capped = true
			break
		}
	}
	w.Count, w.Faults, w.Steps, w.SimNs, w.Switches = rc.Count, faultFired(), rc.Steps, rc.SimNs, rc.Switch
	w.Races = vsim.RaceErrors()
	f, err := os.Create(out)
	if err != nil {
		os.Exit(2)
	}
	b, err := json.Marshal(w)
	if err != nil {
		os.Exit(2)
	}
	f.Write(b)
	f.Close()
	h, _ := os.Create(out + ".hashes")
	bw := bufio.NewWriter(h)
	for k := range rc.Hashes {
		binary.LittleEndian.PutUint64(buf[:], k)
		bw.Write(buf[:])
	}
	bw.Flush()
	h.Close()
}

// ---- known findings ----------------------------------------------------------------

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // open | fixed
	Class    string `json:"class"`
	Match    string `json:"match"` // text the message contains
	What     string `json:"what"`
}

var findings []Finding

func loadFindings() {
	f := os.Getenv("VERIF_FINDINGS")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return
	}
	for _, l := range bytes.Split(b, []byte("\n")) {
		var x Finding
		if json.Unmarshal(l, &x) == nil && x.Status == "open" {
			findings = append(findings, x)
		}
	}
}

func init() { loadFindings() }

func knownFor(id string, v *Violation) string {
	for _, f := range findings {
		if f.Property == id && f.Class == v.Class && strings.Contains(v.Msg, f.Match) {
			return f.What
		}
	}
	return ""
}

// ---- parent ----------------------------------------------------------------------

func envSeed() uint64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			return v
		}
	}
	return 1
}

func self(env []string, limit time.Duration, args ...string) (string, int) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), env...)
	var buf bytes.Buffer
	lw := &limWriter{w: &buf, left: 1 << 20}
	cmd.Stdout, cmd.Stderr = lw, lw
	if err := cmd.Start(); err != nil {
		return err.Error(), 2
	}
	tm := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !tm.Stop() {
		return buf.String(), -1
	}
	if err == nil {
		return buf.String(), 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if c := ee.ExitCode(); c >= 0 {
			return buf.String(), c
		}
		return buf.String(), 99
	}
	return err.Error(), 2
}

type limWriter struct {
	w    io.Writer
	left int
	mu   sync.Mutex
}

func (l *limWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.left > 0 {
		q := p
		if len(q) > l.left {
			q = q[:l.left]
		}
		l.w.Write(q)
		l.left -= len(q)
	}
	return len(p), nil
}

func raceEnv(scratch string) []string {
	return []string{"GORACE=exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 log_path=" + filepath.Join(scratch, "race")}
}

func parent(id, tier, scratch, verif string) int {
	t0 := time.Now()
	c := checks[id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	os.Setenv("VERIF_FINDINGS", filepath.Join(verif, "known-findings.txt"))
	loadFindings()
	seed := envSeed()
	n := c.Quick
	wall := 240.0
	if tier == "thorough" {
		n, wall = c.Thorough, 700.0
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	fmt.Printf("%s %s seed=%d runs=%d workers=%d\n", id, tier, seed, n, workers)
	type res struct {
		out  *workOut
		log  string
		code int
		k    int
	}
	results := make([]res, workers)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			f := filepath.Join(scratch, fmt.Sprintf("w%d", k))
			log, code := self(append(raceEnv(scratch), "GOMAXPROCS=2"), time.Duration(wall+60)*time.Second, "work", "-id", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(k), "-stride", fmt.Sprint(workers), "-n", fmt.Sprint(n), "-out", f, "-secs", fmt.Sprint(wall))
			r := res{log: log, code: code, k: k}
			if b, err := os.ReadFile(f); err == nil && code == 0 {
				r.out = &workOut{}
				if json.Unmarshal(b, r.out) != nil {
					r.out = nil
				}
			}
			results[k] = r
		}()
	}
	wg.Wait()
	tot := &workOut{Count: map[string]int64{}, Faults: map[string]int64{}}
	hashes := map[uint64]struct{}{}
	var viols []*Replay
	capped := false
	for _, r := range results {
		if r.out == nil {
			continue
		}
		o := r.out
		for k, v := range o.Count {
			tot.Count[k] += v
		}
		for k, v := range o.Faults {
			tot.Faults[k] += v
		}
		tot.Steps += o.Steps
		tot.SimNs += o.SimNs
		tot.Switches += o.Switches
		tot.Runs += o.Runs
		tot.Samples = append(tot.Samples, o.Samples...)
		capped = capped || o.Capped
		if o.Viol != nil {
			viols = append(viols, o.Viol)
		}
		if hb, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("w%d.hashes", r.k))); err == nil {
			for j := 0; j+8 <= len(hb); j += 8 {
				hashes[binary.LittleEndian.Uint64(hb[j:])] = struct{}{}
			}
		}
	}
	trouble := ""
	for _, r := range results {
		if r.out != nil || len(viols) > 0 {
			continue
		}
		// the process died: which run was it?
		b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("w%d.progress", r.k)))
		if err != nil || len(b) != 8 {
			trouble = fmt.Sprintf("worker %d failed (code %d): %s", r.k, r.code, clip(r.log, 2000))
			continue
		}
		i := binary.LittleEndian.Uint64(b)
		log, code := self(append(raceEnv(scratch), "GOMAXPROCS=2"), 120*time.Second, "one", "-id", id, "-seed", fmt.Sprint(seed), "-index", fmt.Sprint(i))
		if code == 0 {
			trouble = fmt.Sprintf("worker %d died in run %d (code %d) but the run alone does not: %s", r.k, i, r.code, clip(r.log, 2000))
			continue
		}
		if code == -1 && r.code == -1 {
			// it did not end within its worker's time, nor alone
			log = "no end within two minutes"
		} else if !crashOfSUT(log, code) {
			trouble = fmt.Sprintf("run %d: machinery trouble (code %d): %s", i, code, clip(log, 3000))
			continue
		}
		cs, _ := self(nil, 60*time.Second, "gen", "-id", id, "-seed", fmt.Sprint(seed), "-index", fmt.Sprint(i))
		viols = append(viols, &Replay{Property: id, Class: "crash", Message: "the process died: " + firstLine(log), Seed: seed, Index: i, Case: json.RawMessage(strings.TrimSpace(cs))})
	}
	if trouble != "" && len(viols) == 0 {
		fmt.Fprintln(os.Stderr, trouble)
		return 2
	}

	simWall := time.Since(t0).Seconds()
	// determinism audit
	audit := "not run"
	auditBad := 0
	if len(viols) == 0 {
		m := uint64(40)
		if tier == "thorough" {
			m = 200
		}
		var outs [3]string
		var aw sync.WaitGroup
		for j, p := range []string{"1", "8", "3"} {
			j, p := j, p
			aw.Add(1)
			go func() {
				defer aw.Done()
				outs[j], _ = self(append(raceEnv(scratch), "GOMAXPROCS="+p), 100*time.Second, "hash", "-id", id, "-seed", fmt.Sprint(seed), "-from", "0", "-n", fmt.Sprint(m))
			}()
		}
		aw.Wait()
		l0 := strings.Split(outs[0], "\n")
		for j := 1; j < 3; j++ {
			lj := strings.Split(outs[j], "\n")
			for q := range l0 {
				if q >= len(lj) || lj[q] != l0[q] {
					auditBad++
				}
			}
		}
		audit = fmt.Sprintf("%d runs repeated in 3 processes with 1, 3 and 8 processors: %d differ", m, auditBad)
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	ret := 0
	var replayPath string
	if len(viols) > 0 {
		ret = 1
		replayPath = report(c, viols[0], scratch, verif, tier)
		if replayPath == "" {
			ret = 2
		}
	}
	for _, k := range keys(tot.Count) {
		if strings.HasPrefix(k, "known:") {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k[6:])
		}
	}
	writeEvidence(c, tier, seed, verif, tot, len(hashes), audit, auditBad, capped, len(viols), simWall, time.Since(t0).Seconds())
	fmt.Printf("%s: %d runs (%d discarded), %d non-trivial, %d distinct, %d steps, %.1fs; faults %v; audit: %s\n", id, tot.Count["runs"], tot.Count["discarded"], tot.Count["nontrivial"], len(hashes), tot.Steps, time.Since(t0).Seconds(), tot.Faults, audit)
	if ret == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
	}
	return ret
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "goroutine stack exceeds") || strings.Contains(l, "SIGSEGV") {
			return clip(l, 300)
		}
	}
	return clip(s, 200)
}

// crashOfSUT: the process was ended by the Go runtime (not by a bug of the harness).
func crashOfSUT(log string, code int) bool {
	if code == -1 {
		return false
	}
	if strings.Contains(log, "fatal error: stack overflow") || strings.Contains(log, "goroutine stack exceeds") || strings.Contains(log, "concurrent map") || strings.Contains(log, "SIGSEGV") || strings.Contains(log, "all goroutines are asleep") || strings.Contains(log, "out of memory") {
		return true
	}
	return false
}

func report(c *Check, v *Replay, scratch, verif, tier string) string {
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return ""
	}
	v.Original = len(v.Case)
	raw := filepath.Join(scratch, "case.json")
	writeReplay(raw, v)
	secs := 45.0
	if tier == "thorough" {
		secs = 90
	}
	name := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", v.Property, v.Seed, v.Index))
	cand := []string{}
	if v.Class != "crash" {
		min := filepath.Join(scratch, "min.json")
		log, code := self(append(raceEnv(scratch), "GOMAXPROCS=2"), time.Duration(secs+60)*time.Second, "shrink", "-out", min, "-secs", fmt.Sprint(secs), raw)
		if _, err := os.Stat(min); err == nil {
			cand = append(cand, min)
		} else {
			fmt.Fprintf(os.Stderr, "minimising ended with %d: %s\n", code, clip(log, 500))
		}
	}
	cand = append(cand, raw)
	for _, f := range cand {
		log, code := self(append(raceEnv(scratch), "GOMAXPROCS=2"), 120*time.Second, "replay", f)
		if code == 1 || v.Class == "crash" && (code == -1 || crashOfSUT(log, code)) {
			b, _ := os.ReadFile(f)
			if os.WriteFile(name, b, 0o644) != nil {
				return ""
			}
			var w Replay
			json.Unmarshal(b, &w)
			fmt.Printf("violation class %s, run %d of seed %d: %s\n", w.Class, w.Index, w.Seed, w.Message)
			fmt.Printf("replay: %s/check.sh replay %s (case %d bytes, was %d)\n", verif, name, len(w.Case), v.Original)
			return name
		}
	}
	if v.Class != "crash" && v.Stride > 0 {
		h := *v
		h.Case = nil
		f := filepath.Join(scratch, "hist.json")
		writeReplay(f, &h)
		if _, code := self(append(raceEnv(scratch), "GOMAXPROCS=2"), 300*time.Second, "replay", f); code == 1 {
			b, _ := os.ReadFile(f)
			os.WriteFile(name, b, 0o644)
			fmt.Printf("violation class %s, run %d of seed %d (only after the runs before it): %s\n", v.Class, v.Index, v.Seed, v.Message)
			return name
		}
	}
	fmt.Fprintf(os.Stderr, "run %d: %s: %s: does not replay; nothing is claimed\n", v.Index, v.Class, v.Message)
	return ""
}

func writeReplay(f string, v *Replay) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(f, append(b, '\n'), 0o644)
}

func replayCmd(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Replay
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := checks[v.Property]
	if c == nil {
		return 2
	}
	rc := NewRC()
	if len(v.Case) == 0 {
		for i := v.From; i <= v.Index; i += v.Stride {
			_, w := c.runOne(v.Seed, i, rc)
			if w != nil {
				fmt.Printf("run %d: %s: %s\n", i, w.Class, w.Msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, f)
				return 1
			}
		}
		return 0
	}
	x, err := c.Decode(v.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w := c.exec(x, rc)
	if w == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\n", w.Class, w.Msg)
	if w.Class != v.Class {
		fmt.Printf("(the file says class %s)\n", v.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, f)
	return 1
}

// ---- minimisation ------------------------------------------------------------------

func shrinkCmd(in, out string, secs float64) {
	b, err := os.ReadFile(in)
	if err != nil {
		os.Exit(2)
	}
	var v Replay
	if json.Unmarshal(b, &v) != nil {
		os.Exit(2)
	}
	c := checks[v.Property]
	rc := NewRC()
	var last *Violation
	var lastTrace []vsim.Preempt
	try := func(cs []byte) (good bool) {
		defer func() {
			if recover() != nil {
				good = false
			}
		}()
		x, err := c.Decode(cs)
		if err != nil {
			return false
		}
		w := c.exec(x, rc)
		lastTrace = rc.Trace
		if w != nil && w.Class == v.Class && knownFor(v.Property, w) == "" {
			last = w
			return true
		}
		return false
	}
	cur := []byte(v.Case)
	if !try(cur) {
		os.Exit(3)
	}
	v.Message = last.Msg
	save := func() {
		v.Case = cur
		v.Minimised = true
		writeReplay(out, &v)
	}
	save()
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	cur = minimise(cur, deadline, func(cs []byte) bool {
		if !try(cs) {
			return false
		}
		cur = cs
		v.Message = last.Msg
		save()
		return true
	})
	_ = lastTrace
	save()
}

// minimise shrinks a JSON value while ok holds.
func minimise(cs []byte, deadline time.Time, ok func([]byte) bool) []byte {
	cur := decodeAny(cs)
	for round := 0; round < 12; round++ {
		before := string(encodeAny(cur))
		cur = shrinkAt(cur, func(x interface{}) bool {
			if time.Now().After(deadline) {
				return false
			}
			return ok(encodeAny(x))
		}, deadline)
		if string(encodeAny(cur)) == before || time.Now().After(deadline) {
			break
		}
	}
	return encodeAny(cur)
}

func decodeAny(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	d.Decode(&x)
	return x
}

func encodeAny(x interface{}) []byte {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	e.Encode(x)
	return bytes.TrimSpace(buf.Bytes())
}

// shrinkAt simplifies root in place, node by node.
func shrinkAt(root interface{}, ok func(interface{}) bool, deadline time.Time) interface{} {
	// set(v) replaces the node within the tree
	var walk func(get func() interface{}, set func(interface{}))
	walk = func(get func() interface{}, set func(interface{})) {
		if time.Now().After(deadline) {
			return
		}
		try := func(v interface{}) bool {
			old := get()
			set(v)
			if ok(root) {
				return true
			}
			set(old)
			return false
		}
		switch get().(type) {
		case []interface{}:
			// drop chunks
			for sz := len(get().([]interface{})); sz >= 1; sz /= 2 {
				for i := 0; ; {
					a := get().([]interface{})
					if i >= len(a) {
						break
					}
					j := i + sz
					if j > len(a) {
						j = len(a)
					}
					nb := append(append([]interface{}{}, a[:i]...), a[j:]...)
					if !try(nb) {
						i += sz
					}
					if time.Now().After(deadline) {
						return
					}
				}
			}
			a := get().([]interface{})
			for i := range a {
				i := i
				walk(func() interface{} { return get().([]interface{})[i] }, func(v interface{}) { get().([]interface{})[i] = v })
			}
		case map[string]interface{}:
			m := get().(map[string]interface{})
			// a grammar node may be replaced by one of its children
			if c, isNode := m["c"].([]interface{}); isNode {
				for _, x := range c {
					if try(x) {
						walk(get, set)
						return
					}
				}
			}
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				k := k
				if _, here := m[k]; !here {
					continue
				}
				nm := map[string]interface{}{}
				for q, v := range m {
					if q != k {
						nm[q] = v
					}
				}
				if try(nm) {
					m = nm
					continue
				}
				walk(func() interface{} { return get().(map[string]interface{})[k] }, func(v interface{}) { get().(map[string]interface{})[k] = v })
				m = get().(map[string]interface{})
			}
		case string:
			s := get().(string)
			if len(s) == 0 {
				return
			}
			rs := []rune(s)
			for sz := len(rs); sz >= 1; sz /= 2 {
				for i := 0; i < len(rs); {
					j := i + sz
					if j > len(rs) {
						j = len(rs)
					}
					nr := append(append([]rune{}, rs[:i]...), rs[j:]...)
					if try(string(nr)) {
						rs = nr
					} else {
						i += sz
					}
				}
			}
		case json.Number:
			n, err := get().(json.Number).Int64()
			if err != nil {
				return
			}
			if n == 0 {
				return
			}
			for _, c := range []int64{0, 1, n / 2, n - 1} {
				if n < 0 {
					if c == n-1 {
						c = n + 1
					}
				}
				if c != n && (c >= 0) == (n >= 0 || c == 0) && abs(c) < abs(n) {
					if try(json.Number(strconv.FormatInt(c, 10))) {
						if c != 0 {
							walk(get, set)
						}
						return
					}
				}
			}
		case bool:
			if get().(bool) {
				try(false)
			}
		}
	}
	walk(func() interface{} { return root }, func(v interface{}) { root = v })
	return root
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// ---- evidence ----------------------------------------------------------------------

func writeEvidence(c *Check, tier string, seed uint64, verif string, t *workOut, distinct int, audit string, auditBad int, capped bool, viols int, simWall, wall float64) {
	var samples []interface{}
	for i, s := range t.Samples {
		if i >= 4 {
			break
		}
		samples = append(samples, s)
	}
	counts := map[string]int64{}
	for k, v := range t.Count {
		counts[k] = v
	}
	runs := t.Count["runs"]
	cov := map[string]interface{}{
		"evaluations":          runs,
		"distinct_nontrivial":  distinct,
		"rule":                 c.Rule,
		"samples":              samples,
		"discarded":            t.Count["discarded"],
		"runs_per_hour":        int64(float64(runs) / simWall * 3600),
		"seeds_per_hour":       int64(float64(runs) / simWall * 3600),
		"simulated_seconds":    float64(t.SimNs) / 1e9,
		"scheduling_points":    t.Steps,
		"context_switches":     t.Switches,
		"faults_fired":         t.Faults,
		"counters":             counts,
		"distinct_measure":     "hash of the run's sequence of context switches (task, statement, step) and of what the property observed; discarded and trivial runs are not counted",
		"determinism_audit":    audit,
		"audit_differences":    auditBad,
		"stopped_by_wall_time": capped,
		"real_components":      c.Real,
		"stub_components":      c.Stub,
		"go":                   runtime.Version(),
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viols,
		"assumptions": []string{"Sampling: the runs above were executed, no others.", "The instrumenter (statement-level scheduling points; sync, time, math/rand, maps, channels and go statements redirected to the simulator) does not change what the code computes."},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
}
