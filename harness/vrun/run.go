// Package vrun runs monitored cases: it shards them, attributes panics, crashes and
// hangs to a case, and counts what was observed.
package vrun

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Violation struct {
	Case   string `json:"case"`
	Msg    string `json:"msg"`
	Detail any    `json:"detail,omitempty"`
}

type Result struct {
	Evaluations int64             `json:"evaluations"`
	Distinct    []uint64          `json:"distinct"`
	Samples     []any             `json:"samples"`
	Counters    map[string]int64  `json:"counters"`
	Violations  []Violation       `json:"violations"`
	Known       map[string]string `json:"known"`
	Done        bool              `json:"done"`
}

type Run struct {
	Prop, Tier    string
	Seed          uint64
	Shard, Shards int
	Only          string
	Args          map[string]string

	mu       sync.Mutex
	res      Result
	distinct map[uint64]bool
	n        int
	progress *os.File
	started  atomic.Int64
	cur      atomic.Pointer[string]
	out      string
	known    map[string]bool
	verbose  bool
	here     bool
}

type Case struct {
	R     *Run
	ID    string
	Fail_ bool
}

func New() *Run {
	r := &Run{distinct: map[uint64]bool{}, Args: map[string]string{}}
	r.res.Counters = map[string]int64{}
	r.res.Known = map[string]string{}
	var shard, prog, args, known string
	flag.StringVar(&r.Prop, "prop", "", "property id")
	flag.StringVar(&r.Tier, "tier", "quick", "quick or thorough")
	flag.Uint64Var(&r.Seed, "seed", 1, "seed")
	flag.StringVar(&shard, "shard", "0/1", "i/n")
	flag.StringVar(&r.Only, "only", "", "run one case")
	flag.StringVar(&r.out, "out", "", "result file")
	flag.StringVar(&prog, "progress", "", "progress file")
	flag.StringVar(&args, "args", "", "k=v,k=v")
	flag.StringVar(&known, "known", "", "comma separated known finding keys")
	flag.BoolVar(&r.verbose, "v", false, "")
	flag.Parse()
	fmt.Sscanf(shard, "%d/%d", &r.Shard, &r.Shards)
	if prog != "" {
		f, err := os.Create(prog)
		if err != nil {
			panic(err)
		}
		r.progress = f
	}
	for _, kv := range strings.Split(args, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			r.Args[k] = v
		}
	}
	r.known = map[string]bool{}
	for _, k := range strings.Split(known, ",") {
		if k != "" {
			r.known[k] = true
		}
	}
	go r.watchdog()
	return r
}

const hangSeconds = 150

func (r *Run) watchdog() {
	for {
		time.Sleep(5 * time.Second)
		t := r.started.Load()
		if t != 0 && time.Now().UnixNano()-t > hangSeconds*1e9 {
			fmt.Fprintf(os.Stderr, "HANG: a case runs for more than %d s\n", hangSeconds)
			debug.SetTraceback("all")
			os.Exit(7)
		}
	}
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Scale picks a count by tier.
func (r *Run) Scale(quick, thorough int) int {
	n := quick
	if m, _ := strconv.Atoi(r.Args["mul"]); m > 1 {
		n = min(n*m, max(n, thorough))
	}
	if r.Thorough() {
		n = thorough
	}
	if d, _ := strconv.Atoi(r.Args["div"]); d > 1 && n > d { // slow builds do less
		n /= d
	}
	return n
}

// Do runs one case if it belongs to this shard.
func (r *Run) Do(id string, fn func(c *Case)) {
	r.n++
	if r.Only != "" {
		if id != r.Only {
			return
		}
	} else if !r.here && r.n%r.Shards != r.Shard {
		return
	}
	if n := len(r.res.Violations); n >= 3 || n > 0 && time.Since(started) > 3*time.Minute {
		return
	}
	if r.progress != nil {
		var b [200]byte
		for i := range b {
			b[i] = ' '
		}
		copy(b[:], id)
		b[199] = '\n'
		r.progress.WriteAt(b[:], 0)
	}
	c := &Case{R: r, ID: id}
	r.started.Store(time.Now().UnixNano())
	func() {
		defer func() {
			if e := recover(); e != nil {
				if e == errStop {
					return
				}
				c.fail(fmt.Sprintf("panic: %v", e), string(debug.Stack()))
			}
		}()
		fn(c)
	}()
	r.started.Store(0)
	r.res.Evaluations++
}

var errStop = fmt.Errorf("case stopped")

func (c *Case) fail(msg string, detail any) {
	r := c.R
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	r.res.Violations = append(r.res.Violations, Violation{Case: c.ID, Msg: msg, Detail: detail})
	if r.verbose {
		fmt.Fprintf(os.Stderr, "FAIL %s: %s\n%v\n", c.ID, msg, detail)
	}
}

// DoHere runs one case in every shard; its name must tell the shard.
func (r *Run) DoHere(id string, fn func(c *Case)) {
	r.here = true
	r.Do(id, fn)
	r.here = false
}

var started = time.Now()

// Fail records a violation and ends the case.
func (c *Case) Fail(format string, a ...any) {
	c.FailD(nil, format, a...)
}

// FailD is Fail with extra data for the replay file.
func (c *Case) FailD(detail any, format string, a ...any) {
	c.fail(fmt.Sprintf(format, a...), detail)
	panic(errStop)
}

// Error records a violation from any goroutine and goes on.
func (c *Case) Error(format string, a ...any) { c.fail(fmt.Sprintf(format, a...), nil) }

// ErrorD is Error with extra data for the replay file.
func (c *Case) ErrorD(detail any, format string, a ...any) { c.fail(fmt.Sprintf(format, a...), detail) }

// Known reports a known finding (listed in the known-findings file); if the key
// is not listed it is a violation.
func (c *Case) Known(key, format string, a ...any) {
	r := c.R
	msg := fmt.Sprintf(format, a...)
	if !r.known[key] {
		c.fail(fmt.Sprintf("%s: %s", key, msg), nil)
		return
	}
	r.mu.Lock()
	r.res.Known[key] = msg
	r.mu.Unlock()
}

// Seen counts a distinct non-trivial execution by its fingerprint.
func (c *Case) Seen(fp ...string) {
	h := fnv.New64a()
	for _, s := range fp {
		h.Write([]byte(s))
		h.Write([]byte{0})
	}
	c.R.mu.Lock()
	c.R.distinct[h.Sum64()] = true
	c.R.mu.Unlock()
}

// Add counts observed events.
func (c *Case) Add(counter string, n int) {
	c.R.mu.Lock()
	c.R.res.Counters[counter] += int64(n)
	c.R.mu.Unlock()
}

// Eval counts additional evaluations within one case.
func (c *Case) Eval(n int) {
	c.R.mu.Lock()
	c.R.res.Evaluations += int64(n)
	c.R.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (c *Case) Sample(x any) {
	c.R.mu.Lock()
	if len(c.R.res.Samples) < 2 {
		c.R.res.Samples = append(c.R.res.Samples, map[string]any{"case": c.ID, "what": x})
	}
	c.R.mu.Unlock()
}

func (c *Case) WantSample() bool {
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	return len(c.R.res.Samples) < 2
}

func (r *Run) Finish() {
	for h := range r.distinct {
		r.res.Distinct = append(r.res.Distinct, h)
	}
	sort.Slice(r.res.Distinct, func(i, j int) bool { return r.res.Distinct[i] < r.res.Distinct[j] })
	r.res.Done = true
	b, err := json.Marshal(&r.res)
	if err != nil {
		panic(err)
	}
	if r.out != "" {
		if err := os.WriteFile(r.out, b, 0o644); err != nil {
			panic(err)
		}
	} else {
		for _, v := range r.res.Violations {
			fmt.Printf("VIOL %s: %s\n", v.Case, v.Msg)
			if s, ok := v.Detail.(string); ok && r.verbose {
				fmt.Println(s)
			}
		}
		fmt.Printf("evaluations=%d distinct=%d counters=%v violations=%d\n", r.res.Evaluations, len(r.distinct), r.res.Counters, len(r.res.Violations))
	}
}

// Violated reports whether anything failed so far.
func (r *Run) Violated() bool { return len(r.res.Violations) > 0 }

// Max keeps the largest value seen; the name must start with max_.
func (c *Case) Max(counter string, n int64) {
	c.R.mu.Lock()
	if n > c.R.res.Counters[counter] {
		c.R.res.Counters[counter] = n
	}
	c.R.mu.Unlock()
}

// Count counts observed events outside of cases.
func (r *Run) Count(counter string, n int64) {
	r.mu.Lock()
	r.res.Counters[counter] += n
	r.mu.Unlock()
}

// CountMax keeps the largest value seen outside of cases; the name must start with max_.
func (r *Run) CountMax(counter string, n int64) {
	r.mu.Lock()
	if n > r.res.Counters[counter] {
		r.res.Counters[counter] = n
	}
	r.mu.Unlock()
}
