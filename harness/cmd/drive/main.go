// drive runs the code under test along plans computed from the TLA+ specifications and
// compares what it observes with what the specification expects.
//
//	drive MODE ARGS...   (see the individual files)
//
// Findings go to the file named by $VERIF_REPORT, one JSON object per line:
//
//	{"kind":"violation","what":...,"detail":...}
//	{"kind":"base", ...}      mismatch seen before the feature under test was exercised
//	{"kind":"summary", ...}   counters
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

type Report struct {
	mu       sync.Mutex
	f        *os.File
	counts   map[string]int64
	nviol    int
	samples  []interface{}
	armed    bool
	lastBeat time.Time
	where    string
	only     map[string]bool // when set, only these kinds of deviations count
}

var rep *Report

func (r *Report) line(v interface{}) {
	bz, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	r.f.Write(append(bz, '\n'))
}

// Viol records a mismatch between the code and the specification.
func (r *Report) Viol(what, format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.only) > 0 && !r.only[what] {
		r.counts["deviations_of_other_kinds"]++
		return
	}
	kind := "violation"
	if !r.armed {
		kind = "base"
	}
	r.nviol++
	if r.nviol <= 20 {
		r.line(map[string]interface{}{"kind": kind, "what": what, "at": r.where, "detail": fmt.Sprintf(format, a...)})
	}
}

// Known reports a deviation that a listed known finding describes; the run goes on.
func (r *Report) Known(what, format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts["known_deviations"]++
	if r.counts["known_deviations"] == 1 && r.armed {
		r.line(map[string]interface{}{"kind": "violation", "what": what, "at": r.where, "detail": fmt.Sprintf(format, a...)})
	}
}

func (r *Report) Add(name string, n int64) {
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}

// At notes progress: where we are, for crash attribution and the watchdog.
func (r *Report) At(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.where = fmt.Sprintf(format, a...)
	r.lastBeat = time.Now()
	if r.f != nil {
		r.f.WriteAt([]byte(fmt.Sprintf("%-200s\n", fmt.Sprintf(`{"kind":"at","armed":%v,"where":%q}`, r.armed, trunc(r.where, 120)))), 0)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (r *Report) Arm() { r.mu.Lock(); r.armed = true; r.mu.Unlock() }

func (r *Report) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.line(map[string]interface{}{"kind": "summary", "violations": r.nviol, "armed": r.armed,
		"counts": r.counts, "samples": r.samples})
	r.f.Close()
	if r.nviol > 0 {
		os.Exit(10)
	}
	os.Exit(0)
}

func (r *Report) Sample(v interface{}) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

var modes = map[string]func(args []string){}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		debug.PrintStack()
		os.Exit(3)
	}
}

func main() {
	rep = &Report{counts: map[string]int64{}, lastBeat: time.Now()}
	if p := os.Getenv("VERIF_REPORT"); p != "" {
		f, err := os.Create(p)
		must(err)
		f.WriteString(fmt.Sprintf("%-200s\n", `{"kind":"at","armed":false,"where":"start"}`))
		f.Close()
		f, err = os.OpenFile(p, os.O_RDWR, 0644)
		must(err)
		f.Seek(0, 2)
		rep.f = f
	} else {
		rep.f = os.Stderr
	}
	if rep.f != os.Stderr { // the code under test is chatty
		null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		must(err)
		os.Stdout = null
	}
	limit := 120 * time.Second
	if s := os.Getenv("VERIF_STALL"); s != "" {
		d, err := time.ParseDuration(s)
		must(err)
		limit = d
	}
	go func() { // watchdog: no progress for a very long time is a hang
		for {
			time.Sleep(time.Second)
			rep.mu.Lock()
			stalled := time.Since(rep.lastBeat) > limit
			rep.mu.Unlock()
			if stalled {
				fmt.Fprintln(os.Stderr, "VERIF-STALL")
				debug.SetTraceback("all")
				panic("VERIF-STALL: no progress")
			}
		}
	}()
	f, ok := modes[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR: unknown mode", os.Args[1])
		os.Exit(3)
	}
	f(os.Args[2:])
	rep.Finish()
}
