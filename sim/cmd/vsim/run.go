package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	"verif.local/sim/world"
)

var reqCount atomic.Int64

// result of a worker process.
type result struct {
	res      *world.Response
	crash    string // class of the crash: race, crash
	message  string
	progress uint64 // seed or index it was at
	trouble  string
}

// stall is how long a worker may go without progress before it is stopped. That is no
// verdict: endless loops are found by counting steps.
const stall = 120 * time.Second

// serve runs a request in a process of its own.
func (w *worker) serve(req *world.Request) *result { return w.serveEnv(req) }

func (w *worker) serveEnv(req *world.Request, env ...string) *result {
	id := reqCount.Add(1)
	base := filepath.Join(w.dir, fmt.Sprintf("r%d", id))
	req.Progress, req.Out = base+".progress", base+".out"
	defer func() {
		for _, s := range []string{".req", ".progress", ".out", ".out.tmp"} {
			os.Remove(base + s)
		}
	}()
	data, err := json.Marshal(req)
	if err != nil {
		return &result{trouble: err.Error()}
	}
	if err := os.WriteFile(base+".req", data, 0o644); err != nil {
		return &result{trouble: err.Error()}
	}
	cmd := exec.Command(w.bin, "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Dir = w.dir
	cmd.Env = append(os.Environ(), "VSIM_REQUEST="+base+".req", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1",
		"GORACE=halt_on_error=1 exitcode=66 history_size=2", "GOTRACEBACK=single", "GOGC=200", "TZ=UTC")
	cmd.Env = append(cmd.Env, env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limited{b: &out}, &limited{b: &out}
	if err := cmd.Start(); err != nil {
		return &result{trouble: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	read := func() uint64 {
		b, err := os.ReadFile(req.Progress)
		if err != nil || len(b) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint64(b)
	}
	last, since := uint64(0), time.Now()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-tick.C:
			if n := read(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > stall {
				cmd.Process.Kill()
				<-done
				return &result{trouble: fmt.Sprintf("a worker made no progress for %v at %d", stall, int64(last)-1), progress: last - 1}
			}
			continue
		case err = <-done:
		}
		break
	}
	r := &result{progress: read() - 1}
	if data, rerr := os.ReadFile(req.Out); rerr == nil && err == nil {
		r.res = new(world.Response)
		if err := json.Unmarshal(data, r.res); err != nil {
			return &result{trouble: err.Error()}
		}
		return r
	}
	text := out.String()
	switch {
	case strings.Contains(text, "WARNING: DATA RACE"):
		r.crash, r.message = "race", world.CleanStack(raceReport(text))
		if !raceInLibrary(text) {
			r.crash = ""
			r.trouble = "a data race outside of the library:\n" + text
		}
	case strings.Contains(text, "fatal error: stack overflow"):
		r.crash, r.message = "crash", recursion(text)
	case strings.Contains(text, "fatal error: ") && inLibrary(text), strings.Contains(text, "panic: ") && inLibrary(text):
		r.crash, r.message = "crash", world.CleanStack(head(text, 2500))
	default:
		r.trouble = fmt.Sprintf("a worker failed: %v\n%s", err, head(text, 4000))
	}
	return r
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if room := 1<<18 - l.b.Len(); room > 0 {
		l.b.Write(p[:min(room, len(p))])
	}
	return len(p), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

var libFrame = regexp.MustCompile(`(?m)^(github\.com/qjebbs/go-sqlf/v2\S*)\(`)

// recursion describes a stack overflow by the functions that were called over and over.
func recursion(text string) string {
	count := map[string]int{}
	for _, m := range libFrame.FindAllStringSubmatch(head(text, 1<<17), -1) {
		count[m[1]]++
	}
	var fns []string
	for _, f := range sortedKeys(count) {
		if count[f] > 3 {
			fns = append(fns, f)
		}
	}
	return "fatal error: stack overflow, endless recursion of\n" + strings.Join(fns, "\n")
}

func inLibrary(text string) bool { return strings.Contains(text, "github.com/qjebbs/go-sqlf/v2") }

var raceStart = regexp.MustCompile(`(?s)WARNING: DATA RACE\n(.*?)\n={10,}`)

func raceReport(text string) string {
	if m := raceStart.FindString(text); m != "" {
		return head(m, 6000)
	}
	return head(text, 6000)
}

// raceInLibrary: both accesses happen below functions of the library.
func raceInLibrary(text string) bool {
	rep := raceReport(text)
	parts := regexp.MustCompile(`(?m)^(?:Read|Write|Previous read|Previous write|Goroutine) .*$`).Split(rep, -1)
	n := 0
	for i, p := range parts {
		if i == 0 || i > 2 {
			continue
		}
		if inLibrary(p) {
			n++
		}
	}
	return n >= 1
}
