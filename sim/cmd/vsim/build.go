package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

// worker is the simulator, built around the current tree.
type worker struct {
	dir  string
	bin  string
	race bool
	ins  *instrumented
}

func buildWorker(dir string, race bool) (*worker, error) {
	var firstErr error
	for level := 1; level >= 0; level-- {
		w, err := buildLevel(dir, level, race)
		if err == nil {
			if firstErr != nil {
				w.ins.Note = "building with instrumentation failed, the library runs as it is: " + firstErr.Error()
				fmt.Println("note:", w.ins.Note)
			}
			return w, nil
		}
		if firstErr == nil {
			firstErr = err
		}
	}
	return nil, firstErr
}

func buildLevel(dir string, level int, race bool) (*worker, error) {
	sub := filepath.Join(dir, fmt.Sprintf("level%d", level))
	if err := os.MkdirAll(sub, 0o755); err != nil {
		return nil, err
	}
	ins, err := instrument(sub, level)
	if err != nil {
		return nil, err
	}
	overlay := map[string]string{}
	for k, v := range ins.Replace {
		overlay[k] = v
	}
	if race {
		if err := quietPools(sub, overlay); err != nil {
			return nil, err
		}
	}
	data, err := json.Marshal(map[string]any{"Replace": overlay})
	if err != nil {
		return nil, err
	}
	ov := filepath.Join(sub, "overlay.json")
	if err := os.WriteFile(ov, data, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(sub, "worker")
	args := []string{"test", "-c", "-overlay", ov, "-o", bin}
	if race {
		// the detector watches the library, not the clients
		args = append(args, "-race")
	}
	args = append(args, "./world")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifDir, "sim")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("building the simulator: %v\n%s", err, out.String())
	}
	return &worker{dir: sub, bin: bin, race: race, ins: ins}, nil
}

// quietPools makes the pools of the standard library (those of fmt, say) never hand out
// what was put into them, which they may do: under the race detector they do so at random,
// and what they do hand out orders the goroutines that share it. Neither chance nor these
// orders belong to the code under test, whose own pools are those of simsync.
func quietPools(dir string, overlay map[string]string) error {
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	file := filepath.Join(string(bytes.TrimSpace(root)), "src", "sync", "pool.go")
	src, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	drop := []byte("runtime_randn(4) == 0")
	if bytes.Count(src, drop) != 1 {
		return fmt.Errorf("%s is not as expected", file)
	}
	out := filepath.Join(dir, "sync_pool.go")
	overlay[file] = out
	return os.WriteFile(out, bytes.Replace(src, drop, []byte("true"), 1), 0o644)
}
