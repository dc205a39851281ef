// Command vsim builds the simulator around the current tree of /repo, searches seeds for a
// violation of a property, minimises and replays what it finds, and writes the evidence.
//
//	vsim check PROPERTY [quick|thorough]
//	vsim replay FILE
//	vsim selfcheck [PROPERTY...]
//
// It exits with 0 if the property held, 1 if it was violated, 2 if there is no answer.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
)

// verifDir is where the machinery lives.
var verifDir = "/verif"

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check PROPERTY [quick|thorough] | replay FILE | selfcheck [PROPERTY...]")
		os.Exit(2)
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	code := 2
	switch os.Args[1] {
	case "check":
		code = runCheck(os.Args[2:])
	case "replay":
		code = runReplay(os.Args[2:])
	case "selfcheck":
		code = runSelfcheck(os.Args[2:])
	}
	os.Exit(code)
}

func tier(args []string) string {
	if len(args) > 1 {
		return args[1]
	}
	if t := os.Getenv("VERIF_TIER"); t != "" {
		return t
	}
	return "quick"
}

func baseSeed() (int, uint64) {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		n = 1
	}
	return n, uint64(n) << 40
}

func workers() int {
	n := runtime.NumCPU()
	if s, err := strconv.Atoi(os.Getenv("VSIM_WORKERS")); err == nil && s > 0 {
		n = s
	}
	if n > 16 {
		n = 16
	}
	return n
}

func fatal(format string, args ...any) int {
	fmt.Fprintf(os.Stderr, "vsim: no answer: "+format+"\n", args...)
	return 2
}

func scratch() (string, func(), error) {
	dir, err := os.MkdirTemp("", "vsim")
	if err != nil {
		return "", nil, err
	}
	dir, err = filepath.Abs(dir)
	return dir, func() { os.RemoveAll(dir) }, err
}
