package world

import (
	"os"
	"testing"
)

// TestWorker is a worker process of the orchestrator (cmd/vsim): a test, because the
// simulated database runs in the bubbles of testing/synctest.
func TestWorker(t *testing.T) {
	path := os.Getenv("VSIM_REQUEST")
	if path == "" {
		t.Skip("started by vsim")
	}
	theT = t
	if err := Serve(path); err != nil {
		t.Fatal(err)
	}
}
