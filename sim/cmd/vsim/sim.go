package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/sim/overlay"
	"verif/sim/proto"
)

// Sim is the compiled simulation of the current working tree.
type Sim struct {
	bin string
	sem chan struct{}

	runs    int64
	reruns  int64
	rerunEv int64 // every nth run is repeated and compared
}

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "CGO_ENABLED=") || strings.HasPrefix(kv, "GOCACHE=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOCACHE="+filepath.Join(buildDir(), "gocache"), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
}

func buildDir() string {
	if d := os.Getenv("VERIF_BUILD"); d != "" {
		return d
	}
	return filepath.Join(verifDir, ".build")
}

// Build compiles /repo's working tree against the simulated kernel.
func Build() (*Sim, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir = repoDir
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go env GOROOT: %w", err)
	}
	goroot := strings.TrimSpace(string(out))
	dir := filepath.Join(buildDir(), fmt.Sprintf("sim.%d", os.Getpid()))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	cleanup = append(cleanup, dir)
	// The overlay content lives in a fixed place so that the build cache works.
	ov := filepath.Join(dir, "ovl")
	js, err := overlay.Generate(goroot, repoDir, verifDir, ov)
	if err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "simbin")
	cmd = exec.Command("go", "build", "-tags", "faketime", "-trimpath", "-overlay", js, "-o", bin, ".")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if b, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the simulation: %w\n%s", err, b)
	}
	return &Sim{bin: bin, sem: make(chan struct{}, workers()), rerunEv: 61}, nil
}

func workers() int { return 8 }

var cleanup []string

// InfraError is trouble of the simulator itself, never a violation.
type InfraError struct{ msg string }

func (e *InfraError) Error() string { return e.msg }

func infra(format string, args ...interface{}) {
	panic(&InfraError{fmt.Sprintf(format, args...)})
}

func (s *Sim) once(in []byte) []byte {
	s.sem <- struct{}{}
	defer func() { <-s.sem }()
	out, timeout := s.attempt(in, 60*time.Second)
	if timeout {
		// the machine was busy, or the program loops without a step
		out, timeout = s.attempt(in, 180*time.Second)
	}
	if timeout {
		out, _ = json.Marshal(&proto.Result{Exit: -1, Hang: "no end within 180 s of real time (runs take milliseconds)"})
	}
	return out
}

func (s *Sim) attempt(in []byte, limit time.Duration) (_ []byte, timeout bool) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, s.bin)
	cmd.Dir = "/"
	cmd.Env = []string{"VERIF_SIM=1", "GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all"}
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return nil, true
	}
	if err == nil && out.Len() > 0 {
		return out.Bytes(), false
	}
	// The process died.
	msg := errb.String()
	r := proto.Result{Exit: 2}
	switch {
	case strings.Contains(msg, "all goroutines are asleep"):
		r.Exit = -1
		r.Hang = "deadlock: all goroutines are asleep\n" + stackOf(msg)
	case strings.Contains(msg, "panic:") || strings.Contains(msg, "fatal error:"):
		if strings.Contains(msg, "zz_verif_") && !strings.Contains(msg, "stack overflow") && blames(msg) {
			infra("the worker crashed: %s\nscenario: %s", trunc(msg, 3000), trunc(string(in), 3000))
		}
		r.Panic = stackOf(msg)
	default:
		infra("the worker died: %v\n%s", err, trunc(msg, 2000))
	}
	b, _ := json.Marshal(&r)
	return b, false
}

// blames tells whether the innermost non-library frame of the crash is in the
// harness rather than in the repository.
func blames(msg string) bool {
	i := strings.Index(msg, "goroutine ")
	if i < 0 {
		return true
	}
	for _, l := range strings.Split(msg[i:], "\n") {
		if !strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "zz_verif_") || strings.Contains(l, "zz_sim.go") {
			return true
		}
		if strings.Contains(l, "github.com/datawire/ocibuild") || strings.Contains(l, repoDir+"/") {
			return false
		}
	}
	return true
}

var hexRE = regexp.MustCompile(`0x[0-9a-f]+\??`)

func stackOf(msg string) string {
	lines := strings.Split(msg, "\n")
	var out []string
	for _, l := range lines {
		if strings.HasPrefix(l, "runtime: sp=") {
			continue
		}
		out = append(out, hexRE.ReplaceAllString(l, "0x?"))
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Run executes one scenario.
func (s *Sim) Run(sc *proto.Scenario) *proto.Result {
	in, err := json.Marshal(sc)
	if err != nil {
		infra("marshal: %v", err)
	}
	out := s.once(in)
	n := atomic.AddInt64(&s.runs, 1)
	if s.rerunEv > 0 && n%s.rerunEv == 0 {
		atomic.AddInt64(&s.reruns, 1)
		out2 := s.once(in)
		if !bytes.Equal(out, out2) {
			infra("NOT DETERMINISTIC: two runs of one scenario differ\n%s\n%s\nscenario: %s", trunc(string(out), 1500), trunc(string(out2), 1500), trunc(string(in), 3000))
		}
	}
	r := new(proto.Result)
	if err := json.Unmarshal(out, r); err != nil {
		infra("bad result: %v: %s", err, trunc(string(out), 500))
	}
	if strings.Contains(r.Hang, "\n") {
		r.Hang = stackOf(r.Hang)
	}
	if r.Infra != "" {
		infra("worker: %s\nscenario: %s", r.Infra, trunc(string(in), 3000))
	}
	if len(r.Unknown) > 0 {
		infra("system calls the simulated kernel does not know: %v", r.Unknown)
	}
	return r
}

var _ sync.Mutex
