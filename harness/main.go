package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// usage: vh PROP quick|thorough [--replay FILE | --task ID]
func main() {
	if len(os.Args) < 3 {
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println("usage: vh PROP quick|thorough [--replay FILE|--task ID]; checks:", l)
		os.Exit(2)
	}
	if os.Getenv("VH_CHILD") == "" && os.Getenv("VH_WORKER") == "" {
		os.Exit(parent())
	}
	prop, tier := os.Args[1], os.Args[2]
	ck := checks[prop]
	if ck == nil {
		fmt.Println("unknown property", prop)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	r := &Run{Prop: prop, Tier: tier, t0: time.Now(), states: map[uint64]struct{}{}, keys: map[uint64]struct{}{},
		viol: map[string]Violation{}, violN: map[string]int{}, confirmed: map[string]bool{}, extra: map[string]any{}, Known: loadKnown(prop)}
	r.worker = os.Getenv("VH_WORKER") != ""
	r.Budget = 240 * time.Second
	if tier == "thorough" {
		r.Budget = 780 * time.Second
	}
	for i := 3; i+1 < len(os.Args); i += 2 {
		switch os.Args[i] {
		case "--task":
			r.Target = os.Args[i+1]
		case "--replay":
			b, err := os.ReadFile(os.Args[i+1])
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			var x struct{ Task string }
			json.Unmarshal(b, &x)
			r.Target = x.Task
		}
	}
	if p := os.Getenv("VH_PROGRESS"); p != "" {
		r.prog, _ = os.Create(p)
	}
	// the code under test prints to os.Stdout
	out := os.Stdout
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	ck.Run(r)
	os.Exit(r.finish(ck, out))
}

// parent runs the exploration in a child process, so that a panic in a
// goroutine of the code under test (which kills the process) is reported as a
// violation instead of an error of the check.
func parent() int {
	dir := filepath.Join(verifDir(), "build", "replay")
	os.MkdirAll(dir, 0o755)
	prog := filepath.Join(dir, fmt.Sprintf("progress-%s-%d", os.Args[1], os.Getpid()))
	defer os.Remove(prog)
	c := exec.Command(os.Args[0], os.Args[1:]...)
	c.Env = append(os.Environ(), "VH_CHILD=1", "VH_PROGRESS="+prog)
	c.Stdout = os.Stdout
	var eb bytes.Buffer
	c.Stderr = &eb
	err := c.Run()
	if eb.Len() > 0 {
		s := eb.String()
		if len(s) > 6000 {
			s = s[:6000]
		}
		// the report starts a line
		os.Stderr.WriteString(strings.TrimSuffix(s, "\n") + "\n")
	}
	if err == nil {
		return 0
	}
	code := c.ProcessState.ExitCode()
	if code == 1 {
		return 1
	}
	s := eb.String()
	if code == 2 {
		if at, tr := crash(s); at != "" {
			pb, _ := os.ReadFile(prog)
			p := filepath.Join(dir, fmt.Sprintf("%s-crash-%016x.json", os.Args[1], hash64(tr)))
			b, _ := json.MarshalIndent(map[string]any{"property": os.Args[1], "tier": os.Args[2], "task": "", "sig": "process crash at " + at, "detail": tr,
				"running": strings.Fields(string(pb))}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n  the process crashed in the code under test: %s\n  %.600s\n", os.Args[1], p, at, tr)
			return 1
		}
	}
	fmt.Println("check error: exit", code, err)
	return 3
}
