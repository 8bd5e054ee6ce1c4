package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Native is the harness compiled by the Go compiler against the real code.
type Native struct {
	bin string
	dir string
	err error
}

type nativeRun struct {
	Harness string `json:"harness"`
	Vars    Model  `json:"vars"`
	Tier    string `json:"tier"`
}

func buildNative(id string, ov map[string][]byte, race bool) *Native {
	n := &Native{}
	dir, err := os.MkdirTemp("", "verif-native-")
	if err != nil {
		n.err = err
		return n
	}
	n.dir = dir
	repl := map[string]string{}
	i := 0
	for p, b := range ov {
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", i, filepath.Base(p)))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			n.err = err
			return n
		}
		repl[p] = f
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(filepath.Join(dir, "overlay.json"), j, 0o644)
	n.bin = filepath.Join(dir, "harness.bin")
	args := []string{"build", "-overlay", filepath.Join(dir, "overlay.json"), "-o", n.bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zzverif/h_"+strings.ToLower(id))
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.24.13/bin/go", args...)
	cmd.Dir = repoDir
	cmd.Env = repoEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n
}

func (n *Native) Close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// runs executes the given model; result: exit code and output.
func (n *Native) run(r nativeRun, timeout time.Duration) (code int, out string) {
	j, _ := json.Marshal(r)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Stdin = bytes.NewReader(j)
	cmd.Dir = n.dir
	var ob bytes.Buffer
	cmd.Stdout = &ob
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	o := ob.String() + eb.String()
	if ctx.Err() != nil {
		return -9, o + "\nTIMEOUT"
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), o
		}
		return -1, o + err.Error()
	}
	return 0, o
}
