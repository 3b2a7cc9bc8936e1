package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

var (
	verifDir string
	repoDir  = "/repo"
	buildDir string
)

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		if strings.HasPrefix(k, "GO") || k == "CGO_ENABLED" {
			continue
		}
		env = append(env, kv)
	}
	return append(env,
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOSUMDB=off",
		"GOWORK="+filepath.Join(buildDir, "go.work"),
		"GOCACHE="+filepath.Join(buildDir, "gocache"),
		"GOMODCACHE=/root/go/pkg/mod",
	)
}

func goTool() string {
	if p, err := exec.LookPath("go"); err == nil {
		return p
	}
	return "/usr/local/bin/go"
}

// build makes the simulation binary from the current working trees.
func build(race bool) (string, error) {
	if err := os.MkdirAll(buildDir, 0o755); err != nil {
		return "", err
	}
	lock, err := os.OpenFile(filepath.Join(buildDir, "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return "", err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return "", err
	}
	work := fmt.Sprintf("go 1.22.2\n\nuse (\n\t%s\n\t%s/bencode\n\t%s/sim\n)\n", repoDir, repoDir, verifDir)
	if err := writeIfChanged(filepath.Join(buildDir, "go.work"), []byte(work)); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(verifDir, "dripcheck", "rt", "go.work.sum.txt"))
	if err != nil {
		return "", err
	}
	if err := writeIfChanged(filepath.Join(buildDir, "go.work.sum"), sum); err != nil {
		return "", err
	}
	cmd := exec.Command(goTool(), "env", "GOROOT")
	cmd.Env = goEnv()
	b, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("go env: %w", err)
	}
	goroot := strings.TrimSpace(string(b))
	var lastErr error
	for _, rmw := range []bool{true, false} {
		ov := &overlay{Replace: map[string]string{}}
		gen := filepath.Join(buildDir, "gen")
		if err := makeGoOverlay(goroot, gen, ov); err != nil {
			return "", err
		}
		if err := instrumentRepo(repoDir, gen, rmw, ov); err != nil {
			return "", err
		}
		ovPath := filepath.Join(gen, "overlay.json")
		if err := ov.write(ovPath); err != nil {
			return "", err
		}
		name := "sim"
		args := []string{"build", "-overlay", ovPath, "-tags", "faketime", "-trimpath"}
		if race {
			name = "sim-race"
			args = append(args, "-race", "-gcflags=-race=0 -d=checkptr=0") // the harness is not under test
		}
		out := filepath.Join(buildDir, fmt.Sprintf("%s.%d", name, os.Getpid()))
		args = append(args, "-o", out, ".")
		cmd := exec.Command(goTool(), args...)
		cmd.Dir = filepath.Join(verifDir, "sim")
		cmd.Env = goEnv()
		if race {
			// The allocators specialised by size, which code built without
			// the race detector calls, do not tell it that memory is reused.
			cmd.Env = append(cmd.Env, "GOEXPERIMENT=nosizespecializedmalloc")
		}
		var eb bytes.Buffer
		cmd.Stderr = &eb
		cmd.Stdout = &eb
		if err := cmd.Run(); err != nil {
			lastErr = fmt.Errorf("building the simulation: %v\n%s", err, eb.String())
			continue
		}
		return out, nil
	}
	return "", lastErr
}

func fileDigest(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return ""
	}
	return fmt.Sprintf("%x", sha256.Sum256(b))[:16]
}

var _ = time.Now
