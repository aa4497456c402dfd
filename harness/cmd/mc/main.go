// Command mc runs a check:
//
//	mc run <property> quick|thorough
//	mc replay <file>
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	_ "verif/harness/checks"
	"verif/harness/mc"
)

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func budget(tier string) time.Duration {
	if b, err := time.ParseDuration(os.Getenv("MC_BUDGET")); err == nil {
		return b
	}
	if tier == "thorough" {
		return 700 * time.Second
	}
	return 240 * time.Second
}

func main() {
	args := os.Args[1:]
	if len(args) < 2 {
		fmt.Println("usage: mc run <property> quick|thorough | mc replay <file>")
		os.Exit(2)
	}
	switch args[0] {
	case "child":
		debug.SetGCPercent(600)
		debug.SetMemoryLimit(10 << 30)
		debug.SetMaxStack(256 << 20)
		only := ""
		if len(args) > 4 {
			only = args[4]
		}
		os.Exit(mc.Child(root(), args[1], args[2], only, args[3], budget(args[2])))
	case "run":
		tier := "quick"
		if len(args) > 2 {
			tier = args[2]
		}
		os.Exit(supervise(args[1], tier, ""))
	case "replay":
		b, err := os.ReadFile(args[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v mc.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(supervise(v.Property, v.Tier, v.Case))
	}
	os.Exit(2)
}

func supervise(prop, tier, only string) int {
	f, err := os.CreateTemp("", "mcslots")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.Remove(f.Name())
	f.Truncate(16 * 8192)
	f.Close()
	self, _ := os.Executable()
	a := []string{"child", prop, tier, f.Name()}
	if only != "" {
		a = append(a, only)
	}
	cmd := exec.Command(self, a...)
	cmd.Stdout = os.Stdout
	errFile, _ := os.CreateTemp("", "mcerr")
	defer os.Remove(errFile.Name())
	cmd.Stderr = errFile
	err = cmd.Run()
	tail, _ := os.ReadFile(errFile.Name())
	if err == nil {
		return 0
	}
	code := -1
	if x, ok := err.(*exec.ExitError); ok {
		code = x.ExitCode()
	}
	if code == 1 {
		return 1
	}
	text := string(tail)
	if len(text) > 20000 {
		text = text[:20000]
	}
	// The process died. If the code under test is in the trace of the
	// goroutine that failed, this is a violation
	active := mc.ActiveCases(f.Name())
	first := text
	if i := strings.Index(text, "\n\ngoroutine "); i > 0 {
		if j := strings.Index(text[i+2:], "\n\n"); j > 0 {
			first = text[:i+2+j]
		}
	}
	blame := strings.Contains(first, "cloudprivacylabs/opencypher") || strings.Contains(first, "cloudprivacylabs/lpg") || strings.Contains(first, "antlr4/runtime") || strings.Contains(text, "fatal error: stack overflow") || code == -1
	fmt.Fprintln(os.Stderr, text)
	if !blame {
		fmt.Println("the check itself failed")
		return 3
	}
	v := mc.Violation{Property: prop, Tier: tier, What: "the process crashes: " + strings.SplitN(text, "\n", 2)[0] + "\n" + first}
	if len(active) > 0 {
		v.Case = active[0]
		v.Reruns = "active cases:\n" + strings.Join(active, "\n")
	}
	dir := filepath.Join(root(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+"-crash.json")
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n  the process crashes: %s\n  active: %q\n", prop, path, strings.SplitN(text, "\n", 2)[0], active)
	return 1
}
