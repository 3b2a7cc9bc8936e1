package main

import (
	"fmt"
	"os"
	"path/filepath"
)

func main() {
	exe, _ := os.Executable()
	verifDir = os.Getenv("VERIF_DIR")
	if verifDir == "" {
		verifDir = filepath.Dir(filepath.Dir(exe))
	}
	buildDir = filepath.Join(verifDir, "build")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: dripcheck build|check|replay|run")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "build":
		race := len(os.Args) > 2 && os.Args[2] == "race"
		p, err := build(race)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		dst := filepath.Join(buildDir, "sim")
		if race {
			dst += "-race"
		}
		os.Rename(p, dst)
	case "check":
		if len(os.Args) < 3 {
			os.Exit(2)
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier))
	case "replay":
		if len(os.Args) < 3 {
			os.Exit(2)
		}
		os.Exit(replay(os.Args[2]))
	default:
		fmt.Fprintln(os.Stderr, "usage: dripcheck build|check|replay")
		os.Exit(2)
	}
}
