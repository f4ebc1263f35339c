//go:build race

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

// reportRaces turns reports of the race detector into a violation if the code under test is
// involved.
func (c *C) reportRaces() {
	n := runtime.RaceErrors()
	c.Extra("races_reported", n)
	if n == 0 {
		return
	}
	text := ""
	if p := os.Getenv("VERIF_RACE_LOG"); p != "" {
		files, _ := filepath.Glob(p + ".*")
		for _, f := range files {
			b, _ := os.ReadFile(f)
			text += string(b)
		}
	}
	if text != "" && !strings.Contains(text, "github.com/tokenized/") {
		fmt.Fprintf(os.Stderr, "data race in the harness:\n%s\n", text)
		os.Exit(3)
	}
	c.addViolation(&Violation{Key: "race", Message: fmt.Sprintf("%d data races", n), Workload: "race detector",
		Trace: strings.Split(text, "\n")})
}
