package main

import (
	"regexp"
	"strings"
)

var (
	raceAddr = regexp.MustCompile(` \+0x[0-9a-f]+|at 0x[0-9a-f]+ `)
	raceGo   = regexp.MustCompile(`by (goroutine \d+|main goroutine)`)
)

// races picks the first report of the race detector in which the code under
// test makes both accesses, directly or through the standard library.
func races(text string) string {
	for i, rep := range strings.Split(text, "==================\n") {
		if i%2 == 0 || !strings.Contains(rep, "DATA RACE") {
			continue
		}
		var secs []string
		ours := true
		for _, sec := range strings.Split(rep, "\n\n") {
			if strings.Contains(sec, " created at:") {
				continue
			}
			secs = append(secs, sec)
			ours = ours && oursFirst(sec)
		}
		if len(secs) == 2 && ours {
			return "two tasks use the same memory at the same time:\n" + strings.TrimSpace(raceGo.ReplaceAllString(raceAddr.ReplaceAllString(strings.Join(secs, "\n"), " "), "by a task"))
		}
	}
	return ""
}

// oursFirst reports whether the innermost frame outside of the standard
// library belongs to the code under test.
func oursFirst(sec string) bool {
	for _, l := range strings.Split(sec, "\n") {
		if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") {
			continue
		}
		f := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(f, "github.com/markbates/pkger"), strings.HasPrefix(f, "github.com/gobuffalo/here"):
			return true
		case strings.HasPrefix(f, "a0sim/"), strings.HasPrefix(f, "main."):
			return false
		}
	}
	return false
}
