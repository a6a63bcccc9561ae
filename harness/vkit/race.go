package vkit

import (
	"fmt"
	"os"
	"strings"
)

var raceRead = map[string]int{} // how much of each log was looked at

// Races returns the race detector's reports since the last call. check.py has the detector write them to a file.
func Races() string {
	p := os.Getenv("VERIF_RACE_LOG")
	if p == "" {
		return ""
	}
	p = fmt.Sprintf("%s.%d", p, os.Getpid())
	b, err := os.ReadFile(p)
	if err != nil || len(b) <= raceRead[p] {
		return ""
	}
	b, raceRead[p] = b[raceRead[p]:], len(b)
	s := string(b)
	// the first one will do
	const sep = "=================="
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		if j := strings.Index(s[i:], sep); j >= 0 {
			s = s[i : i+j]
		}
	}
	return s
}
