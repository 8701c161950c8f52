package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"
)

// A probe re-examines one known finding: it returns a description while the
// finding is still there.
var probes = map[string]func() string{}

// runProbes reads the known-findings file. Lines:
//
//	known: property=<id> probe=<name> <description>
//	fixed: property=<id> <commit> <what failed>
//
// Only "known" lines are reported, and only while the probe still fails.
func runProbes(id, file string) ([]string, error) {
	if file == "" {
		return nil, nil
	}
	f, err := os.Open(file)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []string
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<16), 1<<20)
	for sc.Scan() {
		fs := strings.Fields(sc.Text())
		if len(fs) < 3 || fs[0] != "known:" || fs[1] != "property="+id {
			continue
		}
		name := strings.TrimPrefix(fs[2], "probe=")
		p := probes[name]
		if p == nil {
			return nil, fmt.Errorf("known findings: no probe %q", name)
		}
		if msg := p(); msg != "" {
			out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, msg))
		}
	}
	return out, sc.Err()
}
