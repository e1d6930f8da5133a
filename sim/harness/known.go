package main

import (
	"os"
	"strings"
)

type knownFindings []finding

type finding struct{ prop, key, text string }

var known knownFindings

func init() {
	dir := os.Getenv("VERIF")
	if dir == "" {
		dir = "/verif"
	}
	b, err := os.ReadFile(dir + "/known_findings.txt")
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <what fails>
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " key=")
		key, text, _ := strings.Cut(rest, " ")
		known = append(known, finding{prop, key, text})
	}
}

// match returns the description of the known finding the violation is.
func (k knownFindings) match(prop string, v *Violation) string {
	if v.Key == "" {
		return ""
	}
	for _, f := range k {
		if f.prop == prop && f.key == v.Key {
			return f.text
		}
	}
	return ""
}
