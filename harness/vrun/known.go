package main

import (
	"flag"
	"strings"
)

var knownFlag = flag.String("known", "", "comma-separated ids of recorded findings")

// knownFinding says whether the known-findings file lists the finding.
func knownFinding(id string) bool {
	for _, k := range strings.Split(*knownFlag, ",") {
		if k == id {
			return true
		}
	}
	return false
}
