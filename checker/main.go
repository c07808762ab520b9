// Command checker decides the properties of phpintel from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "directory of the analysed module")
	verif := flag.String("verif", "/verif", "directory of evidence and known findings")
	props := flag.String("prop", "", "property to decide, comma separated or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	start := time.Now()
	var ids []string
	if *props == "all" {
		ids = sortedKeys(properties)
	} else {
		ids = strings.Split(*props, ",")
	}
	configs := []string{"linux"}
	if *tier == "thorough" {
		configs = []string{"linux", "windows", "darwin"}
	}
	results := map[string][]*Ctx{}
	for _, cfg := range configs {
		p, err := load(*repo, cfg)
		if err != nil {
			for _, id := range ids {
				if pr := properties[id]; pr != nil {
					c := &Ctx{Prop: id, Config: cfg, seen: map[string]bool{}, counts: map[string]int{}}
					c.Undecided("%s", err.Error())
					results[id] = append(results[id], c)
				}
			}
			continue
		}
		for _, id := range ids {
			pr := properties[id]
			if pr == nil {
				fmt.Fprintln(os.Stderr, "unknown property", id)
				os.Exit(2)
			}
			results[id] = append(results[id], runRule(p, pr, *tier, cfg))
		}
	}
	code := 0
	for _, id := range ids {
		if finish(*verif, properties[id], *tier, results[id], start) != 0 {
			code = 1
		}
	}
	os.Exit(code)
}

var debugOn = os.Getenv("VERIF_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
