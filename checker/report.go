package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is a construct that breaks a rule.
type Finding struct {
	Key  string   // rule and construct, without line numbers
	Pos  string   // file:line
	Msg  string   // what is wrong
	Path []string // how it is reached
}

// Ctx is what a rule works with.
type Ctx struct {
	P        *Program
	Prop     string
	Tier     string
	Config   string
	Findings []Finding
	seen     map[string]bool
	counts   map[string]int
	funcs    map[string]bool
	samples  map[string][]string
	rules    []string
	notes    []string
}

// Report adds a finding, once per key.
func (c *Ctx) Report(key, pos, msg string, path []string) {
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.Findings = append(c.Findings, Finding{key, pos, msg, path})
}

// Undecided reports that the rule cannot be decided, which fails the check.
func (c *Ctx) Undecided(what string, a ...interface{}) {
	m := fmt.Sprintf(what, a...)
	c.Report("undecided/"+m, "-", "cannot be decided: "+m, nil)
}

// Count adds to the number of analysed instances of a kind.
func (c *Ctx) Count(kind string, n int) { c.counts[kind] += n }

// Seen counts one instance and keeps its name as a sample.
func (c *Ctx) Seen(kind, name string) {
	if c.seen["#"+kind+"#"+name] {
		return
	}
	c.seen["#"+kind+"#"+name] = true
	c.counts[kind]++
	if len(c.samples[kind]) < 60 {
		c.samples[kind] = append(c.samples[kind], name)
	}
}

// AtLeast fails the check when fewer instances than confirmed by hand are found.
func (c *Ctx) AtLeast(kind string, n int) {
	if c.counts[kind] < n {
		c.Report("vacuous/"+kind, "-", fmt.Sprintf("only %d instances of %q were found, at least %d are expected: the rule no longer sees the code it is about", c.counts[kind], kind, n), nil)
	}
}

// Rule documents a rule that was applied.
func (c *Ctx) Rule(s string) { c.rules = append(c.rules, s) }

// Fn records an analysed function.
func (c *Ctx) Fn(fn *ssa.Function) { c.funcs[shortFn(fn)] = true }

// Explored records what an exploration has covered and its limits.
func (c *Ctx) Explored(x *Ex) {
	for f := range x.Funcs {
		c.Fn(f)
	}
	c.counts["instructions interpreted"] += x.steps
	c.counts["paths joined"] += x.Joined
	for _, e := range x.Err {
		c.Undecided("%s", e)
	}
}

type ruleFn func(*Ctx)

type property struct {
	id          string
	run         ruleFn
	explanation string
	assumptions []string
}

var properties = map[string]*property{}

func register(id, explanation string, assumptions []string, run ruleFn) {
	properties[id] = &property{id, run, explanation, assumptions}
}

func runRule(p *Program, prop *property, tier, config string) (c *Ctx) {
	c = &Ctx{P: p, Prop: prop.id, Tier: tier, Config: config, seen: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}, samples: map[string][]string{}}
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_PANIC") != "" {
				panic(r)
			}
			c.Report("undecided/panic", "-", fmt.Sprintf("the analysis failed: %v", r), nil)
		}
	}()
	prop.run(c)
	return c
}

type known struct {
	key  string
	text string
}

// loadKnown reads the listed findings of a property.
func loadKnown(file, prop string) ([]known, error) {
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> key=<key> :: <what fails>
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" key=")
		if !ok {
			continue
		}
		key, text, _ := strings.Cut(rest, " :: ")
		out = append(out, known{key, text})
	}
	return out, sc.Err()
}

func finish(verif string, prop *property, tier string, cs []*Ctx, start time.Time) int {
	var fs []Finding
	seen := map[string]bool{}
	counts := map[string]int{}
	funcs := map[string]bool{}
	samples := map[string][]string{}
	var rules, configs, notes []string
	for i, c := range cs {
		configs = append(configs, c.Config)
		for _, f := range c.Findings {
			if !seen[f.Key] {
				seen[f.Key] = true
				fs = append(fs, f)
			}
		}
		for k, v := range c.counts {
			counts[k] += v
		}
		for k := range c.funcs {
			funcs[k] = true
		}
		if i == 0 {
			samples = c.samples
			rules = c.rules
			notes = c.notes
		}
	}
	ks, err := loadKnown(filepath.Join(verif, "known_findings.txt"), prop.id)
	if err != nil {
		fs = append(fs, Finding{Key: "undecided/known", Pos: "-", Msg: "the list of known findings cannot be read: " + err.Error()})
	}
	var viol []Finding
	for _, f := range fs {
		isKnown := false
		for _, k := range ks {
			if k.key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop.id, k.text, f.Pos)
				isKnown = true
			}
		}
		if !isKnown {
			viol = append(viol, f)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Path) < len(viol[j].Path) })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fnames []string
	for f := range funcs {
		fnames = append(fnames, f)
	}
	sort.Strings(fnames)
	var vs []map[string]interface{}
	for _, v := range viol {
		vs = append(vs, map[string]interface{}{"key": v.Key, "at": v.Pos, "message": v.Msg, "path": v.Path})
	}
	cov := map[string]interface{}{
		"explanation":        prop.explanation,
		"rules":              rules,
		"configurations":     configs,
		"instances":          counts,
		"instance_names":     samples,
		"functions_analysed": len(fnames),
		"functions":          fnames,
		"known_findings":     len(fs) - len(viol),
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]interface{}{
		"property": prop.id,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": cov,
		"wall_s":   time.Since(start).Seconds(),
	}
	if len(prop.assumptions) > 0 {
		ev["assumptions"] = prop.assumptions
	}
	if len(vs) > 0 {
		ev["violations"] = vs
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		dir := filepath.Join(verif, "evidence")
		os.MkdirAll(dir, 0o755)
		err = os.WriteFile(filepath.Join(dir, prop.id+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	if len(viol) == 0 {
		fmt.Printf("%s: held on everything analysed (%d functions, %s)\n", prop.id, len(fnames), summary(counts))
		return 0
	}
	replay := filepath.Join(verif, "evidence", prop.id+".violations.txt")
	var sb strings.Builder
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s\n  at %s\n  rule/construct: %s\n", v.Msg, v.Pos, v.Key)
		for _, s := range v.Path {
			fmt.Fprintf(&sb, "    %s\n", s)
		}
		sb.WriteString("\n")
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, v := range viol {
		if i == 12 {
			fmt.Printf("... and %d more, see %s\n", len(viol)-i, replay)
			break
		}
		fmt.Printf("%s: %s [%s]\n", v.Pos, v.Msg, v.Key)
		for _, s := range v.Path {
			fmt.Printf("    %s\n", s)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop.id, replay)
	return 1
}

func summary(counts map[string]int) string {
	var ss []string
	for _, k := range sortedKeys(counts) {
		ss = append(ss, fmt.Sprintf("%s: %d", k, counts[k]))
	}
	return strings.Join(ss, ", ")
}
