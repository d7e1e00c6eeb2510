// Package check runs the analyses that decide each property and reports.
package check

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"uipcheck/load"
)

// Violation is a construct of the analysed source that breaks a property.
type Violation struct {
	Key  string // stable identity, for the known-findings file
	Site string // file:line
	Func string
	Rule string
	Msg  string
}

// Result is what an analysis did.
type Result struct {
	Obligations int
	Violations  []Violation
	Rules       []string
	Functions   []string
	Samples     []string
	Extra       map[string]interface{}
	Trusted     []string
	Explain     string
}

func (r *Result) Fail(rule, site, fn, msg string) {
	r.Violations = append(r.Violations, Violation{Key: rule + " " + fn, Site: site, Func: fn, Rule: rule, Msg: msg})
}

// Ctx is what a check works on.
type Ctx struct {
	Repo, Verif string
	Tier        string
	Seed        int
	P           *load.Prog
}

// Check decides one property.
type Check struct {
	ID    string
	Level string
	Run   func(c *Ctx) (*Result, error)
}

var all = map[string]*Check{}

func register(id, level string, f func(c *Ctx) (*Result, error)) {
	all[id] = &Check{id, level, f}
}

// IDs lists the properties with a check.
func IDs() []string {
	var l []string
	for k := range all {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// known reads the entries of the known-findings file for a property.
func known(file, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" ")
		// key="..." what fails
		if strings.HasPrefix(l, "key=") {
			if k, err := strconv.QuotedPrefix(l[4:]); err == nil {
				key, _ := strconv.Unquote(k)
				out[key] = strings.TrimSpace(l[4+len(k):])
			}
		}
	}
	return out
}

// Main runs the check of each property; the result is the exit status.
func Main(ids []string, repo, verif string) int {
	start := time.Now()
	for _, id := range ids {
		if all[id] == nil {
			fmt.Fprintf(os.Stderr, "no check for %q; have %s\n", id, strings.Join(IDs(), " "))
			return 2
		}
	}
	ctx := &Ctx{Repo: repo, Verif: verif, Tier: os.Getenv("VERIF_TIER")}
	if ctx.Tier == "" {
		ctx.Tier = "quick"
	}
	ctx.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	p, err := load.Load(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	if len(p.Pkgs) == 0 {
		fmt.Fprintln(os.Stderr, "load: no package of the repository type-checks")
		return 2
	}
	ctx.P = p
	worst := 0
	for _, id := range ids {
		rc := runOne(all[id], ctx, start)
		if rc > worst {
			worst = rc
		}
		start = time.Now()
	}
	return worst
}

func runOne(c *Check, ctx *Ctx, start time.Time) int {
	id, p, verif := c.ID, ctx.P, ctx.Verif
	r, err := c.Run(ctx)
	if err != nil {
		// what the property is about cannot be found: it is not shown to hold
		r = &Result{Obligations: 1, Rules: []string{"anchor found"}}
		r.Fail("anchor found", "?", "?", err.Error())
	}
	kn := known(filepath.Join(verif, "known_findings.txt"), id)
	var bad []Violation
	seen := map[string]bool{}
	for _, v := range r.Violations {
		if w, ok := kn[v.Key]; ok {
			if !seen[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, w)
				seen[v.Key] = true
			}
			continue
		}
		bad = append(bad, v)
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, id+".violations.txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var b strings.Builder
		for _, v := range bad {
			fmt.Fprintf(&b, "%s: %s: in %s: %s\n  key %q\n", v.Site, v.Rule, v.Func, v.Msg, v.Key)
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		fmt.Print(b.String())
	}
	sort.Strings(r.Functions)
	cov := map[string]interface{}{
		"obligations":   r.Obligations,
		"discharged":    r.Obligations - len(r.Violations),
		"checker_cmd":   "./check.sh " + id,
		"trusted_base":  append([]string{"go/types and golang.org/x/tools/go/ssa", "the models of library functions in tools/uipcheck"}, r.Trusted...),
		"explanation":   r.Explain,
		"rules":         r.Rules,
		"functions":     r.Functions,
		"samples":       r.Samples,
		"packages":      len(p.Pkgs),
		"not_typecheck": p.Broken,
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	e := map[string]interface{}{
		"property": id, "tier": ctx.Tier, "seed": ctx.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(),
		"violations": len(bad),
	}
	j, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(ev, id+".json"), append(j, '\n'), 0o644)
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("%s: %d obligations discharged\n", id, r.Obligations-len(r.Violations))
	return 0
}
