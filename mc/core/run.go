package core

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const (
	exitOK    = 0
	exitHang  = 41
	exitFails = 0
)

// hangLimit is generous: cases take milliseconds.
const hangLimit = 60 * time.Second
const hangConfirm = 120 * time.Second

// Known is one line of the known-findings file.
type Known struct {
	Property string
	Key      string
	What     string
}

func loadKnown(path, prop string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=P01 key=<case#clause> :: what
		if !strings.HasPrefix(l, "finding: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" key=")
		k, w, _ := strings.Cut(rest, " :: ")
		out = append(out, Known{prop, strings.TrimSpace(k), w})
	}
	return out
}

// Main is the entry point of the binary.
func Main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick|thorough")
	only := flag.String("only", "", "run only this case")
	root := flag.String("root", "/verif", "verif root")
	list := flag.Bool("list", false, "list properties")
	child := flag.String("child", "", "internal: result file")
	journal := flag.String("journal", "", "internal: journal file")
	secs := flag.Int("deadline", 0, "internal deadline in seconds (0: per tier)")
	flag.Parse()
	if *list {
		var ids []string
		for id := range Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	p := Registry[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *secs == 0 {
		*secs = 400
		if *tier == "thorough" {
			*secs = 660
		}
	}
	known := loadKnown(filepath.Join(*root, "known-findings.txt"), p.ID)
	km := map[string]bool{}
	for _, k := range known {
		km[k.Key] = true
	}
	if *child != "" {
		runChild(p, *tier, *only, *child, *journal, time.Duration(*secs)*time.Second, km)
		return
	}
	os.Exit(supervise(p, *tier, *only, *root, *secs, known))
}

func runChild(p *Prop, tier, only, out, journal string, d time.Duration, known map[string]bool) {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(6 << 30)
	debug.SetGCPercent(400)
	lim := syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30}
	if !Race { // the race detector maps much more than it uses
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	c := newCtx(p, tier, only, time.Now().Add(d), known)
	if journal != "" {
		c.journal, _ = os.OpenFile(journal, os.O_RDWR|os.O_CREATE, 0o644)
	}
	limit := hangLimit
	if only != "" {
		limit = hangConfirm
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			for i := range c.workers {
				ws := &c.workers[i]
				ws.mu.Lock()
				h := ws.name != "" && time.Since(ws.start) > limit
				nm := ws.name
				ws.mu.Unlock()
				if h {
					fmt.Fprintln(os.Stderr, "HANG", nm)
					os.WriteFile(out+".hang", []byte(nm), 0o644)
					os.Exit(exitHang)
				}
			}
		}
	}()
	p.Run(c)
	r := c.result()
	b, _ := json.Marshal(r)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func spawn(p *Prop, tier, only, root, dir string, secs int) (Result, string, []string) {
	out := filepath.Join(dir, "result.json")
	jr := filepath.Join(dir, "journal")
	os.Remove(out)
	os.Remove(out + ".hang")
	os.Remove(jr)
	args := []string{"-prop", p.ID, "-tier", tier, "-root", root, "-child", out, "-journal", jr, "-deadline", strconv.Itoa(secs)}
	if only != "" {
		args = append(args, "-only", only)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	var stderr bytes.Buffer
	cmd.Stderr = &tail{b: &stderr}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=4 atexit_sleep_ms=0")
	cmd.Dir = dir // stray writes of the code under test stay in the scratch directory
	err := cmd.Run()
	var r Result
	if err == nil {
		b, e := os.ReadFile(out)
		if e == nil && json.Unmarshal(b, &r) == nil {
			return r, "", nil
		}
		return r, "no result from child: " + stderr.String(), nil
	}
	why := err.Error() + "\n" + headTail(stderr.String())
	if b, e := os.ReadFile(out + ".hang"); e == nil {
		return r, "hang", []string{string(b)}
	}
	var cands []string
	if b, e := os.ReadFile(jr); e == nil {
		for i := 0; i+slot <= len(b)+slot-1 && i < len(b); i += slot {
			end := i + slot
			if end > len(b) {
				end = len(b)
			}
			s := b[i:end]
			if len(s) > 0 && s[0] != 0 {
				if k := bytes.IndexByte(s, 0); k >= 0 {
					s = s[:k]
				}
				cands = append(cands, string(s))
			}
		}
	}
	return r, why, cands
}

// tail keeps the first 1 MB of stderr.
type tail struct{ b *bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func headTail(s string) string {
	if len(s) < 3000 {
		return s
	}
	return s[:2000] + "\n…\n" + s[len(s)-800:]
}

func supervise(p *Prop, tier, only, root string, secs int, known []Known) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	r, why, cands := spawn(p, tier, only, root, dir, secs)
	if why != "" {
		fmt.Fprintf(os.Stderr, "child of %s ended abnormally (%s); candidates %q\n", p.ID, why, cands)
		// Confirm every candidate alone.
		for _, c := range cands {
			r2, why2, c2 := spawn(p, tier, c, root, dir, 300)
			if why2 != "" && len(c2) > 0 {
				tag := "crash"
				if why2 == "hang" {
					tag = "hang"
				} else if strings.Contains(why2, "DATA RACE") {
					tag = "race"
				}
				r.Fails = append(r.Fails, Failure{Key: c + "#" + tag, Case: c, Clause: tag,
					Detail: "the process running this case did not survive it: " + why2})
			} else {
				r.Fails = append(r.Fails, r2.Fails...)
			}
		}
		if len(r.Fails) == 0 {
			if only == "" && time.Since(start) < 300*time.Second {
				// not reproducible on its own: run once more, one case after the other
				os.Setenv("VERIFMC_SERIAL", "1")
				r, why, _ = spawn(p, tier, only, root, dir, min(secs, 780-int(time.Since(start).Seconds())))
			}
			if why != "" && len(r.Fails) == 0 {
				fmt.Fprintln(os.Stderr, "check could not complete:", why)
				return 2
			}
		}
		r.Capped = true
	}
	return report(p, tier, only, root, r, known, time.Since(start))
}

func report(p *Prop, tier, only, root string, r Result, known []Known, wall time.Duration) int {
	km := map[string]Known{}
	for _, k := range known {
		km[k.Key] = k
	}
	var viol []Failure
	seen := map[string]bool{}
	for _, f := range r.Fails {
		if k, ok := km[f.Key]; ok {
			if !seen[f.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", p.ID, k.What, f.Key)
				seen[f.Key] = true
			}
			continue
		}
		viol = append(viol, f)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"samples": r.Samples, "exhaustive": !r.Capped, "rule": p.Rule,
		"sections": r.Sections, "distinct_outcomes": r.Outcomes,
	}
	if len(r.Notes) > 0 {
		sort.Strings(r.Notes)
		cov["notes"] = r.Notes
	}
	if p.Level == "model_checking" {
		cov["states"] = r.States
		cov["transitions"] = r.Transitions
		cov["traces_validated_against_impl"] = r.Validated
	} else {
		cov["evaluations"] = r.Transitions
		cov["distinct_nontrivial"] = r.States
		cov["cases"] = r.Cases
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "wall_s": wall.Seconds(), "violations": len(viol),
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	if only == "" {
		if err := writeJSON(filepath.Join(root, "evidence", p.ID+".json"), ev); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d validated=%d outcomes=%d exhaustive=%v known=%d violations=%d wall=%.1fs\n",
		p.ID, tier, r.Cases, r.States, r.Transitions, r.Validated, r.Outcomes, !r.Capped, len(seen), len(viol), wall.Seconds())
	if len(viol) == 0 {
		return exitOK
	}
	for i, f := range viol {
		if i >= 10 {
			fmt.Printf("... and %d more\n", len(viol)-i)
			break
		}
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%016x.json", p.ID, Hash64(f.Key)))
		writeJSON(path, map[string]interface{}{
			"property": p.ID, "tier": tier, "case": f.Case, "clause": f.Clause, "detail": f.Detail, "files": f.Files,
			"replay": fmt.Sprintf("bash /verif/run.sh %s %s -only '%s'", p.ID, tier, f.Case),
		})
		fmt.Printf("  case %s\n    %s: %s\n", f.Case, f.Clause, strings.ReplaceAll(clip(f.Detail, 700), "\n", "\n    "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	return 1
}
