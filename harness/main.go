package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2]))
	case "worker":
		cmdWorker(os.Args[2:])
	case "replay":
		os.Exit(cmdReplay(os.Args[2]))
	case "list":
		for _, p := range props {
			fmt.Println(p.ID, p.Race, p.Title)
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness check ID | replay FILE | list")
	os.Exit(2)
}

func envSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n
	}
	return deriveSeed(0, s)
}

func envTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func envScale() float64 {
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && f > 0 {
		return f
	}
	return 1
}

// worker ID TIER SEED I N OUT JOURNAL
func cmdWorker(a []string) {
	prop := findProp(a[0])
	seed, _ := strconv.ParseUint(a[2], 10, 64)
	i, _ := strconv.Atoi(a[3])
	n, _ := strconv.Atoi(a[4])
	out := a[5]
	current.journal = a[6]
	watchdog(25*time.Second, 2500<<20, out+".case")
	res := runWorker(prop, a[1], seed, i, n, envScale(), os.Getenv("VERIF_PART"))
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		panic(err)
	}
}

func cmdReplay(path string) int {
	watchdog(100*time.Second, 3000<<20, "")
	r, msg, err := replay(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return replayError
	}
	if msg != "" {
		fmt.Printf("property %s, part %s does not hold:\n%s\ncase: %s\n", r.Property, r.Part, msg, truncate(string(r.Case), 4000))
		return 1
	}
	fmt.Printf("property %s, part %s holds for this case\n", r.Property, r.Part)
	return 0
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type procResult struct {
	code   int
	stderr string
}

func runProc(self string, args ...string) procResult {
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(raceExit))
	var buf bytes.Buffer
	cmd.Stderr = &buf
	cmd.Stdout = &buf
	err := cmd.Run()
	res := procResult{0, buf.String()}
	if err != nil {
		res.code = 99
		if ee, ok := err.(*exec.ExitError); ok {
			res.code = ee.ExitCode() // -1 if signaled
		}
	}
	return res
}

const (
	raceExit    = 66
	replayError = 79 // a replay file can't be used (a Go program that panics exits with 2)
)

// schedFault is if a process ended because of a data race
func schedFault(r procResult) bool {
	return r.code == raceExit && strings.Contains(r.stderr, "WARNING: DATA RACE") ||
		r.code == 2 && strings.Contains(r.stderr, "fatal error: concurrent map")
}

func cmdCheck(id string) int {
	start := time.Now()
	prop := findProp(id)
	if prop == nil {
		fmt.Fprintf(os.Stderr, "no property %q\n", id)
		return 2
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	tier, seed := envTier(), envSeed()
	// A fixed number so that a run is a function of the code and the seed
	const workers = 8

	var mu sync.Mutex
	total := &workerOut{Labels: map[string]int64{}, PartEvals: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	var candidates []Replay
	var errors []string
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	// Parts which control the schedule are run by another program
	program := func(part string) string {
		for _, p := range prop.Parts {
			if p.Name == part && p.Sched {
				return os.Getenv("VERIF_SCHED")
			}
		}
		return self
	}
	programs := []string{self}
	for _, p := range prop.Parts {
		if p.Sched && len(programs) == 1 {
			if s := program(p.Name); s != "" {
				programs = append(programs, s)
			} else {
				fmt.Printf("note: %s: there's no program to run the parts which control schedules\n", id)
			}
		}
	}
	for k := 0; k < workers*len(programs); k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			i, self := k%workers, programs[k/workers]
			out := filepath.Join(tmp, fmt.Sprintf("w%d", k))
			args := []string{"worker", id, tier, strconv.FormatUint(seed, 10), strconv.Itoa(i), strconv.Itoa(workers), out}
			journal := ""
			if prop.Race {
				// It may not happen again
				journal = out + ".journal"
			}
			res := runProc(self, append(args, journal)...)
			mu.Lock()
			defer mu.Unlock()
			if res.code != 0 {
				cand := ""
				switch res.code {
				case exitHang, exitHeap:
					cand = out + ".case"
				default:
					// The runtime ended the process (stack overflow, race
					// detected, fatal error): find the case with a journal.
					if schedFault(res) && journal != "" {
						cand = journal
						break
					}
					j := out + ".journal"
					for try := 0; try < 3 && cand == ""; try++ {
						if r2 := runProc(self, append(args, j)...); r2.code != 0 {
							cand = j
							res = r2
						}
					}
				}
				var r Replay
				if b, err := os.ReadFile(cand); err == nil && json.Unmarshal(b, &r) == nil {
					r.Message = truncate(r.Message+"\n"+res.stderr, 6000)
					r.sched = schedFault(res)
					candidates = append(candidates, r)
				} else {
					errors = append(errors, fmt.Sprintf("worker %d exited with %d: %s", i, res.code, truncate(res.stderr, 4000)))
				}
				return
			}
			var o workerOut
			b, err := os.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(b, &o)
			}
			if err != nil {
				errors = append(errors, err.Error())
				return
			}
			total.Evaluations += o.Evaluations
			total.Enumerated += o.Enumerated
			total.Nontrivial += o.Nontrivial
			for k, v := range o.Labels {
				total.Labels[k] += v
			}
			for k, v := range o.PartEvals {
				total.PartEvals[k] += v
			}
			for _, h := range o.Hashes {
				distinct[h] = struct{}{}
			}
			total.Samples = append(total.Samples, o.Samples...)
			for _, r := range o.Failures {
				r.checked = true
				candidates = append(candidates, r)
			}
			if o.Error != "" {
				errors = append(errors, o.Error)
			}
		}(k)
	}
	wg.Wait()

	// Confirm candidates in a fresh process, the smallest of each part
	sort.SliceStable(candidates, func(i, j int) bool {
		a, b := candidates[i], candidates[j]
		if a.Part != b.Part {
			return a.Part < b.Part
		}
		if len(a.Case) != len(b.Case) {
			return len(a.Case) < len(b.Case)
		}
		return string(a.Case) < string(b.Case)
	})
	confirmed := map[string]bool{}
	violations := 0
	for _, c := range candidates {
		if confirmed[c.Part] {
			continue
		}
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", id, c.Part, caseHash(c.Part, c.Case)))
		write := func() bool {
			b, _ := json.MarshalIndent(c, "", " ")
			err := os.WriteFile(path, b, 0644)
			if err != nil {
				errors = append(errors, err.Error())
			}
			return err == nil
		}
		spec := c.Worker
		c.Worker = nil
		threads, measured := false, false
		for _, p := range prop.Parts {
			if p.Name == c.Part {
				threads, measured = p.Threads, p.Measured
			}
		}
		if threads {
			spec = nil
		}
		if !write() {
			continue
		}
		// Running a case is deterministic, unless the code under test isn't
		self := program(c.Part)
		res := runProc(self, "replay", path)
		for i := 0; i < 4 && res.code == 0 && !threads; i++ {
			res = runProc(self, "replay", path)
		}
		if res.code == 0 && spec != nil {
			// State which outlives a case may be involved
			c.Worker = spec
			if !write() {
				continue
			}
			res = runProc(self, "replay", path)
		}
		switch {
		case res.code == replayError || res.code < 0 || res.code == 99:
			errors = append(errors, fmt.Sprintf("%s: replay exited with %d: %s", path, res.code, truncate(c.Message, 3000)))
			continue
		case res.code != 0:
			// reproduced
		case measured:
			// Something else used memory meanwhile
			fmt.Printf("note: %s: not reproduced: %s\n", path, truncate(c.Message, 3000))
			continue
		case c.sched || c.checked:
			// What was seen can't happen in any schedule if the property holds,
			// so this stands whether or not it happens again.
			c.Message += "\n(it doesn't happen every time and didn't happen again when it was replayed)"
			write()
		default:
			errors = append(errors, fmt.Sprintf("%s: not reproduced: %s", path, truncate(c.Message, 3000)))
			continue
		}
		confirmed[c.Part] = true
		violations++
		fmt.Printf("%s part %s: %s\ncase: %s\n", id, c.Part, truncate(c.Message, 3000), truncate(string(c.Case), 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}

	if prop.Known != nil {
		for _, l := range prop.Known(readKnown(verif, id)) {
			fmt.Println(l)
		}
	}

	if err := writeEvidence(verif, prop, tier, seed, total, len(distinct), violations, time.Since(start)); err != nil {
		errors = append(errors, err.Error())
	}
	fmt.Printf("%s %s: %d cases (%d enumerated), %d distinct non-trivial, %d violations, %.1fs\n", id, tier,
		total.Evaluations, total.Enumerated, len(distinct), violations, time.Since(start).Seconds())
	for _, e := range errors {
		fmt.Fprintln(os.Stderr, "error:", e)
	}
	if violations > 0 {
		return 1
	}
	if len(errors) > 0 {
		return 3
	}
	return 0
}

// readKnown reads the known findings of a property: lines such as
// "KNOWN-FINDING: property=C08 id=two-shadowed ...".
func readKnown(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING: property="+id+" ") {
			continue
		}
		for _, w := range strings.Fields(l) {
			if k, ok := strings.CutPrefix(w, "id="); ok {
				out[k] = l
			}
		}
	}
	return out
}

func writeEvidence(verif string, prop *Prop, tier string, seed uint64, t *workerOut, distinct, violations int, wall time.Duration) error {
	samples := t.Samples
	sort.SliceStable(samples, func(i, j int) bool { return samples[i].Part < samples[j].Part })
	var picked []sample
	perPart := map[string]int{}
	for _, s := range samples {
		if perPart[s.Part] < 2 {
			perPart[s.Part]++
			picked = append(picked, s)
		}
	}
	if picked == nil {
		picked = []sample{}
	}
	ev := map[string]any{
		"property": prop.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         t.Evaluations,
			"enumerated":          t.Enumerated,
			"nontrivial":          t.Nontrivial,
			"distinct_nontrivial": distinct,
			"rule":                prop.Rule,
			"evaluations_by_part": t.PartEvals,
			"labels":              t.Labels,
			"samples":             picked,
		},
		"assumptions": prop.Notes,
		"wall_s":      wall.Seconds(),
		"violations":  violations,
	}
	if prop.Notes == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop.ID+".json"), append(b, '\n'), 0644)
}
