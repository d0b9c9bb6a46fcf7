// Command verif runs the runtime monitors that decide the properties of /verif/properties.jsonl.
//
//	verif check  -p ID -tier quick|thorough        parent: supervises a worker, classifies its end
//	verif worker -p ID -tier ... -seed ... -out F  worker: runs the workload under the monitors
//	verif replay FILE                              reruns the case recorded in a replay file
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

type property struct {
	id   string
	rule string
	run  func(r *Run)
	race bool
}

var properties = map[string]*property{}

func register(id, rule string, run func(r *Run)) *property {
	p := &property{id: id, rule: rule, run: run}
	properties[id] = p
	return p
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif check|worker|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "worker":
		os.Exit(cmdWorker(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		for id := range properties {
			fmt.Println(id)
		}
	case "needsrace":
		if p := properties[os.Args[2]]; p != nil && p.race {
			fmt.Println("race")
		}
	default:
		os.Exit(2)
	}
}

// replayFile identifies one failing case.
type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Unit     string `json:"unit"`
	Index    int    `json:"index"`
	Sig      string `json:"sig"`
	Message  string `json:"message"`
	Case     string `json:"case"`
	Stack    string `json:"stack,omitempty"`
}

func seedFromEnv() int64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			return v
		}
	}
	return 1
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	pid := fs.String("p", "", "property")
	tier := fs.String("tier", "quick", "tier")
	fs.Parse(args)
	p := properties[*pid]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *pid)
		return 2
	}
	start := time.Now()
	seed := seedFromEnv()
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	out := filepath.Join(evDir, ".worker-"+*pid+".json")
	os.Remove(out)

	self, _ := os.Executable()
	cmd := exec.Command(self, "worker", "-p", *pid, "-tier", *tier, "-seed", strconv.FormatInt(seed, 10), "-out", out)
	var stderr bytes.Buffer
	cmd.Stdout = os.Stdout
	cmd.Stderr = &limitedWriter{buf: &stderr, max: 1 << 20}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	err := cmd.Run()

	res := workerResult{}
	if data, e := os.ReadFile(out); e == nil {
		json.Unmarshal(data, &res)
	}
	os.Remove(out)

	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok || ee.ExitCode() == -1 {
			// Killed by a signal we did not cause (out of memory, operator): not an observation about the code.
			fmt.Fprintf(os.Stderr, "worker ended abnormally: %v\n%s\n", err, tail(stderr.String(), 2000))
			return 3
		}
		text := stderr.String()
		if ee.ExitCode() == 3 || strings.Contains(text, "runtime: out of memory") || strings.Contains(text, "cannot allocate memory") {
			fmt.Fprintf(os.Stderr, "worker gave no answer: %v\n%s\n", err, tail(text, 2000))
			return 3
		}
		// A fatal runtime error: race report, checkptr report, unrecovered panic in a goroutine of the code under test,
		// watchdog.
		sig := "fatal"
		switch {
		case strings.Contains(text, "WARNING: DATA RACE"):
			sig = "data-race"
		case strings.Contains(text, "checkptr"):
			sig = "checkptr"
		case strings.Contains(text, "VERIF-WATCHDOG"):
			sig = "hang"
		}
		res.Violations = append(res.Violations, replayFile{Property: *pid, Tier: *tier, Seed: seed, Unit: "*", Sig: sig,
			Message: headLines(text, 60), Stack: tail(text, 60000)})
	}

	known := loadKnown(filepath.Join(verifDir(), "known_findings.jsonl"))
	code := 0
	nviol := 0
	seenSig := map[string]bool{}
	seenKnown := map[string]bool{}
	for _, v := range res.Violations {
		if k := known.match(*pid, v); k != nil {
			if !seenKnown[k.Sig] {
				seenKnown[k.Sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *pid, k.What)
			}
			continue
		}
		nviol++
		key := v.Unit + "/" + v.Sig
		if seenSig[key] || len(seenSig) >= 10 {
			continue
		}
		seenSig[key] = true
		path := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", *pid, len(seenSig)))
		data, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, data, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *pid, path)
		fmt.Printf("  unit=%s sig=%s case=%d: %s\n", v.Unit, v.Sig, v.Index, firstLine(v.Message))
		code = 1
	}

	ev := map[string]interface{}{
		"property": *pid,
		"tier":     *tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         res.Evaluations,
			"distinct_nontrivial": res.Distinct,
			"rule":                p.rule,
			"samples":             res.Samples,
			"oracle_comparisons":  res.Events,
			"units":               res.Units,
			"cases_skipped":       res.Skipped,
			"observed":            res.Counters,
		},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
		"assumptions": []string{"the oracle (math/big and float64 references, and the Go runtime's checkptr/race instrumentation) is right", "library randomness is the machine's crypto/rand; statistical acceptance thresholds have false-alarm probability below 1e-9"},
	}
	if *tier != "thorough" {
		ev["tier"] = "quick"
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, *pid+".json"), data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			return 3
		}
	}
	if code == 0 {
		fmt.Printf("OK property=%s cases=%d comparisons=%d distinct=%d wall=%.1fs\n", *pid, res.Evaluations, res.Events, res.Distinct, time.Since(start).Seconds())
	}
	return code
}

func cmdReplay(args []string) int {
	data, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(data, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := properties[rf.Property]
	if p == nil {
		return 2
	}
	r := newRun(p, rf.Tier, rf.Seed)
	r.onlyUnit, r.onlyIdx = rf.Unit, rf.Index
	p.run(r)
	for _, v := range r.violations {
		fmt.Printf("REPRODUCED property=%s unit=%s sig=%s: %s\n", rf.Property, v.Unit, v.Sig, v.Message)
		if v.Stack != "" {
			fmt.Println(v.Stack)
		}
	}
	if len(r.violations) > 0 {
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func headLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type limitedWriter struct {
	buf *bytes.Buffer
	max int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.buf.Len() < l.max {
		l.buf.Write(p)
	}
	return len(p), nil
}

// known findings: one JSON object per line; "fixed:" lines document repairs and suppress nothing.
type knownEntry struct {
	Property string `json:"property"`
	Unit     string `json:"unit"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

type knownList []knownEntry

func loadKnown(path string) (k knownList) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(data), "\n") {
		line = strings.TrimSpace(line)
		if !strings.HasPrefix(line, "{") {
			continue
		}
		var e knownEntry
		if json.Unmarshal([]byte(line), &e) == nil && e.Property != "" && e.Unit != "" && e.Sig != "" {
			k = append(k, e)
		}
	}
	return
}

func (k knownList) match(pid string, v replayFile) *knownEntry {
	for i := range k {
		if k[i].Property == pid && k[i].Unit == v.Unit && k[i].Sig == v.Sig {
			return &k[i]
		}
	}
	return nil
}
