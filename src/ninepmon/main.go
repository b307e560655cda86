// Ninepmon runs the code of Harvey-OS/ninep under its monitors. The parent
// makes a scratch directory and starts itself again in it as an unprivileged
// user; that child runs the workload of one property with its oracle.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type check struct {
	run   func(*R)
	level string
	races bool // a data race in the code under test violates it
}

var checks = map[string]check{}

const unprivileged = 61000

func main() {
	id := flag.String("id", "", "property")
	as := flag.String("as", "", "property to report under, if another")
	child := flag.String("child", "", "run as the child in this scratch directory")
	out := flag.String("out", "/verif", "where evidence/ and out/ are")
	limit := flag.Int("limit", 840, "seconds until the run is given up")
	part := flag.Bool("part", false, "a part of a check: no evidence, no verdict lines; print the result")
	flag.Parse()
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c, ok := checks[*id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	if *as == "" {
		*as = *id
	}
	if *child != "" {
		debug.SetTraceback("all")
		log.SetOutput(&sink{})
		syscall.Umask(0)
		r := newR(*id, tier, seed, *child)
		loadDict(filepath.Join(*child, "..", "dict.json"))
		if _, ok := checks[*id+"V"]; ok && os.Getenv("NINEPMON_PART") == "" {
			vt(r)
			r.need("virtual time: pauses", 50)
		}
		c.run(r)
		if r.min["virtual time: pauses"] > 0 {
			r.rule += " A part of it runs on virtual time (testing/synctest): the same oracle with pauses of a second to 400 days between requests, within messages, in handlers and before replies."
		}
		r.finish()
		return
	}
	os.Exit(parent(*id, *as, tier, seed, c, *out, *limit, *part))
}

func parent(id, as, tier string, seed int64, c check, out string, limit int, part bool) int {
	start := time.Now()
	bad := func(f string, a ...any) int {
		fmt.Fprintf(os.Stderr, "check "+id+": "+f+"\n", a...)
		return 2
	}
	scratch, err := os.MkdirTemp("/tmp", "ninepmon-"+id+"-")
	if err != nil {
		return bad("%v", err)
	}
	defer func() {
		// The workload makes directories nobody may enter; root still can.
		os.RemoveAll(scratch)
	}()
	os.Chmod(scratch, 0755)
	for _, d := range []string{"w", "res"} {
		p := filepath.Join(scratch, d)
		if err := os.Mkdir(p, 0700); err != nil {
			return bad("%v", err)
		}
		if err := os.Chown(p, unprivileged, unprivileged); err != nil {
			return bad("%v", err)
		}
	}
	if err := saveDict("/repo", filepath.Join(scratch, "dict.json")); err != nil {
		return bad("%v", err)
	}
	self, err := os.Executable()
	if err != nil {
		return bad("%v", err)
	}
	bins := map[string]string{"ninepmon": self}
	for _, n := range []string{"ufs", "ninepmon-norace", "ninepmon-vt"} {
		bins[n] = filepath.Join(filepath.Dir(self), n)
	}
	for n, src := range bins {
		b, err := os.ReadFile(src)
		if err != nil {
			if n == "ninepmon" {
				return bad("%v", err)
			}
			continue
		}
		if err := os.WriteFile(filepath.Join(scratch, n), b, 0755); err != nil {
			return bad("%v", err)
		}
	}
	cmd := exec.Command(filepath.Join(scratch, "ninepmon"), "-id", id, "-child", filepath.Join(scratch, "w"))
	cmd.Dir = filepath.Join(scratch, "w")
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + cmd.Dir, "TMPDIR=" + cmd.Dir, "GOTRACEBACK=all",
		"VERIF_SEED=" + strconv.FormatInt(seed, 10), "VERIF_TIER=" + tier,
		"NINEPMON_ALL=" + os.Getenv("NINEPMON_ALL"), "GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path=" + filepath.Join(scratch, "res", "race")}
	so, _ := os.Create(filepath.Join(scratch, "res", "stdout"))
	se, _ := os.Create(filepath.Join(scratch, "res", "stderr"))
	cmd.Stdout, cmd.Stderr = so, se
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: &syscall.Credential{Uid: unprivileged, Gid: unprivileged, Groups: []uint32{}}}
	if part {
		cmd.Env = append(cmd.Env, "NINEPMON_PART=1")
	}
	if err := cmd.Start(); err != nil {
		return bad("start: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(time.Duration(limit) * time.Second):
		timedOut = true
		syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	so.Close()
	se.Close()
	stderr, _ := os.ReadFile(filepath.Join(scratch, "res", "stderr"))
	stdout, _ := os.ReadFile(filepath.Join(scratch, "res", "stdout"))
	var res result
	var vio *violation
	if b, e := os.ReadFile(filepath.Join(scratch, "res", "violation.json")); e == nil {
		vio = &violation{}
		if e := json.Unmarshal(b, vio); e != nil {
			vio.What = "violation (report unreadable)"
		}
	}
	races := raceReports(filepath.Join(scratch, "res"))
	if vio == nil && c.races && len(races) > 0 {
		vio = &violation{What: fmt.Sprintf("data race in the code under test (%d reports)", len(races)), Trace: races[:1]}
	}
	if b, e := os.ReadFile(filepath.Join(scratch, "res", "result.json")); e == nil {
		if e := json.Unmarshal(b, &res); e != nil {
			return bad("result: %v", e)
		}
	} else if vio == nil {
		// The child ended without a verdict.
		t := string(stderr)
		if len(t) > 16000 {
			t = t[:16000]
		}
		switch {
		case timedOut:
			os.Stderr.WriteString(t)
			return bad("no verdict within %d s", limit)
		case strings.Contains(t, "HARNESS:"):
			os.Stderr.WriteString(t)
			return bad("the harness failed: %v", err)
		case strings.Contains(firstStack(t), "Harvey-OS/ninep/") && (strings.Contains(t, "panic:") || strings.Contains(t, "fatal error:") || strings.Contains(t, "unexpected signal")):
			vio = &violation{What: "the code under test brought the process down", Trace: []string{t}}
		case err != nil && !strings.Contains(t, "panic:") && !strings.Contains(t, "fatal error:") && exitCode(err) > 0 && exitCode(err) < 10,
			err == nil:
			vio = &violation{What: fmt.Sprintf("the process was ended from within the code under test (%v)", err), Trace: []string{t, string(stdout)}}
		default:
			os.Stderr.WriteString(t)
			return bad("the child failed: %v", err)
		}
	}
	if part {
		b, _ := json.Marshal(map[string]any{"id": id, "result": res, "violation": vio})
		os.Stdout.Write(append(b, '\n'))
		if vio != nil {
			return 1
		}
		if len(res.Starved) > 0 && res.Counts["cases given up for a breach of another property"] == 0 {
			return bad("too little was observed: %v", res.Starved)
		}
		return 0
	}
	// A case that meets a breach of another property ends there; what it would have
	// gone on to observe is missing.
	if vio == nil && len(res.Starved) > 0 && res.Counts["cases given up for a breach of another property"] == 0 {
		return bad("too little was observed: %v", res.Starved)
	}
	if vio == nil && (res.Evaluations == 0 || res.Distinct < 2) {
		return bad("nothing was observed")
	}
	n := 0
	if vio != nil {
		n = 1
	}
	writeEvidence(out, as, tier, seed, c.level, res, n, len(races), time.Since(start).Seconds())
	if vio != nil {
		report(out, as, tier, seed, vio)
		return 1
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", as, res.Evaluations, res.Distinct, time.Since(start).Seconds())
	return 0
}

// firstStack is the report of a crash up to the end of the first goroutine's
// stack, which is the one that crashed.
func firstStack(t string) string {
	i := strings.Index(t, "\ngoroutine ")
	if i < 0 {
		return t
	}
	if j := strings.Index(t[i+1:], "\n\ngoroutine "); j >= 0 {
		return t[:i+1+j]
	}
	return t
}

func exitCode(err error) int {
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode()
	}
	return -1
}

func report(out, as, tier string, seed int64, vio *violation) {
	os.MkdirAll(filepath.Join(out, "out"), 0755)
	rp := filepath.Join(out, "out", as+"-violation.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property: %s\nwhat: %s\nreproduce: VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s\n\ntrace:\n", as, vio.What, seed, tier, as)
	for _, l := range vio.Trace {
		b.WriteString(l + "\n")
	}
	os.WriteFile(rp, []byte(b.String()), 0644)
	fmt.Printf("%s: %s\n", as, vio.What)
	fmt.Printf("VIOLATION property=%s replay=%s\n", as, rp)
}

func writeEvidence(out, as, tier string, seed int64, level string, res result, vios, races int, wall float64) {
	cov := map[string]any{"evaluations": res.Evaluations, "distinct_nontrivial": res.Distinct, "rule": res.Rule, "samples": res.Samples}
	if res.Samples == nil {
		cov["samples"] = []string{}
	}
	obs := map[string]int64{}
	for k, v := range res.Counts {
		obs[k] = v
	}
	obs["data race reports with frames in the code under test"] = int64(races)
	cov["observed"] = obs
	ev := map[string]any{"property": as, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": wall, "violations": vios,
		"assumptions": res.Assume}
	if res.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(out, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(out, "evidence", as+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// raceReports returns the race detector's reports that concern the code under
// test.
func raceReports(dir string) []string {
	l, _ := filepath.Glob(filepath.Join(dir, "race*"))
	sort.Strings(l)
	var r []string
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "DATA RACE") && strings.Contains(rep, "Harvey-OS/ninep/") {
				r = append(r, rep)
			}
		}
	}
	return r
}
