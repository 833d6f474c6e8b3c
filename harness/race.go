package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"
)

// Variants that look for data races are executed by a binary that was built
// with the race detector. Its reports are read after every case; those in
// which the code under test makes one of the two accesses are violations.

// exeFor is the binary that executes cases of the variant
func exeFor(v *Variant) string {
	if v.Race {
		if e := os.Getenv("VRUN_RACE"); e != "" {
			return e
		}
	}
	return selfExe()
}

func raceEnv(v *Variant, dir string, all bool) []string {
	if !v.Race {
		return nil
	}
	s := "GORACE=log_path=" + dir + "/race exitcode=0 halt_on_error=0"
	if all {
		s += " suppress_equal_stacks=0 suppress_equal_addresses=0"
	}
	return []string{s}
}

var raceOff int64

// newRaces judges the reports since the last call
func newRaces() string {
	if !raceOn {
		return ""
	}
	m := regexp.MustCompile(`log_path=(\S+)`).FindStringSubmatch(os.Getenv("GORACE"))
	if m == nil {
		return ""
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", m[1], os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil || fi.Size() <= raceOff {
		return ""
	}
	// reports that are being written
	for i := 0; i < 20; i++ {
		time.Sleep(time.Millisecond)
		n, err := f.Stat()
		if err != nil || n.Size() == fi.Size() {
			break
		}
		fi = n
	}
	b := make([]byte, fi.Size()-raceOff)
	n, _ := f.ReadAt(b, raceOff)
	raceOff += int64(n)
	for _, rep := range strings.Split(string(b[:n]), "==================") {
		if v := judgeRace(rep); v != "" {
			return v
		}
	}
	return ""
}

var accRe = regexp.MustCompile(`(?i)(?:previous )?(?:atomic )?(?:read|write) at 0x[0-9a-f]+ by [^\n]*:\n((?:  [^\n]*\n)+)`)

func judgeRace(rep string) string {
	if !strings.Contains(rep, "DATA RACE") {
		return ""
	}
	acc := accRe.FindAllStringSubmatch(rep, -1)
	if len(acc) < 2 {
		return ""
	}
	flow := false
	var what []string
	for _, a := range acc {
		fn, pos := "", ""
		ls := strings.Split(a[1], "\n")
		for i := 0; i+1 < len(ls); i += 2 {
			f := strings.TrimSpace(ls[i])
			if strings.HasPrefix(f, "main.load") || strings.HasPrefix(f, "main.(*Loaded).unload") || strings.HasPrefix(f, "main.(*prog).unload") {
				return "" // the harness adds and removes resources
			}
			if fn == "" && (strings.HasPrefix(f, "main.") || strings.Contains(strings.SplitN(f, "(", 2)[0], "/") && !strings.HasPrefix(f, "internal/") && !strings.HasPrefix(f, "sync/") && !strings.HasPrefix(f, "encoding/") && !strings.HasPrefix(f, "container/")) {
				fn, pos = f, strings.TrimSpace(ls[i+1])
			}
		}
		for _, l := range ls {
			// what is handed to recorders and listeners must not change any longer
			if f := strings.TrimSpace(l); strings.HasPrefix(f, "main.(*recSvc)") || strings.HasPrefix(f, "main.(*evSink)") {
				fn = "github.com/project-flogo/flow data used by " + f
			}
		}
		switch {
		case strings.HasPrefix(fn, "github.com/project-flogo/flow"):
			flow = true
		case strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "verif/"):
			return ""
		}
		if k := strings.LastIndexByte(pos, ' '); k > 0 {
			pos = pos[:k]
		}
		what = append(what, fn+" "+pos)
	}
	if !flow {
		return ""
	}
	return "data race: " + strings.Join(what, " and ") + "\n" + rep
}
