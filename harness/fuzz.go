package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
)

// fuzzSubs are the checks that the thorough tier also drives with Go's
// coverage-guided fuzzer (see FuzzSub): those that work in memory only.
var fuzzSubs = map[string][]string{
	"C01": {"suffix"}, "C02": {"prefix"}, "C03": {"range"}, "C04": {"tag"}, "C05": {"file"},
	"C11": {"encode"}, "C12": {"pure"}, "C13": {"auto"}, "C14": {"failover"}, "C15": {"errors"}, "C17": {"dispatch"},
	"C18": {"toplevel"}, "C19": {"fidelity"}, "C20": {"tolerance"}, "C21": {"decodedata"}, "C22": {"bytes", "cards"},
	"C24": {"jcard"}, "C25": {"contact"}, "C26": {"tree"}, "C27": {"library"}, "C28": {"options"}, "C29": {"whois"}, "C35": {"histories"}, "C36": {"histories"},
}

var execsRE = regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+)`)

// fuzz runs the coverage-guided search on one check for |secs| seconds.
func fuzz(id, name string, seed, secs int, dir string) (stats map[string]any, fail *failure, trouble string) {
	d := filepath.Join(dir, "fuzz-"+name)
	if err := os.MkdirAll(filepath.Join(d, "tmp"), 0o755); err != nil {
		infra("%s", err)
	}
	out := filepath.Join(d, "fail.json")
	cmd := exec.Command(os.Getenv("VERIF_FUZZ_BIN"), "-test.run=^$", "-test.fuzz=^FuzzSub$", "-test.fuzzcachedir="+filepath.Join(d, "cache"),
		"-test.fuzztime="+strconv.Itoa(secs)+"s", "-test.fuzzminimizetime=1x", "-test.timeout=0")
	cmd.Env = append(cleanEnv(filepath.Join(d, "tmp")), "VERIF_FUZZ="+id+"/"+name, "VERIF_FUZZ_OUT="+out, "VERIF_SEED="+strconv.Itoa(seed))
	cmd.Dir = d
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	err := cmd.Run()
	stats = map[string]any{"seconds": secs}
	if m := execsRE.FindAllSubmatch(b.Bytes(), -1); len(m) > 0 {
		n, _ := strconv.Atoi(string(m[len(m)-1][1]))
		i, _ := strconv.Atoi(string(m[len(m)-1][2]))
		stats["executions"], stats["inputs_with_new_coverage"] = n, i
	}
	if err == nil {
		return stats, nil, ""
	}
	if raw, e := os.ReadFile(out); e == nil {
		var f failure
		if json.Unmarshal(raw, &f) == nil {
			return stats, &f, ""
		}
	}
	return stats, nil, b.String()
}
