//go:build go1.22

package drv

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"

	"github.com/binzume/modelconv/zzverif/chk"
)

func writeEvidence(dir, prop, tier string, seed int, st *chk.Stats, states, inter map[uint64]bool, wall float64, violations []interface{}, unconfirmed, crashes, restarts int) {
	os.MkdirAll(dir, 0755)
	faults := 0
	for _, n := range st.Injected {
		faults += n
	}
	samples := st.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	perHour := func(n int) int {
		if wall <= 0 {
			return 0
		}
		return int(float64(n) / wall * 3600)
	}
	var scen []interface{}
	for _, s := range chk.Scenarios(prop) {
		scen = append(scen, map[string]interface{}{"name": s.Name, "real_code": s.Real, "kinds": s.Kinds, "outputs": s.Exts})
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":                 st.Evals,
			"distinct_nontrivial":         len(states),
			"rule":                        "distinct (scenario, input format, output format, outcome, final disk or document state) reached; a run counts as evaluated when it was executed to its end and judged",
			"samples":                     samples,
			"runs_per_hour_one_seed_each": perHour(st.Evals),
			"processes_simulated":         st.Procs,
			"operations_simulated":        st.Ops,
			"program_steps":               st.Steps,
			"simulated_time":              fmt.Sprintf("%d simulated system calls, %d program steps (function entries and loop iterations); the code has no timers, so time is counted in operations and steps (the clock advances 1 ms per look)", st.Ops, st.Steps),
			"faults_injected":             st.Injected,
			"faults_injected_total":       faults,
			"distinct_interleavings":      len(inter),
			"task_switches":               st.Switches,
			"random_choices_drawn":        st.Draws,
			"outcomes":                    st.Outcome,
			"worlds_by_scenario":          st.Scen,
			"scenarios":                   scen,
			"skipped":                     st.Skips,
			"unsupported_syscalls":        st.Unsup,
			"determinism":                 map[string]int{"runs_repeated": st.Twice, "diverged": st.Diverged},
			"unconfirmed_candidates":      unconfirmed,
			"worker_crashes":              crashes,
			"worker_restarts":             restarts,
			"components": map[string]string{
				"real":      "the command (main of cmd/modelconv), all packages of the repository, its dependencies and the Go standard library above the system-call gate",
				"simulated": "kernel file system calls (in-memory disk), process exit and crash, map iteration order and hash seeds, random numbers, clock, process id, temporary names, task scheduling",
				"stub":      "none of the repository's code",
			},
			"go": runtime.Version(),
		},
		"assumptions": []string{
			"the in-memory disk behaves like a POSIX file system for the calls that the program makes",
			"generated inputs stand for inputs in the wild: every format the program reads, small to medium sizes",
			"tasks switch only at system calls and at the function entries and loop iterations of the repository's code (the repository starts no goroutines); memory is sequentially consistent",
		},
		"wall_s":     wall,
		"violations": len(violations),
	}
	writeJSON(filepath.Join(dir, prop+".json"), ev)
}
