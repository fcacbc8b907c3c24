package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	. "verif/rsim/sc"
)

type ev map[string]interface{}

func (e ev) write() error {
	dir := filepath.Join(root, "evidence")
	if err := os.MkdirAll(dir, 0o777); err != nil {
		return err
	}
	b, err := json.MarshalIndent(map[string]interface{}(e), "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, e["property"].(string)+".json"), append(b, '\n'), 0o666)
}

func evidence(prop, tier string, seed uint64, t *counters, cases, nsigs int, sites map[string]bool, samples []*Case, simWall, wall float64, viol int, foreign []*found, crashes int) ev {
	bySite := map[string]int{}
	for s := range sites {
		bySite[s[:strings.IndexByte(s, '@')]]++
	}
	smp := []interface{}{}
	for _, c := range samples {
		smp = append(smp, c)
	}
	if len(smp) == 0 {
		smp = append(smp, fmt.Sprintf("seed %d: no short case in this run", seed))
	}
	fs := []string{}
	for k := range t.Foreign {
		fs = append(fs, k)
	}
	sort.Strings(fs)
	cov := map[string]interface{}{
		"evaluations":         cases,
		"distinct_nontrivial": nsigs,
		"rule":                "A case is one simulated execution (" + ruleOf(prop) + ") drawn from the seed: configuration, operations, operand lifetimes, schedule and faults. It is non-trivial if at least one scheduling event or fault took effect inside a call of the library; two cases are distinct if the sequences of (event kind, source line of the library where it took effect, operation) differ.",
		"samples":             smp,

		"simulated_runs_per_hour":                  int64(float64(cases) / simWall * 3600),
		"executions_including_strips_and_variants": t.Runs,
		"simulated_steps":                          t.Steps,
		"simulated_time":                           "the system has no clock; simulated time is counted in yield points (statements and memory accesses of the library)",
		"max_steps_of_one_operation":               t.MaxSteps,
		"largest_diagram_with_many_variables":      t.MaxWide,
		"operations":                               t.Ops,
		"operations_skipped":                       t.Skipped,
		"operations_by_kind":                       t.Kinds,
		"library_calls":                            t.Calls,
		"collections":                              t.GCs,
		"table_resizes":                            t.Resizes,
		"calls_failed_for_lack_of_nodes":           t.MemFails,
		"full_audits":                              t.Audits,
		"events_configured":                        t.Configured,
		"events_and_faults_fired":                  t.Fired,
		"thread_switches_between_programs":         t.Preempt,
		"rare_conditions_reached":                  t.Probes,
		"distinct_event_sites":                     bySite,
		"runs_with_events":                         t.Nontrivial,
		"violations_of_other_properties_met":       t.Foreign,
		"builds":                                   builds,
		"32_bit_builds_not_usable":                 absent,
		"worker_crashes":                           crashes,
		"yield_points_in_instrumented_copy":        inst.Yields,
		"read_modify_writes_split":                 inst.Splits,
		"components": map[string]string{
			"real":      "all code of the library (operations, caches, node tables of both builds, collector, finalizer function, kernel API, printers), compiled from the current tree with yield points inserted; the Go runtime's reachability analysis decides which operands are unreachable during a call",
			"simulated": "thread scheduling, sync and sync/atomic, when and where finalizers run, garbage collection hints, callbacks and writers (which run operations, fail, panic or write short)",
		},
	}
	return ev{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the instrumented copy behaves as the original (it inserts yield points and splits read-modify-writes; sequentially consistent memory)",
			"functions have at most 8 active variables (the model is a truth table), except the wide functions, with 18 to 129 variables, which are compared with a reference diagram",
		},
		"wall_s": wall, "violations": viol,
	}
}

func ruleOf(prop string) string {
	switch prop {
	case "C16":
		return "two or three programs on BDDs of their own in preemptively scheduled threads"
	case "C17":
		return "one program executed under three configurations and schedules, and by all builds"
	}
	return "one program on one BDD, with the finalizer thread"
}
