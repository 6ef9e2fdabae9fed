package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"gosym/sx"
)

type evidenceIn struct {
	prop, tier            string
	seed                  int64
	res                   *sx.Result2
	prog                  *sx.Program
	validated, mismatched int64
	mism                  []string
	viol, known, notes    []string
	wall                  time.Duration
	work                  string
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func writeEvidence(path string, in evidenceIn) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	res := in.res
	var states, trans, asserts, assertQ, instrs, infeas, pending int64
	complete := !res.TimedOut
	var hs []map[string]interface{}
	var samples []interface{}
	incompl := map[string]int64{}
	for _, h := range res.Harness {
		states += h.Paths
		trans += h.Branches
		asserts += h.Asserts
		assertQ += h.AssertQ
		instrs += h.Instrs
		infeas += h.Infeas
		pending += int64(h.Pending)
		for k, v := range h.Incompl {
			incompl[h.Name+": "+k] += v
			complete = false
		}
		if h.Pending > 0 {
			complete = false
		}
		hs = append(hs, map[string]interface{}{"harness": h.Name, "paths": h.Paths, "infeasible": h.Infeas, "assertions": h.Asserts,
			"assertions_put_to_solver": h.AssertQ, "branch_decisions": h.Branches, "instructions": h.Instrs, "complete": len(h.Incompl) == 0 && h.Pending == 0,
			"cpu_s": round(h.Busy().Seconds())})
		for i, s := range h.Samples {
			if i >= 1 || len(samples) >= 8 {
				break
			}
			o := map[string]string{}
			for _, x := range s.Obs {
				if len(x.Val) < 200 {
					o[x.Name] = x.Val
				}
			}
			ins := []string{}
			for _, x := range s.Inputs {
				if len(ins) >= 24 {
					break
				}
				if x.B != nil {
					b := x.B
					if len(b) > 40 {
						b = b[:40]
					}
					ins = append(ins, fmt.Sprintf("%s=%x", x.Name, b))
				} else {
					ins = append(ins, fmt.Sprintf("%s=%d", x.Name, x.U))
				}
			}
			samples = append(samples, map[string]interface{}{"harness": h.Name, "inputs": ins, "observed": o})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"note": "no path of this run depended on inputs alone; see harnesses"})
	}
	funcs := []string{}
	for f := range res.FuncSet {
		nb, cov := 0, 0
		for _, b := range f.Blocks {
			nb++
			if res.Blocks[b] {
				cov++
			}
		}
		funcs = append(funcs, fmt.Sprintf("%s (%d/%d blocks)", strings.TrimPrefix(f.String(), "github.com/Breeze0806/"), cov, nb))
	}
	sort.Strings(funcs)
	wit := map[string]int64{}
	for k := range res.Expected {
		wit[k] = res.Reached[k]
	}
	for k, v := range res.Reached {
		wit[k] = v
	}
	st := res.Solver
	assume := keys(res.Assumes)
	for k := range res.Stubs {
		assume = append(assume, "model: "+k)
	}
	sort.Strings(assume)
	ev := map[string]interface{}{
		"property": in.prop, "tier": in.tier, "seed": in.seed, "level": "model_checking",
		"wall_s": round(in.wall.Seconds()), "violations": len(in.viol),
		"assumptions": assume,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": in.validated,
			"samples":                samples,
			"exhaustive_in_bounds":   complete,
			"infeasible_paths":       infeas,
			"unexplored_prefixes":    pending,
			"incomplete":             incompl,
			"assertions":             asserts,
			"assertions_solver":      assertQ,
			"instructions":           instrs,
			"functions_encoded":      funcs,
			"harnesses":              hs,
			"witnesses":              wit,
			"engine_native_mismatch": in.mism,
			"known_findings_hit":     in.known,
			"notes":                  in.notes,
			"violation_texts":        in.viol,
			"solver": map[string]interface{}{"name": "z3 (z3-new) over a pipe; fallback z3/cvc5", "queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown,
				"answered_from_cache": st.CacheHits, "time_s": round(st.Time.Seconds()), "longest_query_s": round(st.MaxQuery.Seconds()), "fallbacks": st.Fallbacks,
				"cross_checked_with_cvc5": st.CrossChecked, "cross_check_disagreements": st.CrossDisagree},
		},
	}
	writeJSON(path, ev)
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

var _ *ssa.Function
