package check

import (
	"fmt"

	"uipcheck/ai"
)

func safety(f func(r *ai.Run)) func(c *Ctx) (*Result, error) {
	return func(c *Ctx) (*Result, error) {
		run, err := ai.New(c.P)
		if err != nil {
			return nil, err
		}
		f(run)
		res := &Result{
			Explain: "Abstract interpretation of the SSA form from the public entry points, for every input: integers as symbols with linear constraints, loops and recursion to a fixed point. Each operation that can panic, and each point the analysis cannot follow, is an obligation.",
			Rules:   []string{"index and slice bounds", "nil dereference", "division", "type assertion", "make size", "map write", "explicit panic", "recursion bounded by an argument that grows towards a bound"},
		}
		obs := run.Obs()
		res.Obligations = len(obs)
		rules := map[string]int{}
		for _, o := range obs {
			rules[o.Rule]++
			if o.Failed {
				res.Violations = append(res.Violations, Violation{
					Key: o.Rule + " " + o.Func + " " + o.What, Site: o.Site, Func: o.Func, Rule: o.Rule,
					Msg: fmt.Sprintf("%s: %s [%s]", o.What, o.Why, o.Entry)})
			} else if len(res.Samples) < 20 {
				res.Samples = append(res.Samples, fmt.Sprintf("%s %s %s (%d times)", o.Site, o.Rule, o.What, o.N))
			}
		}
		res.Functions = run.Analysed()
		res.Extra = map[string]interface{}{"obligations_by_rule": rules, "steps": run.Steps()}
		return res, nil
	}
}

func init() {
	register("C01", "proof", safety(func(r *ai.Run) { r.QueryAll(".ipdb") }))
}
