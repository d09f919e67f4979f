//go:build go1.21

package world

// Gen makes plan idx of the search for a property: the same for the same arguments.
func Gen(prop string, seed, idx int64) *Plan {
	p := genPlan(prop, seed, idx)
	if p != nil {
		for _, ops := range [][]Op{p.Ops, p.Boot} {
			for i := range ops {
				if ops[i].Names != nil && len(ops[i].Names) == 0 {
					ops[i].Names = []string{""} // nothing at all; an empty list would not outlast the replay file
				}
			}
		}
	}
	return p
}

func genPlan(prop string, seed, idx int64) *Plan {
	if prop == "C07" && idx%5 == 4 {
		// the parts above the manager, which are updated and used concurrently as well
		p := GenSuite([]string{"C08", "C10", "C15", "C16", "C17", "C18"}[idx/5%6], seed, idx)
		p.Prop = prop
		return p
	}
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C14", "C19":
		return GenCore(prop, seed, idx)
	case "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18":
		return GenSuite(prop, seed, idx)
	case "C20":
		return GenBoot(prop, seed, idx)
	}
	return nil
}

// Run executes a plan. With trace, Outcome.Res.Trace has every scheduling step.
func Run(p *Plan, trace bool) *Outcome {
	switch p.World {
	case "core", "suite":
		return RunCore(p, trace)
	case "boot":
		return RunBoot(p, trace)
	}
	panic("no such world: " + p.World)
}

// Clone is a deep copy.
func (p *Plan) Clone() *Plan { return p.clone() }
