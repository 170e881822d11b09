package main

// specials are scenarios with their own main function, by profile name.
var specials = map[string]func(r *Run){}

func isSpecial(p string) bool {
	switch p {
	case "lock", "libdb", "store", "delta", "ctl":
		return true
	}
	return false
}

// specialPlan: everything else follows from the seed.
func specialPlan(profile string, seed uint64) *Plan {
	g := newGen(profile, seed)
	g.p.N = 1 + g.n(40)
	return g.p
}
