package jx

// Fault makes the encoder write one contradiction at the At-th place where Kind is possible.
type Fault struct {
	Kind string
	At   int
	Seen map[string]int // the places met so far, of every kind
	Hit  bool
}

// Flt, when set, counts the places and plants the contradiction; only single-threaded generation uses it.
var Flt *Fault

func fault(kind string) bool {
	if Flt == nil {
		return false
	}
	n := Flt.Seen[kind]
	Flt.Seen[kind]++
	if Flt.Kind != kind || Flt.At != n {
		return false
	}
	Flt.Hit = true
	return true
}

// PlantFault tells a generator outside this package whether the contradiction goes here.
func PlantFault(kind string) bool { return fault(kind) }
