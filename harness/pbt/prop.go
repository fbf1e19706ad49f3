package pbt

import "sort"

// Phase is one way of generating cases for a property.
type Phase struct {
	Name     string
	Quick    int // number of cases
	Thorough int
	Run      func(t *T)
	Race     bool // run under the race detector
	Sched    bool // schedules goroutines by hooks in locks, which other means of waiting defeat
	Clock    bool // run each case in a testing/synctest bubble (fake clock)
	Procs    int  // GOMAXPROCS of a worker (default 1)
	Workers  int  // number of workers (default: one per core)
	Guided   bool // choices are mutated, guided by what the code under test reached
	NoRerun  bool // a failed case is evidence by itself (its schedule need not repeat)
}

// Prop is a property with its phases.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Phases      []Phase
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p Prop) {
	if registry[p.ID] != nil {
		panic("registered twice: " + p.ID)
	}
	q := p
	registry[p.ID] = &q
	q.Phases = append(q.Phases, added[p.ID]...)
	delete(added, p.ID)
}

var added = map[string][]Phase{}

// AddPhase adds a phase to a property registered before or later.
func AddPhase(id string, ph Phase) {
	if p := registry[id]; p != nil {
		p.Phases = append(p.Phases, ph)
		return
	}
	added[id] = append(added[id], ph)
}

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (ph *Phase) cases(tier string) int {
	if tier == "thorough" {
		return ph.Thorough
	}
	return ph.Quick
}

func caseSeed(seed uint64, prop, phase string, index uint64) uint64 {
	return mix(mix(seed, hashString(prop+"/"+phase)), index)
}
