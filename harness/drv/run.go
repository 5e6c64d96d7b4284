package drv

import "math/rand"

// Bubbled says whether a kind of scenario runs under virtual time.
func Bubbled(kind string) bool { return kind != "kvr" }

// Run executes a scenario and returns its trace.
func Run(scn *Scn, st *Stats) []byte {
	switch scn.Kind {
	case "", "srv":
		return RunServer(scn, st)
	case "ws", "pb":
		return RunStream(scn, st)
	case "loop":
		return RunLoop(scn, st)
	case "kv", "kvr":
		return RunKv(scn, st)
	}
	panic("harness: unknown kind " + scn.Kind)
}

// Explorer goes through the schedules of a scenario that differ from the one
// without preemptions in at most a number of choices; in no particular order,
// so that a limited number of them is a sample.
type Explorer struct {
	rng   *rand.Rand
	bound int
	open  []branch
	cur   branch
}

type branch struct {
	base []int // choices of the schedule it branches off
	k    int   // at this step
	alt  int   // taking this choice
	used int   // deviations so far
}

// NewExplorer starts with the schedule without preemptions.
func NewExplorer(seed int64, bound int) *Explorer {
	return &Explorer{rng: rand.New(rand.NewSource(seed)), bound: bound, open: []branch{{k: -1}}}
}

// Next is the prefix of choices of a schedule not executed yet.
func (x *Explorer) Next() (pre []int, ok bool) {
	if len(x.open) == 0 {
		return nil, false
	}
	i := x.rng.Intn(len(x.open))
	x.cur = x.open[i]
	x.open[i] = x.open[len(x.open)-1]
	x.open = x.open[:len(x.open)-1]
	if x.cur.k < 0 {
		return nil, true
	}
	return append(append([]int(nil), x.cur.base[:x.cur.k]...), x.cur.alt), true
}

// Done notes what the schedule of the last Next turned out to be.
func (x *Explorer) Done(s *Sched) {
	for k := x.cur.k + 1; k < len(s.Choices); k++ {
		used := x.cur.used
		if s.Cur[k] >= 0 {
			used++ // somebody could have gone on
		}
		if used > x.bound {
			continue
		}
		for alt := 0; alt < s.Widths[k]; alt++ {
			if alt == s.Def[k] || s.Spin[k] && alt == s.Cur[k] { // spinning on changes nothing
				continue
			}
			x.open = append(x.open, branch{s.Choices, k, alt, used})
		}
	}
}
