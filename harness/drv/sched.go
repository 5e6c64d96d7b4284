package drv

import (
	"math/rand"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// Sched runs the goroutines of a bubble one at a time: each parks before every
// synchronising operation or system call (verifhook.Y), and Run releases one,
// waits until everything is blocked again, and so on until nothing is parked.
type Sched struct {
	on      atomic.Bool
	mu      sync.Mutex
	parked  []*waiter
	rng     *rand.Rand
	policy  string
	prio    map[int]int
	change  map[int]bool
	last    int
	Steps   int
	Max     int
	Choices []int // for enumeration: index chosen at each step (replayed first)
	Widths  []int
	Cur     []int // position of the running goroutine among the parked, -1 if none
	Def     []int // the choice without a preemption
	Spin    []bool
	pre     []int
	Over    bool
	self    int // the controller's goroutine
	fine    bool
	// Lag lets time pass although goroutines could run; Pending says whether
	// somebody sleeps whom Run has to wait for.
	Lag     func(d time.Duration)
	Pending func() bool
	lags    int
}

type waiter struct {
	g  int
	op string
	ch chan struct{}
}

// NewSched makes a scheduler; policy is "rand", "pct", "stick" or "enum". If
// fine, goroutines can also be interleaved between gev's own statements.
func NewSched(seed int64, policy string, pre []int, fine bool) *Sched {
	s := &Sched{rng: rand.New(rand.NewSource(seed)), policy: policy, prio: map[int]int{}, change: map[int]bool{}, last: -1, Max: 20000, pre: pre, self: Gid(), fine: fine}
	span := 150
	if fine {
		s.Max, span = 60000, 1500
	}
	if policy == "pct" {
		d := 1 + s.rng.Intn(4)
		for i := 0; i < d; i++ {
			s.change[1+s.rng.Intn(span)] = true
		}
	}
	cur.Store(s)
	return s
}

var cur atomic.Pointer[Sched]

// Parked is the number of goroutines the current scheduler holds back.
func Parked() int {
	s := cur.Load()
	if s == nil {
		return 0
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.parked)
}

// Last is the current scheduler.
func Last() *Sched { return cur.Load() }

// Forget drops the current scheduler.
func Forget() { cur.Store(nil) }

// Yield is the verifhook.Y function.
func (s *Sched) Yield(op string) {
	if !s.on.Load() || op == "s" && !s.fine {
		return
	}
	g := Gid()
	if g == s.self {
		return
	}
	w := &waiter{g: g, op: op, ch: make(chan struct{})}
	s.mu.Lock()
	if !s.on.Load() {
		s.mu.Unlock()
		return
	}
	s.parked = append(s.parked, w)
	s.mu.Unlock()
	<-w.ch
}

// Start begins scheduling.
func (s *Sched) Start() { s.on.Store(true) }

// Stop ends scheduling and lets everything run.
func (s *Sched) Stop() {
	s.mu.Lock()
	s.on.Store(false)
	for _, w := range s.parked {
		close(w.ch)
	}
	s.parked = nil
	s.Pending, s.Lag = nil, nil
	s.mu.Unlock()
}

// Run schedules until nothing is parked.
func (s *Sched) Run() {
	for {
		synctest.Wait()
		s.mu.Lock()
		n := len(s.parked)
		if n == 0 {
			s.mu.Unlock()
			if s.Pending != nil && s.Pending() {
				time.Sleep(200 * time.Microsecond)
				continue
			}
			return
		}
		if s.Lag != nil && s.lags < 4 && s.rng.Intn(25) == 0 {
			s.lags++
			s.mu.Unlock()
			s.Lag([]time.Duration{1000, 1500, 2500, 4000, 8000}[s.rng.Intn(5)] * time.Microsecond)
			continue
		}
		if s.Steps >= s.Max {
			s.Over = true
			s.mu.Unlock()
			return
		}
		i := s.pick()
		w := s.parked[i]
		s.parked = append(s.parked[:i], s.parked[i+1:]...)
		s.last = w.g
		s.Steps++
		s.mu.Unlock()
		close(w.ch)
	}
}

func (s *Sched) pick() int {
	n := len(s.parked)
	cur := -1
	for i, w := range s.parked {
		if w.g == s.last {
			cur = i
		}
	}
	switch s.policy {
	case "enum":
		// order by goroutine so that indices mean the same on replay
		for i := 1; i < n; i++ {
			for j := i; j > 0 && s.parked[j-1].g > s.parked[j].g; j-- {
				s.parked[j-1], s.parked[j] = s.parked[j], s.parked[j-1]
			}
		}
		cur = -1
		for i, w := range s.parked {
			if w.g == s.last {
				cur = i
			}
		}
		k := len(s.Choices)
		c := 0
		if cur >= 0 {
			c = cur
		}
		spin := cur >= 0 && n > 1 && s.parked[cur].op == "SpinLock.retry"
		if spin {
			c = (cur + 1) % n // let the holder run
		}
		s.Def = append(s.Def, c)
		s.Spin = append(s.Spin, spin)
		if k < len(s.pre) && s.pre[k] < n {
			c = s.pre[k]
		}
		s.Choices = append(s.Choices, c)
		s.Widths = append(s.Widths, n)
		s.Cur = append(s.Cur, cur)
		return c
	case "pct":
		if s.change[s.Steps] && s.last >= 0 {
			s.prio[s.last] = -s.Steps
		}
		best := -1
		for i, w := range s.parked {
			if _, ok := s.prio[w.g]; !ok {
				s.prio[w.g] = 1 + s.rng.Intn(1<<20)
			}
			if best < 0 || s.prio[w.g] > s.prio[s.parked[best].g] {
				best = i
			}
		}
		// a spinning goroutine must not starve the one it waits for
		if s.rng.Intn(40) == 0 {
			return s.rng.Intn(n)
		}
		return best
	case "stick":
		if cur >= 0 && s.rng.Intn(4) != 0 {
			if s.parked[cur].op != "SpinLock.retry" {
				return cur
			}
		}
		return s.rng.Intn(n)
	}
	return s.rng.Intn(n)
}
