package drv

import (
	"testing/synctest"

	"verifharness/sim"
	"verifhook"

	"github.com/Allenxuxu/gev/eventloop"
)

// RunLoop executes a scenario on bare event loops (C06): threads queue tasks,
// tasks queue tasks, a thread may stop a loop. The trace is one of GevTrace.
func RunLoop(scn *Scn, st *Stats) []byte {
	oldQ := eventloop.DefaultTaskQueueSize
	defer func() { eventloop.DefaultTaskQueueSize = oldQ }()
	if scn.Cfg.TQ > 0 {
		eventloop.DefaultTaskQueueSize = scn.Cfg.TQ
	}
	k := sim.New(scn.Seed)
	k.MaxEvents = scn.Cfg.MaxEv
	tr := NewTrace()
	s := &Srv{tr: tr, k: k, gids: map[int]int{}, conns: map[int]*cst{}}
	k.OnSys = s.onSys
	verifhook.SetKernel(k)
	defer func() {
		verifhook.SetKernel(nil)
		verifhook.SetYield(nil)
	}()
	loops := make([]*eventloop.EventLoop, max(scn.Cfg.Loops, 1))
	for i := range loops {
		l, err := eventloop.New()
		if err != nil {
			panic("harness: eventloop.New: " + err.Error())
		}
		loops[i] = l
	}
	s.loops = loops
	tr.Add(M{"e": "cfg", "loops": len(loops), "proto": "none", "strategy": "", "idle": 0})
	tr.Add(M{"e": "loops", "n": len(loops)})
	if scn.Mode == "sched" {
		s.sch = NewSched(scn.Seed, scn.Policy, scn.Pre, scn.Fine)
		verifhook.SetYield(s.sch.Yield)
	}
	tr.Add(M{"e": "stt", "k": "call"})
	ended := 0
	for i := range loops {
		go func() {
			verifhook.Y("go")
			loops[i].Run()
			s.mu.Lock()
			ended++
			last := ended == len(loops)
			s.mu.Unlock()
			if last {
				tr.Add(M{"e": "stt", "k": "ret"})
			}
		}()
		synctest.Wait()
	}
	s.quiet()
	stopping := false
	var queue func(l, nest int)
	queue = func(l, nest int) {
		id := s.callID()
		tr.Add(M{"e": "tc", "id": id, "l": l + 1})
		loops[l].QueueInLoop(func() {
			tr.Add(M{"e": "tr", "id": id, "l": l + 1, "g": s.g()})
			for i := 0; i < nest%4; i++ {
				queue((l+nest/4)%len(loops), nest/4)
			}
		})
		tr.Add(M{"e": "tq", "id": id, "l": l + 1})
	}
	stop := func() {
		s.mu.Lock()
		first := !stopping
		stopping = true
		s.mu.Unlock()
		if !first {
			return
		}
		tr.Add(M{"e": "stc", "id": 1})
		for _, l := range loops {
			_ = l.Stop()
		}
		tr.Add(M{"e": "str", "id": 1})
	}
	do := func(o Op) {
		switch o.O {
		case "task":
			queue(o.L%len(loops), o.N)
		case "stop":
			stop()
		}
	}
	for _, g := range scn.Steps {
		for _, o := range g {
			do(o)
		}
		synctest.Wait()
		s.quiet()
	}
	if s.sch != nil {
		s.sch.Start()
	}
	for i := range scn.Par {
		th := scn.Par[i]
		go func() {
			for _, o := range th {
				verifhook.Y("op")
				do(o)
			}
		}()
		if scn.Policy == "enum" {
			synctest.Wait()
		}
	}
	if s.sch != nil {
		s.sch.Run()
		st.Sched(s.sch)
		s.sch.Stop()
	}
	synctest.Wait()
	s.quiet()
	if !stopping {
		go stop()
		synctest.Wait()
		s.quiet()
	}
	tr.Add(M{"e": "end"})
	tr.Close()
	k.Kill()
	return tr.Line(scn.ID)
}
