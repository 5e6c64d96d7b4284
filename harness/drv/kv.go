package drv

import (
	"encoding/json"
	"sort"
	"sync"
	"sync/atomic"
	"testing/synctest"

	"verifhook"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"golang.org/x/sys/unix"
)

// Concurrent histories of the key-value context of connections (C17).
//
// Kind "kv" runs the threads under the scheduler, interleaved between gev's own
// statements; kind "kvr" lets them race for real. A scenario is a number of
// rounds, each on fresh connections.

type kvEv struct {
	at int64
	m  M
}

var kvKeys = []string{"a", "", "b", "key", "A"}

var kvLoop = sync.OnceValue(func() *eventloop.EventLoop {
	l, err := eventloop.New()
	if err != nil {
		panic("harness: eventloop.New: " + err.Error())
	}
	return l
})

type kvCB struct{}

func (kvCB) OnMessage(*gev.Connection, interface{}, []byte) interface{} { return nil }
func (kvCB) OnClose(*gev.Connection)                                    {}

func kvVal(v interface{}) int {
	switch x := v.(type) {
	case nil:
		return 0
	case int:
		return x
	case string: // some values are strings
		if len(x) == 3 {
			return int(x[0])<<16 | int(x[1])<<8 | int(x[2])
		}
	}
	return -1
}

func kvArg(v int) interface{} {
	switch {
	case v == 0:
		return nil
	case v%2 == 0:
		return string([]byte{byte(v >> 16), byte(v >> 8), byte(v)})
	}
	return v
}

// RunKv executes a scenario of either kind. Rounds of a "kv" scenario run in
// one bubble.
func RunKv(scn *Scn, st *Stats) []byte {
	loop := kvLoop()
	real := scn.Kind == "kvr"
	rounds := max(scn.Rounds, 1)
	ev := []M{}
	for r := 0; r < rounds; r++ {
		conns := map[int]*gev.Connection{}
		get := func(c int) *gev.Connection { return conns[c] }
		for _, th := range scn.Thr {
			for _, o := range th {
				if conns[o.C] == nil {
					conns[o.C] = gev.NewConnection(-1, loop, &unix.SockaddrInet4{Port: 1 + o.C}, &gev.DefaultProtocol{}, nil, 0, kvCB{})
				}
			}
		}
		var clk atomic.Int64
		evs := make([][]kvEv, len(scn.Thr))
		var sch *Sched
		if !real {
			pol := scn.Policy
			sch = NewSched(scn.Seed+int64(r)*131, pol, scn.Pre, true)
			verifhook.SetYield(sch.Yield)
			sch.Start()
		}
		run := func(i int, th []Op) {
			add := func(m M) {
				if !real {
					verifhook.Y("op")
				}
				evs[i] = append(evs[i], kvEv{clk.Add(1), m})
			}
			for j, o := range th {
				c := get(o.C)
				key := kvKeys[o.L%len(kvKeys)]
				v := 0
				if o.O == "set" && o.N == 0 {
					v = (i+1)*1000 + j + 1
				}
				add(M{"e": "c", "th": i + 1, "o": o.O, "c": o.C, "k": o.L, "v": v})
				var x interface{}
				ok := false
				switch o.O {
				case "set":
					c.Set(key, kvArg(v))
				case "del":
					c.Delete(key)
				case "get":
					x, ok = c.Get(key)
				}
				add(M{"e": "r", "th": i + 1, "v": kvVal(x), "x": ok})
			}
		}
		if real {
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for i := range scn.Thr {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					run(i, scn.Thr[i])
				}()
			}
			close(gate)
			wg.Wait()
		} else {
			for i := range scn.Thr {
				go func() {
					verifhook.Y("go")
					run(i, scn.Thr[i])
				}()
				if scn.Policy == "enum" {
					synctest.Wait()
				}
			}
			sch.Run()
			st.Sched(sch)
			sch.Stop()
			synctest.Wait()
			verifhook.SetYield(nil)
		}
		ev = append(ev, M{"e": "new"})
		var all []kvEv
		n := 0
		for i := range evs {
			all = append(all, evs[i]...)
			n += 2 * len(scn.Thr[i])
		}
		sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
		for _, e := range all {
			ev = append(ev, e.m)
		}
		if len(all) != n { // an operation never returned
			ev = append(ev, M{"e": "hang"})
		}
	}
	ev = append(ev, M{"e": "end"})
	b, err := json.Marshal(M{"id": scn.ID, "ev": ev})
	if err != nil {
		panic(err)
	}
	return append(b, '\n')
}
