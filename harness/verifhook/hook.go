// Package verifhook is the seam between the code under test and the harness.
//
// tools/gendeps.py makes patched copies of gev's dependencies
// (golang.org/x/sys/unix, github.com/Allenxuxu/toolkit, .../ringbuffer and
// RussellLuo/timingwheel) in which the functions gev uses call in here first;
// instr adds yield points between gev's own statements. With no kernel and no
// yield function installed every call goes straight through to the original.
package verifhook

import (
	"reflect"
	"sync"
	"sync/atomic"
)

// Kernel stands in for (or observes) the socket system calls. ok=false means
// "not mine": the original call is made.
type Kernel interface {
	EpollCreate() (fd, errno int, ok bool)
	EpollCtl(epfd, op, fd int, events uint32) (errno int, ok bool)
	EpollWait(epfd int, fds []int32, evs []uint32, msec int) (n, errno int, ok bool)
	Read(fd int, p []byte) (n, errno int, ok bool)
	Write(fd int, p []byte) (n, errno int, ok bool)
	Close(fd int) (errno int, ok bool)
	Accept(fd int) (nfd int, ip []byte, port, errno int, ok bool)
	Eventfd(init, flags int) (fd, errno int)
	Shutdown(fd, how int) (errno int, ok bool)
	SetNonblock(fd int, nonblocking bool) (errno int, ok bool)
	Owns(fd int) bool
}

type kbox struct{ k Kernel }
type ybox struct{ y func(op string) }

var kernel atomic.Value
var yield atomic.Value

// SetKernel installs k (nil removes it).
func SetKernel(k Kernel) { kernel.Store(kbox{k}) }

// K returns the installed kernel or nil.
func K() Kernel {
	if b, ok := kernel.Load().(kbox); ok {
		return b.k
	}
	return nil
}

// SetYield installs the scheduling hook (nil removes it).
func SetYield(y func(op string)) {
	maps.mu.Lock()
	maps.in = nil
	maps.mu.Unlock()
	yield.Store(ybox{y})
}

// Y is called before every synchronising operation and system call.
func Y(op string) {
	if b, ok := yield.Load().(ybox); ok && b.y != nil {
		b.y(op)
	}
}

// Scheduled says whether a yield function is installed.
func Scheduled() bool {
	b, ok := yield.Load().(ybox)
	return ok && b.y != nil
}

var maps struct {
	mu sync.Mutex
	in map[uintptr]*[2]int // readers and writers
}

// Map is called before a statement that reads or writes what m returns. If that
// is a map, the goroutine may be held back here, as it may in the statement
// itself. Two goroutines that are here with one map, one of them to write it,
// can be in their statements at the same time: Go leaves open what happens then.
func Map(write bool, m func() interface{}) {
	if !Scheduled() {
		return
	}
	var p uintptr
	func() {
		defer func() { _ = recover() }()
		if v := reflect.ValueOf(m()); v.Kind() == reflect.Map {
			p = v.Pointer()
		}
	}()
	if p == 0 {
		return
	}
	w := 0
	if write {
		w = 1
	}
	maps.mu.Lock()
	if maps.in == nil {
		maps.in = map[uintptr]*[2]int{}
	}
	x := maps.in[p]
	if x == nil {
		x = new([2]int)
		maps.in[p] = x
	}
	x[w]++
	bad := x[1] > 1 || x[1] == 1 && x[0] > 0
	maps.mu.Unlock()
	if bad {
		panic("concurrent map access")
	}
	Y("s")
	maps.mu.Lock()
	if x[w]--; x[0] == 0 && x[1] == 0 {
		delete(maps.in, p)
	}
	maps.mu.Unlock()
}

var events atomic.Value

// SetEvents makes pollers start with room for n events (0: as many as they like).
func SetEvents(n int) { events.Store(n) }

// Events is the number of events a poller that wants n makes room for at first.
func Events(n int) int {
	if e, ok := events.Load().(int); ok && e > 0 && e < n {
		return e
	}
	return n
}

// PoolGet and PoolPut, when set, replace ringbuffer's sync.Pool by the
// harness's own free list (any reuse order is one sync.Pool may produce).
var (
	PoolGet func() interface{}
	PoolPut func(v interface{}) bool
)

var timerLag atomic.Value

// SetTimerTask installs a function that every timer goroutine calls before it
// runs its task (nil removes it). Under virtual time it must let time pass:
// a task may set a timer that has already expired.
func SetTimerTask(f func()) {
	if f == nil {
		timerLag.Store(ybox{})
		return
	}
	timerLag.Store(ybox{func(string) { f() }})
}

// TimerTask is called at the start of every timer goroutine.
func TimerTask() {
	if b, ok := timerLag.Load().(ybox); ok && b.y != nil {
		b.y("")
	}
}
