package drv

import (
	"fmt"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
)

// Stats counts what a driver process did.
type Stats struct {
	mu         sync.Mutex
	Scenarios  int
	Events     int
	Schedules  int
	Steps      int
	Leaks      int
	Enumerated int // schedules executed by enumeration
	Complete   int // scenarios whose schedules were all executed, within the bound
	Kinds      map[string]int
}

// Sched adds a finished schedule.
func (s *Stats) Sched(x *Sched) {
	s.mu.Lock()
	s.Schedules++
	s.Steps += x.Steps
	s.mu.Unlock()
}

var portSeq int

// freeAddr is an address on a loopback IP of this process's own, so that no
// other process can be listening there.
func freeAddr() string {
	portSeq++
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+(pid/62500)%250, (pid/250)%250, 1+pid%250, 20000+portSeq%12000)
}

// fds is the process's open descriptors.
func fds() map[string]bool {
	m := map[string]bool{}
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		panic("harness: " + err.Error())
	}
	self := strconv.Itoa(int(d.Fd()))
	ns, _ := d.Readdirnames(-1)
	d.Close()
	for _, n := range ns {
		if n != self {
			m[n] = true
		}
	}
	return m
}

// goroutines is those that execute code of gev or of what it uses, or were
// started there.
func goroutines() map[string]bool {
	m := map[string]bool{}
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	for n == len(buf) {
		buf = make([]byte, 2*n)
		n = runtime.Stack(buf, true)
	}
	for _, b := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(b, "/Allenxuxu/") || strings.Contains(b, "/RussellLuo/") {
			if f := strings.Fields(b); len(f) > 1 && !strings.Contains(b, "drv.goroutines(") {
				m[f[1]] = true
			}
		}
	}
	return m
}

// dialable says whether something accepts connections at addr.
func dialable(addr string) bool {
	a, err := net.ResolveTCPAddr("tcp4", addr)
	if err != nil {
		return false
	}
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic("harness: socket: " + err.Error())
	}
	defer syscall.Close(fd)
	sa := &syscall.SockaddrInet4{Port: a.Port}
	copy(sa.Addr[:], a.IP.To4())
	return syscall.Connect(fd, sa) == nil
}
