#!/usr/bin/env python3
"""Make patched copies of gev's dependencies under DEST (argv[1]).

The copies come from the module cache, at the versions /repo's go.mod asks for,
so gev is compiled unchanged and only what lies underneath it is instrumented.
"""
import os, re, shutil, sys, subprocess

def modver(gomod, path):
    m = re.search(r'^\s*' + re.escape(path) + r'\s+(\S+)', gomod, re.M)
    if not m:
        raise SystemExit("gendeps: %s not in go.mod" % path)
    return m.group(1)

def cachedir(path, ver):
    esc = re.sub(r'[A-Z]', lambda m: '!' + m.group(0).lower(), path)
    base = os.environ.get('GOMODCACHE', '/root/go/pkg/mod')
    return os.path.join(base, esc + '@' + ver)

def copy(src, dst, keep):
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if keep(r):
                os.makedirs(os.path.dirname(os.path.join(dst, r)) or dst, exist_ok=True)
                shutil.copyfile(os.path.join(root, f), os.path.join(dst, r))

def sub1(path, pat, rep, count=1, flags=0):
    s = open(path).read()
    s2, n = re.subn(pat, rep, s, count=count, flags=flags)
    if n < 1:
        raise SystemExit("gendeps: %r not found in %s" % (pat, path))
    open(path, 'w').write(s2)

def main():
    dest = sys.argv[1]
    repo = os.environ.get('GEV_REPO', '/repo')
    gomod = open(os.path.join(repo, 'go.mod')).read()
    os.makedirs(dest, exist_ok=True)

    # ---- golang.org/x/sys/unix
    sysv = modver(gomod, 'golang.org/x/sys')
    src = cachedir('golang.org/x/sys', sysv)
    d = os.path.join(dest, 'sys')
    bad = re.compile(r'_(aix|darwin|dragonfly|freebsd|netbsd|openbsd|solaris|windows|plan9|zos)|_(386|arm|arm64|mips\w*|ppc\w*|riscv64|s390x|sparc64)\.(go|s)$|_test\.go$')
    copy(src, d, lambda r: r == 'go.mod' or r.startswith('internal/') or
         (r.startswith('unix/') and r.count('/') == 1 and r.endswith(('.go', '.s')) and not bad.search(r)))
    u = os.path.join(d, 'unix')
    where = {}
    for f in os.listdir(u):
        if f.endswith('.go') and f not in ('mkall.go', 'mkpost.go', 'mksyscall.go'):
            for m in re.finditer(r'^func (\w+)\(', open(os.path.join(u, f)).read(), re.M):
                where[m.group(1)] = f
    for fn in ('Read', 'Write', 'Close', 'EpollCreate1', 'EpollCtl', 'EpollWait', 'Accept', 'Accept4',
               'Shutdown', 'SetNonblock', 'SetsockoptInt', 'GetsockoptInt', 'Writev', 'Readv', 'CloseOnExec'):
        sub1(os.path.join(u, where[fn]), r'(?m)^func %s\(' % fn, 'func verifOrig%s(' % fn)
    # Syscall is implemented in assembly
    n = 0
    for f in os.listdir(u):
        if f.endswith('.s') and 'linux_amd64' in f:
            p = os.path.join(u, f)
            t = open(p).read()
            t2 = t.replace('\u00b7Syscall(SB)', '\u00b7verifOrigSyscall(SB)', 1)
            n += t != t2
            open(p, 'w').write(t2)
    if n != 1:
        raise SystemExit('gendeps: Syscall in assembly: %d' % n)
    for f in ('syscall_unix_gc.go',):
        sub1(os.path.join(u, f), r'(?m)^func Syscall\(', 'func verifOrigSyscall(')
    open(os.path.join(u, 'zz_verif.go'), 'w').write(UNIX)
    with open(os.path.join(d, 'go.mod'), 'a') as f:
        f.write('\nrequire verifhook v0.0.0\n')

    # ---- github.com/Allenxuxu/toolkit
    tv = modver(gomod, 'github.com/Allenxuxu/toolkit')
    src = cachedir('github.com/Allenxuxu/toolkit', tv)
    d = os.path.join(dest, 'toolkit')
    copy(src, d, lambda r: not r.endswith('_test.go') and r.endswith(('.go', 'go.mod')))
    for f in ('bool', 'int'):
        p = os.path.join(d, 'sync/atomic/%s.go' % f)
        s = open(p).read()
        s = re.sub(r'(?m)^(func \(a \*(\w+)\) (\w+)\(.*\{)$', r'\1\n\tverifhook.Y("\2.\3")', s)
        s = s.replace('import "sync/atomic"', 'import (\n\t"sync/atomic"\n\n\t"verifhook"\n)')
        open(p, 'w').write(s)
    open(os.path.join(d, 'sync/spinlock/spinlock.go'), 'w').write(SPIN)
    open(os.path.join(d, 'sync/waitgroup.go'), 'w').write(WG)
    with open(os.path.join(d, 'go.mod'), 'a') as f:
        f.write('\nrequire verifhook v0.0.0\n')

    # ---- github.com/Allenxuxu/ringbuffer
    rv = modver(gomod, 'github.com/Allenxuxu/ringbuffer')
    src = cachedir('github.com/Allenxuxu/ringbuffer', rv)
    d = os.path.join(dest, 'ringbuffer')
    copy(src, d, lambda r: not r.endswith('_test.go') and r.endswith(('.go', 'go.mod')))
    p = os.path.join(d, 'pool.go')
    sub1(p, r'func \(p \*Pool\) Get\(\) \*RingBuffer \{', 'func (p *Pool) Get() *RingBuffer {\n\tif g := verifhook.PoolGet; g != nil {\n\t\tif v := g(); v != nil {\n\t\t\treturn v.(*RingBuffer)\n\t\t}\n\t\treturn New(int(atomic.LoadUint64(&p.defaultSize)))\n\t}')
    sub1(p, r'func \(p \*Pool\) Put\(b \*RingBuffer\) \{', 'func (p *Pool) Put(b *RingBuffer) {\n\tif g := verifhook.PoolPut; g != nil {\n\t\tb.Reset()\n\t\tif g(b) {\n\t\t\treturn\n\t\t}\n\t}')
    sub1(p, r'"sync/atomic"\n', '"sync/atomic"\n\n\t"verifhook"\n')
    with open(os.path.join(d, 'go.mod'), 'a') as f:
        f.write('\nrequire verifhook v0.0.0\n')

    # ---- github.com/RussellLuo/timingwheel
    wv = modver(gomod, 'github.com/RussellLuo/timingwheel')
    src = cachedir('github.com/RussellLuo/timingwheel', wv)
    d = os.path.join(dest, 'timingwheel')
    copy(src, d, lambda r: not r.endswith('_test.go') and r.endswith(('.go', 'go.mod')))
    p = os.path.join(d, 'timingwheel.go')
    sub1(p, r'\t\tgo t\.task\(\)', '\t\tgo func() {\n\t\t\tverifhook.TimerTask()\n\t\t\tt.task()\n\t\t}()')
    sub1(p, r'"unsafe"\n', '"unsafe"\n\n\t"verifhook"\n')
    gm = os.path.join(d, 'go.mod')
    if not os.path.exists(gm):
        open(gm, 'w').write('module github.com/RussellLuo/timingwheel\n\ngo 1.14\n')
    with open(gm, 'a') as f:
        f.write('\nrequire verifhook v0.0.0\n')

WG = '''package sync

import (
	"sync"

	"verifhook"
)

type WaitGroupWrapper struct {
	wg sync.WaitGroup
}

func (w *WaitGroupWrapper) AddAndRun(cb func()) {
	w.wg.Add(1)
	go func() {
		// deferred, so that a loop the harness abandons with Goexit still counts
		defer w.wg.Done()
		verifhook.Y("go")
		cb()
	}()
}

func (w *WaitGroupWrapper) Wait() {
	w.wg.Wait()
}
'''

SPIN = '''package spinlock

import (
	"runtime"
	"sync/atomic"

	"verifhook"
)

type SpinLock struct {
	lock uintptr
}

func (l *SpinLock) Lock() {
	verifhook.Y("SpinLock.Lock")
	for !atomic.CompareAndSwapUintptr(&l.lock, 0, 1) {
		runtime.Gosched()
		verifhook.Y("SpinLock.retry")
	}
}

func (l *SpinLock) Unlock() {
	verifhook.Y("SpinLock.Unlock")
	atomic.StoreUintptr(&l.lock, 0)
}
'''

UNIX = '''package unix

import (
	"syscall"

	"verifhook"
)

func verifErr(e int) error {
	if e == 0 {
		return nil
	}
	switch syscall.Errno(e) {
	case syscall.EAGAIN:
		return EAGAIN
	case syscall.EINVAL:
		return EINVAL
	case syscall.ENOENT:
		return ENOENT
	}
	return syscall.Errno(e)
}

func Read(fd int, p []byte) (n int, err error) {
	verifhook.Y("read")
	if k := verifhook.K(); k != nil {
		if n, e, ok := k.Read(fd, p); ok {
			return n, verifErr(e)
		}
	}
	return verifOrigRead(fd, p)
}

func Write(fd int, p []byte) (n int, err error) {
	verifhook.Y("write")
	if k := verifhook.K(); k != nil {
		if n, e, ok := k.Write(fd, p); ok {
			return n, verifErr(e)
		}
	}
	return verifOrigWrite(fd, p)
}

func verifAddr(ip []byte, port int) Sockaddr {
	if len(ip) == 16 {
		a := &SockaddrInet6{Port: port}
		copy(a.Addr[:], ip)
		return a
	}
	a := &SockaddrInet4{Port: port}
	copy(a.Addr[:], ip)
	return a
}

//go:uintptrescapes
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err syscall.Errno) {
	if trap == SYS_EVENTFD2 {
		if k := verifhook.K(); k != nil {
			fd, e := k.Eventfd(int(a1), int(a2))
			if e != 0 {
				return ^uintptr(0), 0, syscall.Errno(e)
			}
			return uintptr(fd), 0, 0
		}
	}
	return verifOrigSyscall(trap, a1, a2, a3)
}

func Writev(fd int, iovs [][]byte) (n int, err error) {
	verifhook.Y("write")
	if k := verifhook.K(); k != nil && k.Owns(fd) {
		var all []byte
		for _, v := range iovs {
			all = append(all, v...)
		}
		if n, e, ok := k.Write(fd, all); ok {
			return n, verifErr(e)
		}
	}
	return verifOrigWritev(fd, iovs)
}

func Readv(fd int, iovs [][]byte) (n int, err error) {
	verifhook.Y("read")
	if k := verifhook.K(); k != nil && k.Owns(fd) && len(iovs) > 0 {
		t := 0
		for _, v := range iovs {
			t += len(v)
		}
		all := make([]byte, t)
		if n, e, ok := k.Read(fd, all); ok {
			if n > 0 {
				rest := all[:n]
				for _, v := range iovs {
					rest = rest[copy(v, rest):]
				}
			}
			return n, verifErr(e)
		}
	}
	return verifOrigReadv(fd, iovs)
}

func Close(fd int) (err error) {
	verifhook.Y("close")
	if k := verifhook.K(); k != nil {
		if e, ok := k.Close(fd); ok {
			return verifErr(e)
		}
	}
	return verifOrigClose(fd)
}

func EpollCreate1(flag int) (fd int, err error) {
	if k := verifhook.K(); k != nil {
		if fd, e, ok := k.EpollCreate(); ok {
			return fd, verifErr(e)
		}
	}
	return verifOrigEpollCreate1(flag)
}

func EpollCtl(epfd int, op int, fd int, event *EpollEvent) (err error) {
	verifhook.Y("epoll_ctl")
	if k := verifhook.K(); k != nil {
		var ev uint32
		if event != nil {
			ev = event.Events
		}
		if e, ok := k.EpollCtl(epfd, op, fd, ev); ok {
			return verifErr(e)
		}
	}
	return verifOrigEpollCtl(epfd, op, fd, event)
}

func EpollWait(epfd int, events []EpollEvent, msec int) (n int, err error) {
	verifhook.Y("epoll_wait")
	if k := verifhook.K(); k != nil {
		fds := make([]int32, len(events))
		evs := make([]uint32, len(events))
		if n, e, ok := k.EpollWait(epfd, fds, evs, msec); ok {
			for i := 0; i < n; i++ {
				events[i] = EpollEvent{Events: evs[i], Fd: fds[i]}
			}
			return n, verifErr(e)
		}
	}
	return verifOrigEpollWait(epfd, events, msec)
}

func Accept(fd int) (nfd int, sa Sockaddr, err error) {
	verifhook.Y("accept")
	if k := verifhook.K(); k != nil {
		if nfd, ip, port, e, ok := k.Accept(fd); ok {
			if e != 0 {
				return -1, nil, verifErr(e)
			}
			return nfd, verifAddr(ip, port), nil
		}
	}
	return verifOrigAccept(fd)
}

func Accept4(fd int, flags int) (nfd int, sa Sockaddr, err error) {
	verifhook.Y("accept")
	if k := verifhook.K(); k != nil {
		if nfd, ip, port, e, ok := k.Accept(fd); ok {
			if e != 0 {
				return -1, nil, verifErr(e)
			}
			return nfd, verifAddr(ip, port), nil
		}
	}
	return verifOrigAccept4(fd, flags)
}

func Shutdown(fd int, how int) (err error) {
	verifhook.Y("shutdown")
	if k := verifhook.K(); k != nil {
		if e, ok := k.Shutdown(fd, how); ok {
			return verifErr(e)
		}
	}
	return verifOrigShutdown(fd, how)
}

func SetNonblock(fd int, nonblocking bool) (err error) {
	if k := verifhook.K(); k != nil {
		if e, ok := k.SetNonblock(fd, nonblocking); ok {
			return verifErr(e)
		}
	}
	return verifOrigSetNonblock(fd, nonblocking)
}

func SetsockoptInt(fd, level, opt int, value int) (err error) {
	if k := verifhook.K(); k != nil && k.Owns(fd) {
		return nil
	}
	return verifOrigSetsockoptInt(fd, level, opt, value)
}

func GetsockoptInt(fd, level, opt int) (value int, err error) {
	if k := verifhook.K(); k != nil && k.Owns(fd) {
		return 0, nil
	}
	return verifOrigGetsockoptInt(fd, level, opt)
}

func CloseOnExec(fd int) {
	if k := verifhook.K(); k != nil && k.Owns(fd) {
		return
	}
	verifOrigCloseOnExec(fd)
}
'''

if __name__ == '__main__':
    main()
