package harness

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"runtime"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/drv"
)

// TestDrive executes the scenarios of $VERIF_SCN from number $VERIF_SKIP on,
// appending one trace per line to $VERIF_OUT. $VERIF_MARK names the file that
// says which scenario is being executed.
func TestDrive(t *testing.T) {
	in := os.Getenv("VERIF_SCN")
	if in == "" {
		t.Skip("no scenarios")
	}
	skip, _ := strconv.Atoi(os.Getenv("VERIF_SKIP"))
	limit, _ := strconv.Atoi(os.Getenv("VERIF_HANG_S"))
	if limit == 0 {
		limit = 30
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	mark, err := os.OpenFile(os.Getenv("VERIF_MARK"), os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	setMark := func(i int, what string) {
		_, _ = mark.WriteAt([]byte(fmt.Sprintf("%-10d %-12s\n", i, what)), 0)
	}

	// The watchdog lives outside the bubbles: real time.
	beat := make(chan int, 16)
	go func() {
		tm := time.NewTimer(time.Duration(limit) * time.Second)
		for {
			select {
			case _, ok := <-beat:
				if !ok {
					return
				}
				if !tm.Stop() {
					select {
					case <-tm.C:
					default:
					}
				}
				tm.Reset(time.Duration(limit) * time.Second)
			case <-tm.C:
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "VERIF-HANG parked=%d\n%s\n", drv.Parked(), buf[:n])
				os.Exit(7)
			}
		}
	}()

	// what the runtime itself opens for its first socket
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		l.Close()
	}

	procs := runtime.GOMAXPROCS(0)
	st := &drv.Stats{Kinds: map[string]int{}}
	r := bufio.NewReaderSize(f, 1<<20)
	for i := 0; ; i++ {
		b, err := r.ReadBytes('\n')
		if len(b) == 0 && err != nil {
			break
		}
		if i < skip {
			continue
		}
		var scn drv.Scn
		if e := json.Unmarshal(b, &scn); e != nil {
			t.Fatalf("scenario %d: %v", i, e)
		}
		beat <- i
		setMark(i, "run")
		var line []byte
		bubble := func() {
			defer func() {
				if r := recover(); r != nil {
					s := fmt.Sprint(r)
					if line == nil || len(s) < 8 || s[:8] != "deadlock" {
						panic(r)
					}
					st.Leaks++ // goroutines left behind after the trace was complete
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				line = drv.Run(&scn, st)
			})
		}
		switch {
		case !drv.Bubbled(scn.Kind):
			runtime.GOMAXPROCS(4)
			line = drv.Run(&scn, st)
			runtime.GOMAXPROCS(procs)
		case scn.Policy == "enum" && scn.Limit > 0:
			// goroutines created in the same order get increasing numbers
			runtime.GOMAXPROCS(1)
			seen := map[[32]byte]bool{}
			var all []byte
			id := scn.ID
			n := 0
			x := drv.NewExplorer(scn.Seed, scn.Bound)
			for n < scn.Limit {
				var more bool
				if scn.Pre, more = x.Next(); !more {
					st.Complete++
					break
				}
				scn.ID = fmt.Sprintf("%s#%d", id, n+1)
				line = nil
				beat <- i
				bubble()
				n++
				h := sha256.Sum256(line[bytes.IndexByte(line, '['):bytes.LastIndexByte(line, ']')])
				if !seen[h] {
					seen[h] = true
					all = append(all, line...)
				}
				if s := drv.Last(); s != nil {
					x.Done(s)
				}
				drv.Forget()
			}
			st.Enumerated += n
			line = all
			runtime.GOMAXPROCS(procs)
		default:
			bubble()
		}
		drv.Forget()
		st.Scenarios++
		st.Kinds[scn.Kind]++
		if _, err := out.Write(line); err != nil {
			t.Fatal(err)
		}
		setMark(i, "done")
	}
	setMark(1<<30, "end")
	close(beat)
	sb, _ := json.Marshal(st)
	fmt.Printf("VERIF-STATS %s\n", sb)
}
