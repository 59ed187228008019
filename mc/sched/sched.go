// Package sched runs a few threads (goroutines) one at a time, switching only where
// a given schedule says so. Control is passed by eventfds, with plain system calls,
// so that it adds no happens-before edges that the race detector would see.
package sched

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

func getg() uintptr

const (
	maxThreads = 4
	maxSlots   = 64
)

type thread struct {
	e       *Exec
	idx     int
	fd      int
	done    bool
	blocked bool
	g       uintptr
	at      int // last scheduling point
}

// slots maps goroutines to threads.
var slots [maxSlots]struct {
	g uintptr
	t *thread
}
var freeSlots = make(chan int, maxSlots)

func init() {
	for i := 0; i < maxSlots; i++ {
		freeSlots <- i
	}
}

// Exec is one execution under a schedule.
type Exec struct {
	plan     []int8 // alternative taken at each scheduling point, 0 beyond
	filter   []bool // scheduling points that count; nil: all
	n        int
	nt       int
	th       [maxThreads]*thread
	Steps    int
	Points   int // scheduling points met
	Deadlock bool
	Stalled  bool // control was given up: a thread was blocked on something else
	switches int
	free     bool
	Log      [8][4]int // switches: from thread, at its point, to thread, at its point
}

//go:norace
func find() *thread {
	g := getg()
	for i := range slots {
		if slots[i].g == g {
			return slots[i].t
		}
	}
	return nil
}

// Point is a scheduling point of the calling goroutine.
//
//go:norace
func Point(id int) {
	t := find()
	if t == nil {
		return
	}
	e := t.e
	if e.free {
		return
	}
	e.Steps++
	t.at = id
	if e.filter != nil && id < len(e.filter) && !e.filter[id] {
		return
	}
	a := e.choice()
	if a == 0 {
		return
	}
	o := e.th[(t.idx+a)%e.nt]
	if o.done || o.blocked {
		return
	}
	e.pass(t, o)
}

//go:norace
func (e *Exec) choice() int {
	i := e.Points
	e.Points++
	if i < len(e.plan) {
		return int(e.plan[i])
	}
	return 0
}

// next finds a thread that can run, in cyclic order.
//
//go:norace
func (e *Exec) next(t *thread, skip int) *thread {
	for i := 0; i < e.nt; i++ {
		o := e.th[(t.idx+1+skip+i)%e.nt]
		if o != t && !o.done && !o.blocked {
			return o
		}
	}
	return nil
}

// pass gives control to o and waits until it comes back.
//
//go:norace
func (e *Exec) pass(t, o *thread) {
	if e.switches < len(e.Log) {
		e.Log[e.switches] = [4]int{t.idx, t.at, o.idx, o.at}
	}
	e.switches++
	signal(o.fd)
	wait(t.fd)
}

// Block says that the calling goroutine waits for a release.
//
//go:norace
func Block() {
	t := find()
	if t != nil && t.e.Deadlock {
		panic("deadlock")
	}
	if t == nil || t.e.free {
		runtime.Gosched()
		return
	}
	e := t.e
	t.blocked = true
	o := e.next(t, e.choice())
	if o == nil {
		e.Deadlock = true
		e.release()
		panic("deadlock")
	}
	e.pass(t, o)
}

// Unblock says that something was released.
//
//go:norace
func Unblock() {
	t := find()
	if t == nil {
		return
	}
	for i := 0; i < t.e.nt; i++ {
		t.e.th[i].blocked = false
	}
}

// release lets everything run freely.
//
//go:norace
func (e *Exec) release() {
	e.free = true
	for i := 0; i < e.nt; i++ {
		signal(e.th[i].fd)
	}
}

//go:norace
func signal(fd int) {
	one := uint64(1)
	syscall.Syscall(syscall.SYS_WRITE, uintptr(fd), uintptr(unsafe.Pointer(&one)), 8)
}

//go:norace
func wait(fd int) {
	var v uint64
	for {
		_, _, e := syscall.Syscall(syscall.SYS_READ, uintptr(fd), uintptr(unsafe.Pointer(&v)), 8)
		if e != syscall.EINTR {
			return
		}
	}
}

//go:norace
func (t *thread) enter(slot int) {
	t.g = getg()
	slots[slot].t = t
	slots[slot].g = t.g
	wait(t.fd)
}

//go:norace
func (t *thread) leave(slot int) {
	e := t.e
	slots[slot].g = 0
	slots[slot].t = nil
	t.done = true
	if e.free {
		return
	}
	for i := 0; i < e.nt; i++ {
		e.th[i].blocked = false
	}
	left := 0
	for i := 0; i < e.nt; i++ {
		if !e.th[i].done {
			left++
		}
	}
	if left == 0 {
		return
	}
	a := 0
	if left > 1 {
		a = e.choice()
	}
	signal(e.next(t, a).fd)
}

//go:norace
func (e *Exec) steps() int { return e.Steps*2 + e.switches }

//go:norace
func (e *Exec) setStalled() { e.Stalled = true }

// Switches lists the preemptions and blockings of the execution.
func (e *Exec) Switches() [][4]int { return e.Log[:min(e.switches, len(e.Log))] }

// Run executes the functions under the plan; thread 0 starts. A panic of one of
// them is returned as an error.
func Run(plan []int8, filter []bool, fs ...func()) (*Exec, error) {
	e := &Exec{plan: plan, filter: filter, nt: len(fs)}
	fds := make([]int, len(fs))
	for i := range fs {
		r, _, errno := syscall.Syscall(syscall.SYS_EVENTFD2, 0, syscall.O_CLOEXEC, 0)
		if errno != 0 {
			return nil, fmt.Errorf("eventfd: %v", errno)
		}
		fds[i] = int(r)
		e.th[i] = &thread{e: e, idx: i, fd: fds[i]}
	}
	var wg sync.WaitGroup
	errs := make([]error, len(fs))
	sl := make([]int, len(fs))
	for i := range fs {
		sl[i] = <-freeSlots
	}
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := e.th[i]
			t.enter(sl[i])
			func() {
				defer func() {
					if r := recover(); r != nil {
						b := make([]byte, 4096)
						errs[i] = fmt.Errorf("panic in session %d: %v\n%s", i, r, b[:runtime.Stack(b, false)])
					}
				}()
				f()
			}()
			t.leave(sl[i])
		}()
	}
	var over atomic.Bool
	stop, stopped := make(chan bool), make(chan bool)
	go func() {
		defer close(stopped)
		last, idle := -1, 0
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
			}
			if n := e.steps(); n != last {
				last, idle = n, 0
			} else if idle++; idle >= 10 && !over.Load() {
				e.setStalled()
				e.release()
				return
			}
		}
	}()
	signal(fds[0])
	wg.Wait()
	over.Store(true)
	close(stop)
	<-stopped
	for i := range fs {
		syscall.Close(fds[i])
		freeSlots <- sl[i]
	}
	for _, err := range errs {
		if err != nil {
			return e, err
		}
	}
	return e, nil
}
