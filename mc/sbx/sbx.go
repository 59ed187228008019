// Package sbx runs a program under ptrace and controls its file system calls: it
// records them, makes them fail or take effect partially, kills the program at any
// of them, and lets the caller look at the file system in between.
//
// Only calls that touch the scratch directory (or the standard streams) are events;
// everything else runs untouched.
package sbx

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"mc/eng"
)

// Event is one file system call of the program.
type Event struct {
	N    int    // running number
	Sys  string // name of the call
	Path string // object (scratch relative; "<stdin>", "<stdout>", "<stderr>")
	To   string // second path of rename, link
	Arg  int64  // count, flags or offset
	Flag int    // open flags
	Mode uint32
	FD   int
	Off  int64  // file offset of pread/pwrite (-1: current)
	Data []byte // what write was asked to write
	Ret  int64
}

func (e *Event) String() string {
	s := fmt.Sprintf("%d:%s(%s", e.N, e.Sys, e.Path)
	if e.To != "" {
		s += "," + e.To
	}
	return s + ")"
}

// Verdict is what happens to an event.
type Verdict struct {
	Errno  syscall.Errno // fail with this error ...
	After  bool          // ... although the call took effect
	Short  int64         // >0: only this many bytes are transferred
	Kill   bool          // kill the program before the call
	KillAt bool          // kill the program after the call
}

// Opt describes a run.
type Opt struct {
	Bin    string
	Args   []string
	Env    []string
	Dir    string // working directory
	Root   string // events are the calls on files below this directory
	Stdin  string // file names; "" is /dev/null
	Stdout string
	Stderr string
	TTY    string // terminal (slave side) that becomes the controlling one; it may be named for the streams
	Umask  int    // -1: as is
	Limit  time.Duration

	Enter func(e *Event) Verdict // before the call
	Exit  func(e *Event)         // after the call (not after a kill)
}

// Result of a run.
type Result struct {
	Code   int // exit status; -1 if it was killed
	Signal syscall.Signal
	Killed bool // by a verdict
	Events []Event
}

const (
	wNoThread = 0x20000000
	wAll      = 0x40000000

	optSysGood  = 1
	optFork     = 2
	optVfork    = 4
	optClone    = 8
	optExec     = 16
	optExitKill = 0x100000

	ptGetSyscallInfo = 0x420e
)

type sysInfo struct {
	op   uint8
	_    [3]uint8
	arch uint32
	ip   uint64
	sp   uint64
	a    [7]uint64 // entry: nr, args; exit: rval, is_error
}

type tracer struct {
	o     Opt
	pid   int
	fds   map[int]string // relevant descriptors
	off   map[int]int64
	res   Result
	pend  map[int]*pending // by thread
	stops map[int]bool
}

type pending struct {
	ev *Event
	v  Verdict
	nr uint64
}

// ErrTrace is an error of the supervision itself.
var ErrTrace = fmt.Errorf("%w: ptrace supervision", eng.ErrCheck)

// Run executes the program. It occupies the calling goroutine's thread.
func Run(o Opt) (*Result, error) {
	type ret struct {
		r   *Result
		err error
	}
	ch := make(chan ret, 1)
	go func() {
		runtime.LockOSThread()
		// the thread is not reused: it ends with the goroutine
		r, err := run(o)
		ch <- ret{r, err}
	}()
	x := <-ch
	return x.r, x.err
}

func run(o Opt) (*Result, error) {
	if o.Limit == 0 {
		o.Limit = 60 * time.Second
	}
	open := func(fn string, flag int) (*os.File, error) {
		if fn == "" {
			fn = "/dev/null"
		}
		if fn == o.TTY {
			// it can become the controlling terminal only if it can be read
			flag = os.O_RDWR
		}
		return os.OpenFile(fn, flag|syscall.O_NOCTTY, 0600)
	}
	in, err := open(o.Stdin, os.O_RDONLY)
	if err != nil {
		return nil, err
	}
	defer in.Close()
	out, err := open(o.Stdout, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
	if err != nil {
		return nil, err
	}
	defer out.Close()
	er, err := open(o.Stderr, os.O_WRONLY|os.O_CREATE|os.O_TRUNC)
	if err != nil {
		return nil, err
	}
	defer er.Close()

	// the umask is set by a tiny wrapper of the program's start, see Helper
	argv := append([]string{o.Bin}, o.Args...)
	bin := o.Bin
	if o.Umask >= 0 {
		me, err := os.Executable()
		if err != nil {
			return nil, err
		}
		argv = append([]string{me, "umask", fmt.Sprintf("%o", o.Umask), o.Bin}, o.Args...)
		bin = me
	}
	attr := &syscall.SysProcAttr{Ptrace: true, Setpgid: true}
	if o.TTY != "" {
		attr = &syscall.SysProcAttr{Ptrace: true, Setsid: true}
		for i, n := range []string{o.Stdin, o.Stdout, o.Stderr} {
			if n == o.TTY {
				attr.Setctty, attr.Ctty = true, i
				break
			}
		}
	}
	pid, err := syscall.ForkExec(bin, argv, &syscall.ProcAttr{Dir: o.Dir, Env: o.Env,
		Files: []uintptr{in.Fd(), out.Fd(), er.Fd()}, Sys: attr})
	if err != nil {
		return nil, fmt.Errorf("%w: start: %v", ErrTrace, err)
	}
	t := &tracer{o: o, pid: pid, fds: map[int]string{0: "<stdin>", 1: "<stdout>", 2: "<stderr>"}, off: map[int]int64{}, pend: map[int]*pending{}, stops: map[int]bool{}}
	t.res.Code = -1
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, wAll|wNoThread, nil); err != nil || !ws.Stopped() {
		syscall.Kill(pid, syscall.SIGKILL)
		return nil, fmt.Errorf("%w: first stop: %v %x", ErrTrace, err, ws)
	}
	opts := optSysGood | optClone | optFork | optVfork | optExec | optExitKill
	if err := syscall.PtraceSetOptions(pid, opts); err != nil {
		syscall.Kill(pid, syscall.SIGKILL)
		syscall.Wait4(pid, &ws, wAll|wNoThread, nil)
		return nil, fmt.Errorf("%w: options: %v", ErrTrace, err)
	}
	// a wrapper execs the program; events count from there on
	active := o.Umask < 0
	execs := 0

	timer := time.AfterFunc(o.Limit, func() { syscall.Kill(pid, syscall.SIGKILL) })
	defer timer.Stop()
	began := time.Now()

	syscall.PtraceSyscall(pid, 0)
	for {
		tid, err := syscall.Wait4(-1, &ws, wAll|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return nil, fmt.Errorf("%w: wait: %v", ErrTrace, err)
		}
		switch {
		case ws.Exited():
			if tid == pid {
				t.res.Code = ws.ExitStatus()
				return &t.res, nil
			}
			continue
		case ws.Signaled():
			if tid == pid {
				t.res.Signal = ws.Signal()
				if !t.res.Killed && time.Since(began) >= o.Limit {
					return &t.res, fmt.Errorf("no end after %v", o.Limit)
				}
				return &t.res, nil
			}
			continue
		case !ws.Stopped():
			continue
		}
		sig := ws.StopSignal()
		inject := 0
		switch {
		case sig == syscall.SIGTRAP|0x80:
			if active {
				// a thread may vanish when another one ends the program
				if err := t.stop(tid); err != nil && !errors.Is(err, syscall.ESRCH) {
					syscall.Kill(pid, syscall.SIGKILL)
					t.drain()
					return nil, err
				}
				if t.res.Killed {
					syscall.Kill(pid, syscall.SIGKILL)
					t.drain()
					return &t.res, nil
				}
			}
		case sig == syscall.SIGTRAP && int(ws)>>16 != 0:
			// clone, exec events
			if int(ws)>>16 == syscall.PTRACE_EVENT_EXEC {
				if execs++; execs == 1 && o.Umask >= 0 {
					active = true
					t.pend = map[int]*pending{}
				}
			}
		case sig == syscall.SIGSTOP && !t.stops[tid] && tid != pid:
			t.stops[tid] = true // the initial stop of a new thread
		case sig == syscall.SIGTRAP:
		default:
			inject = int(sig)
		}
		syscall.PtraceSyscall(tid, inject)
	}
}

func (t *tracer) drain() {
	var ws syscall.WaitStatus
	for {
		tid, err := syscall.Wait4(-1, &ws, wAll|wNoThread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return
		}
		if tid == t.pid && (ws.Exited() || ws.Signaled()) {
			t.res.Signal = syscall.SIGKILL
			return
		}
	}
}

func (t *tracer) info(tid int) (*sysInfo, error) {
	var si sysInfo
	_, _, e := syscall.Syscall6(syscall.SYS_PTRACE, ptGetSyscallInfo, uintptr(tid), unsafe.Sizeof(si), uintptr(unsafe.Pointer(&si)), 0, 0)
	if e != 0 {
		return nil, fmt.Errorf("%w: syscall info: %w", ErrTrace, e)
	}
	return &si, nil
}

func (t *tracer) setRegs(tid int, f func(r *syscall.PtraceRegs)) error {
	var r syscall.PtraceRegs
	if err := syscall.PtraceGetRegs(tid, &r); err != nil {
		return fmt.Errorf("%w: regs: %w", ErrTrace, err)
	}
	f(&r)
	if err := syscall.PtraceSetRegs(tid, &r); err != nil {
		return fmt.Errorf("%w: regs: %w", ErrTrace, err)
	}
	return nil
}

func (t *tracer) stop(tid int) error {
	si, err := t.info(tid)
	if err != nil {
		return err
	}
	switch si.op {
	case 1:
		return t.enter(tid, si)
	case 2:
		return t.exit(tid, si)
	}
	return nil
}

func (t *tracer) enter(tid int, si *sysInfo) error {
	ev := t.classify(tid, si.a[0], si.a[1:])
	if ev == nil {
		delete(t.pend, tid)
		return nil
	}
	ev.N = len(t.res.Events)
	var v Verdict
	if t.o.Enter != nil {
		v = t.o.Enter(ev)
	}
	t.res.Events = append(t.res.Events, *ev)
	t.pend[tid] = &pending{ev, v, si.a[0]}
	if v.Kill {
		t.res.Killed = true
		return nil
	}
	if v.Errno != 0 && !v.After {
		return t.setRegs(tid, func(r *syscall.PtraceRegs) { r.Orig_rax = ^uint64(0) })
	}
	if v.Short > 0 && v.Short < ev.Arg {
		return t.setRegs(tid, func(r *syscall.PtraceRegs) { r.Rdx = uint64(v.Short) })
	}
	return nil
}

func (t *tracer) exit(tid int, si *sysInfo) error {
	p := t.pend[tid]
	if p == nil {
		return nil
	}
	delete(t.pend, tid)
	ev := p.ev
	ev.Ret = int64(si.a[0])
	failed := p.v.Errno != 0 && !p.v.After
	if p.v.Errno != 0 {
		if err := t.setRegs(tid, func(r *syscall.PtraceRegs) { r.Rax = uint64(-int64(p.v.Errno)) }); err != nil {
			return err
		}
		if failed {
			ev.Ret = -int64(p.v.Errno)
		}
	}
	t.res.Events[ev.N].Ret = ev.Ret
	if !failed && ev.Ret >= 0 {
		switch ev.Sys {
		case "open":
			if p.v.Errno == 0 {
				t.fds[int(ev.Ret)] = ev.Path
				t.off[int(ev.Ret)] = 0
			}
		case "close":
			delete(t.fds, ev.FD)
		case "dup":
			t.fds[int(ev.Ret)] = ev.Path
		}
	}
	if p.v.KillAt {
		t.res.Killed = true
	}
	if t.o.Exit != nil {
		t.o.Exit(&t.res.Events[ev.N])
	}
	return nil
}

// str reads a string of the program.
func (t *tracer) str(tid int, addr uint64) string {
	var out []byte
	for len(out) < 8192 {
		var b [64]byte
		// stay within the page
		n := min(64, int(4096-addr%4096))
		if _, err := syscall.PtracePeekData(tid, uintptr(addr), b[:n]); err != nil {
			return string(out)
		}
		if i := bytes.IndexByte(b[:n], 0); i >= 0 {
			return string(append(out, b[:i]...))
		}
		out = append(out, b[:n]...)
		addr += uint64(n)
	}
	return string(out)
}

func (t *tracer) mem(tid int, addr uint64, n int64) []byte {
	if n > 1<<24 {
		n = 1 << 24
	}
	b := make([]byte, n)
	f, err := os.Open(fmt.Sprintf("/proc/%d/mem", tid))
	if err == nil {
		defer f.Close()
		m, _ := f.ReadAt(b, int64(addr))
		return b[:m]
	}
	m, _ := syscall.PtracePeekData(tid, uintptr(addr), b)
	return b[:m]
}

// rel makes a path relative to the root, if it lies below it.
func (t *tracer) rel(tid int, dirfd int32, p string) (string, bool) {
	if p == "" {
		return "", false
	}
	if !filepath.IsAbs(p) {
		base := ""
		if dirfd == -100 {
			base = t.o.Dir
		} else if b, ok := t.fds[int(dirfd)]; ok {
			base = filepath.Join(t.o.Root, b)
		} else if l, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", tid, dirfd)); err == nil {
			base = l
		}
		p = filepath.Join(base, p)
	}
	p = filepath.Clean(p)
	if t.o.TTY != "" && (p == "/dev/tty" || p == t.o.TTY) {
		return "<tty>", true
	}
	if p == t.o.Root {
		return ".", true
	}
	r, ok := strings.CutPrefix(p, t.o.Root+"/")
	return r, ok
}

func (t *tracer) classify(tid int, nr uint64, a []uint64) *Event {
	onFD := func(name string, fd uint64) *Event {
		p, ok := t.fds[int(int32(fd))]
		if !ok {
			return nil
		}
		return &Event{Sys: name, Path: p, FD: int(int32(fd)), Off: -1}
	}
	onPath := func(name string, dirfd int32, addr uint64) *Event {
		p, ok := t.rel(tid, dirfd, t.str(tid, addr))
		if !ok {
			return nil
		}
		return &Event{Sys: name, Path: p, FD: -1, Off: -1}
	}
	two := func(name string, d1 int32, a1 uint64, d2 int32, a2 uint64) *Event {
		p1, ok1 := t.rel(tid, d1, t.str(tid, a1))
		p2, ok2 := t.rel(tid, d2, t.str(tid, a2))
		if !ok1 && !ok2 {
			return nil
		}
		if !ok1 {
			p1 = "<outside>"
		}
		if !ok2 {
			p2 = "<outside>"
		}
		return &Event{Sys: name, Path: p1, To: p2, FD: -1, Off: -1}
	}
	const cwd = -100
	switch nr {
	case syscall.SYS_READ:
		if e := onFD("read", a[0]); e != nil {
			e.Arg = int64(a[2])
			return e
		}
	case syscall.SYS_PREAD64:
		if e := onFD("pread", a[0]); e != nil {
			e.Arg, e.Off = int64(a[2]), int64(a[3])
			return e
		}
	case syscall.SYS_WRITE:
		if e := onFD("write", a[0]); e != nil {
			e.Arg = int64(a[2])
			e.Data = t.mem(tid, a[1], e.Arg)
			return e
		}
	case syscall.SYS_PWRITE64:
		if e := onFD("pwrite", a[0]); e != nil {
			e.Arg, e.Off = int64(a[2]), int64(a[3])
			e.Data = t.mem(tid, a[1], e.Arg)
			return e
		}
	case syscall.SYS_WRITEV:
		if e := onFD("writev", a[0]); e != nil {
			for i := uint64(0); i < a[2] && i < 1024; i++ {
				v := t.mem(tid, a[1]+16*i, 16)
				if len(v) == 16 {
					e.Data = append(e.Data, t.mem(tid, binary.LittleEndian.Uint64(v), int64(binary.LittleEndian.Uint64(v[8:])))...)
				}
			}
			return e
		}
	case syscall.SYS_LSEEK:
		return onFD("lseek", a[0])
	case syscall.SYS_OPEN:
		if e := onPath("open", cwd, a[0]); e != nil {
			e.Flag, e.Mode = int(a[1]), uint32(a[2])
			return e
		}
	case syscall.SYS_OPENAT:
		if e := onPath("open", int32(a[0]), a[1]); e != nil {
			e.Flag, e.Mode = int(a[2]), uint32(a[3])
			return e
		}
	case 437: // openat2
		if e := onPath("open", int32(a[0]), a[1]); e != nil {
			if how := t.mem(tid, a[2], 16); len(how) == 16 {
				e.Flag, e.Mode = int(binary.LittleEndian.Uint64(how)), uint32(binary.LittleEndian.Uint64(how[8:]))
			}
			return e
		}
	case syscall.SYS_CREAT:
		if e := onPath("open", cwd, a[0]); e != nil {
			e.Flag, e.Mode = os.O_CREATE|os.O_WRONLY|os.O_TRUNC, uint32(a[1])
			return e
		}
	case syscall.SYS_CLOSE:
		return onFD("close", a[0])
	case syscall.SYS_DUP, syscall.SYS_DUP2, syscall.SYS_DUP3:
		return onFD("dup", a[0])
	case syscall.SYS_FSYNC:
		return onFD("fsync", a[0])
	case syscall.SYS_FDATASYNC:
		return onFD("fsync", a[0])
	case 306: // syncfs
		return onFD("fsync", a[0])
	case syscall.SYS_FTRUNCATE:
		if e := onFD("ftruncate", a[0]); e != nil {
			e.Arg = int64(a[1])
			return e
		}
	case syscall.SYS_TRUNCATE:
		if e := onPath("truncate", cwd, a[0]); e != nil {
			e.Arg = int64(a[1])
			return e
		}
	case syscall.SYS_FALLOCATE:
		return onFD("fallocate", a[0])
	case syscall.SYS_FCHMOD:
		if e := onFD("fchmod", a[0]); e != nil {
			e.Mode = uint32(a[1])
			return e
		}
	case syscall.SYS_CHMOD:
		if e := onPath("chmod", cwd, a[0]); e != nil {
			e.Mode = uint32(a[1])
			return e
		}
	case syscall.SYS_FCHMODAT, 452:
		if e := onPath("chmod", int32(a[0]), a[1]); e != nil {
			e.Mode = uint32(a[2])
			return e
		}
	case syscall.SYS_FCHOWN:
		return onFD("fchown", a[0])
	case syscall.SYS_CHOWN, syscall.SYS_LCHOWN:
		return onPath("chown", cwd, a[0])
	case syscall.SYS_FCHOWNAT:
		return onPath("chown", int32(a[0]), a[1])
	case syscall.SYS_RENAME:
		return two("rename", cwd, a[0], cwd, a[1])
	case syscall.SYS_RENAMEAT, 316:
		return two("rename", int32(a[0]), a[1], int32(a[2]), a[3])
	case syscall.SYS_LINK:
		return two("link", cwd, a[0], cwd, a[1])
	case syscall.SYS_LINKAT:
		return two("link", int32(a[0]), a[1], int32(a[2]), a[3])
	case syscall.SYS_SYMLINK:
		return onPath("symlink", cwd, a[1])
	case syscall.SYS_SYMLINKAT:
		return onPath("symlink", int32(a[1]), a[2])
	case syscall.SYS_UNLINK:
		return onPath("unlink", cwd, a[0])
	case syscall.SYS_UNLINKAT:
		return onPath("unlink", int32(a[0]), a[1])
	case syscall.SYS_MKDIR:
		return onPath("mkdir", cwd, a[0])
	case syscall.SYS_MKDIRAT:
		return onPath("mkdir", int32(a[0]), a[1])
	case syscall.SYS_RMDIR:
		return onPath("rmdir", cwd, a[0])
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		return onPath("stat", cwd, a[0])
	case syscall.SYS_NEWFSTATAT:
		if e := onPath("stat", int32(a[0]), a[1]); e != nil {
			return e
		}
		return onFD("fstat", a[0])
	case 332: // statx
		if e := onPath("stat", int32(a[0]), a[1]); e != nil {
			return e
		}
		return onFD("fstat", a[0])
	case syscall.SYS_FSTAT:
		return onFD("fstat", a[0])
	case syscall.SYS_ACCESS:
		return onPath("access", cwd, a[0])
	case syscall.SYS_FACCESSAT, 439:
		return onPath("access", int32(a[0]), a[1])
	case syscall.SYS_READLINK:
		return onPath("readlink", cwd, a[0])
	case syscall.SYS_READLINKAT:
		return onPath("readlink", int32(a[0]), a[1])
	case syscall.SYS_GETXATTR, syscall.SYS_LGETXATTR:
		return onPath("getxattr", cwd, a[0])
	case syscall.SYS_LISTXATTR, syscall.SYS_LLISTXATTR:
		return onPath("listxattr", cwd, a[0])
	case syscall.SYS_FLISTXATTR:
		return onFD("listxattr", a[0])
	case syscall.SYS_MMAP:
		if int32(a[4]) >= 0 {
			if e := onFD("mmap", a[4]); e != nil {
				e.Arg, e.Flag, e.Mode = int64(a[1]), int(a[3]), uint32(a[2])
				return e
			}
		}
	case syscall.SYS_SENDFILE:
		return onFD("sendfile", a[0])
	case 326: // copy_file_range
		return onFD("copyrange", a[2])
	}
	return nil
}
