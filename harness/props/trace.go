package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"

	"verif/mc"
)

// A run of pdf.Parse in a process of its own whose file operations can be made to fail one by one.

// fileOp is one system call of the run that concerns a path inside the box.
type fileOp struct {
	call string
	path string
	make bool // an open that creates
}

func (o fileOp) String() string { return o.call + " " + filepath.Base(o.path) }

// result27 is what the traced process says about its run.
type result27 struct {
	Failed bool
	Err    string
	Open   []string // files of the box that are open afterwards
}

// mark stops the traced process where tracing begins or ends; the signal is not delivered.
func mark() { syscall.Tgkill(syscall.Getpid(), syscall.Gettid(), syscall.SIGUSR2) }

func init() {
	if len(os.Args) > 1 && os.Args[1] == "faulty" {
		runtime.LockOSThread() // the main thread alone is traced, it must run everything
	}
	mc.Commands["faulty"] = func(a []string) int {
		debug.SetGCPercent(-1)
		// open and close something first, so that the runtime's poller is there
		if f, err := os.Open("/dev/null"); err == nil {
			f.Close()
		}
		mark()
		err := pdf.Parse(a[0], a[1], a[2])
		mark()
		r := result27{Failed: err != nil, Open: openIn(a[3])}
		if err != nil {
			r.Err = err.Error()
		}
		json.NewEncoder(os.Stdout).Encode(r)
		return 0
	}
}

// openIn lists the files below a directory that this process has open.
func openIn(dir string) []string {
	var l []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(t, dir+"/") {
			l = append(l, strings.TrimPrefix(t, dir+"/"))
		}
	}
	return l
}

var errNoTrace = fmt.Errorf("processes cannot be traced here")

// traced runs the command with the given arguments; fault decides for the i-th file operation which error it
// gives (0: none).  It returns the operations, the output and how the process ended.
func traced(args []string, box string, fault func(i int, op fileOp) syscall.Errno) (ops []fileOp, out string, ended string, err error) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	exe, _ := os.Executable()
	outName := filepath.Join(scratch(), "traced.out")
	outFile, err := os.Create(outName)
	if err != nil {
		return nil, "", "", err
	}
	defer outFile.Close()
	cwd, _ := os.Getwd()
	pid, err := syscall.ForkExec(exe, append([]string{exe}, args...), &syscall.ProcAttr{
		Dir:   cwd,
		Env:   append(os.Environ(), "GOMAXPROCS=1"),
		Files: []uintptr{0, outFile.Fd(), outFile.Fd()},
		Sys:   &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL},
	})
	if err != nil {
		return nil, "", "", errNoTrace
	}
	late := time.AfterFunc(20*time.Second, func() { syscall.Kill(pid, syscall.SIGKILL) })
	defer func() {
		if !late.Stop() && ended != "" {
			ended = "did not end within 20 s (" + ended + ")"
		}
	}()
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil || !ws.Stopped() {
		return nil, "", "", errNoTrace
	}
	const exitKill = 0x100000
	if err := syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACESYSGOOD|exitKill); err != nil {
		syscall.Kill(pid, syscall.SIGKILL)
		syscall.Wait4(pid, &ws, syscall.WALL, nil)
		return nil, "", "", errNoTrace
	}
	if err := syscall.PtraceCont(pid, 0); err != nil {
		return nil, "", "", errNoTrace
	}
	inside, on := false, false
	fds := map[int]string{}
	var pending *fileOp
	var errno syscall.Errno
	str := func(tid int, addr uint64) string {
		var b []byte
		var w [8]byte
		for len(b) < 8192 {
			if _, err := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(b)), w[:]); err != nil {
				break
			}
			for _, x := range w {
				if x == 0 {
					return string(b)
				}
				b = append(b, x)
			}
		}
		return string(b)
	}
	at := func(tid int, dir uint64, addr uint64) string {
		p := str(tid, addr)
		if strings.HasPrefix(p, "/") {
			return p
		}
		if int32(dir) == -100 {
			return cwd + "/" + p
		}
		return fds[int(int32(dir))] + "/" + p
	}
	tid := pid
	for {
		_, err := syscall.Wait4(pid, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return ops, "", "", err
		}
		if ws.Exited() || ws.Signaled() {
			ended = fmt.Sprintf("exit status %d", ws.ExitStatus())
			if ws.Signaled() {
				ended = "signal " + ws.Signal().String()
			}
			break
		}
		sig := 0
		switch s := ws.StopSignal(); {
		case s == syscall.SIGUSR2:
			on, inside = !on, false
		case s == syscall.SIGTRAP|0x80:
			var r syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &r) != nil {
				break
			}
			inside = !inside
			if inside {
				pending, errno = nil, 0
				op := fileOp{}
				switch r.Orig_rax {
				case syscall.SYS_OPENAT:
					op = fileOp{"open", at(tid, r.Rdi, r.Rsi), r.Rdx&syscall.O_CREAT != 0}
				case syscall.SYS_OPEN:
					op = fileOp{"open", at(tid, 0xffffff9c, r.Rdi), r.Rsi&syscall.O_CREAT != 0}
				case syscall.SYS_MKDIRAT:
					op = fileOp{"mkdir", at(tid, r.Rdi, r.Rsi), false}
				case syscall.SYS_MKDIR:
					op = fileOp{"mkdir", at(tid, 0xffffff9c, r.Rdi), false}
				case syscall.SYS_UNLINKAT:
					op = fileOp{"unlink", at(tid, r.Rdi, r.Rsi), false}
				case syscall.SYS_UNLINK, syscall.SYS_RMDIR:
					op = fileOp{"unlink", at(tid, 0xffffff9c, r.Rdi), false}
				case syscall.SYS_NEWFSTATAT:
					op = fileOp{"stat", at(tid, r.Rdi, r.Rsi), false}
				case syscall.SYS_STAT, syscall.SYS_LSTAT:
					op = fileOp{"stat", at(tid, 0xffffff9c, r.Rdi), false}
				case syscall.SYS_GETDENTS64:
					op = fileOp{"list", fds[int(r.Rdi)], false}
				case syscall.SYS_READ:
					op = fileOp{"read", fds[int(r.Rdi)], false}
				case syscall.SYS_WRITE:
					op = fileOp{"write", fds[int(r.Rdi)], false}
				case syscall.SYS_LSEEK:
					op = fileOp{"seek", fds[int(r.Rdi)], false}
				case syscall.SYS_FSTAT:
					op = fileOp{"stat", fds[int(r.Rdi)], false}
				case syscall.SYS_CLOSE:
					op = fileOp{"close", fds[int(r.Rdi)], false}
				}
				if strings.HasPrefix(op.path, box+"/") {
					ops = append(ops, op)
					pending = &op
					if fault != nil {
						errno = fault(len(ops)-1, op)
					}
					if errno != 0 && op.call != "close" {
						r.Orig_rax = ^uint64(0)
						syscall.PtraceSetRegs(tid, &r)
					}
				}
			} else if pending != nil {
				if errno != 0 {
					r.Rax = uint64(-int64(errno))
					syscall.PtraceSetRegs(tid, &r)
				}
				if pending.call == "open" && int64(r.Rax) >= 0 {
					fds[int(r.Rax)] = pending.path
				}
				pending = nil
			}
		case s == syscall.SIGTRAP || s == syscall.SIGSTOP:
		default:
			sig = int(s)
		}
		if on {
			syscall.PtraceSyscall(pid, sig)
		} else {
			syscall.PtraceCont(pid, sig)
		}
	}
	b, _ := os.ReadFile(outName)
	return ops, string(b), ended, nil
}
