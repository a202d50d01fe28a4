package vx

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Fault injection is done by a build overlay of package os that looks at the
// VX_FAULT variable ("op:n" makes the n-th such operation fail).

func Arm(mask string) {
	v := next("fault")
	marker = filepath.Join(os.TempDir(), fmt.Sprintf("vxfired.%d", os.Getpid()))
	os.Remove(marker)
	os.Setenv("VX_FIRED", marker)
	os.Setenv("VX_DIR", Scratch())
	os.Setenv("VX_FAULT", v.Lit)
	if Verbose {
		fmt.Fprintln(os.Stderr, "  fault", v.Lit)
	}
}

// marker is the file that is made when the fault happens.
var marker string

// Disarm says whether the fault happened.
func Disarm() bool {
	v := os.Getenv("VX_FAULT")
	os.Unsetenv("VX_FAULT")
	if v == "" {
		return false
	}
	_, err := os.Lstat(marker)
	if err == nil {
		os.Remove(marker)
	} else if Verbose {
		fmt.Fprintln(os.Stderr, "  fault did not happen")
	}
	return err == nil
}

var scratch string

func Scratch() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "vxreplay")
		if err != nil {
			panic(err)
		}
		scratch = d
		if err := os.Chdir(d); err != nil {
			panic(err)
		}
		syscall.Umask(022)
	}
	return scratch
}

// Cleanup removes the scratch directory.
func Cleanup() {
	if scratch != "" {
		os.Chdir("/")
		os.RemoveAll(scratch)
		scratch = ""
	}
}

var (
	typing bool
	typed  [][]byte
)

// Type makes stdin of the next RunTool a terminal at which the lines are typed.
func Type(lines ...[]byte) { typing, typed = true, lines }

func terminal() (master, slave *os.File) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(AssumeFailed{"no terminal: " + err.Error()})
	}
	var n uint32
	ioctl(master, syscall.TIOCSPTLCK, &n)
	ioctl(master, syscall.TIOCGPTN, &n)
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(AssumeFailed{"no terminal: " + err.Error()})
	}
	go io.Copy(io.Discard, master)
	return master, slave
}

func ioctl(f *os.File, op uintptr, v *uint32) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), op, uintptr(unsafe.Pointer(v))); e != 0 {
		panic(AssumeFailed{"no terminal: " + e.Error()})
	}
}

// cpuTime is the time a process has used.
func cpuTime(pid int) int64 {
	var b []byte
	st, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if i := bytes.LastIndexByte(st, ')'); i >= 0 {
		if f := bytes.Fields(st[i:]); len(f) > 13 {
			b = append(append(b[:0], f[12]...), f[13]...)
		}
	}
	n := int64(0)
	for _, x := range b {
		n = n*31 + int64(x)
	}
	return n
}

func RunTool(in []byte, args ...string) (int, []byte, []byte) {
	tool := os.Getenv("VX_TOOL")
	if tool == "" {
		panic("VX_TOOL not set")
	}
	Scratch()
	c := exec.Command(tool, args...)
	if v := os.Getenv("VX_FAULT"); v != "" {
		// for the tool, not for the pipes to it
		c.Env = os.Environ()
		os.Unsetenv("VX_FAULT")
		defer os.Setenv("VX_FAULT", v)
	}
	c.Stdin = bytes.NewReader(in)
	atTerm := false
	if typing {
		master, slave := terminal()
		defer master.Close()
		c.Stdin = slave
		for _, l := range typed {
			master.Write(append(append([]byte(nil), l...), '\n'))
		}
		// nothing more is typed
		for i := 0; i < 4; i++ {
			master.Write([]byte{4})
		}
		typing, typed = false, nil
		atTerm = true
		defer slave.Close()
	}
	var out, er bytes.Buffer
	c.Stdout, c.Stderr = &out, &er
	if err := c.Start(); err != nil {
		panic(err)
	}
	var late atomic.Bool
	ended := make(chan bool)
	go func() {
		// A tool that waits for more to be typed would do so for ever.
		idle, last := 0, int64(-1)
		for i := 0; i < 1200; i++ {
			select {
			case <-ended:
				return
			case <-time.After(100 * time.Millisecond):
			}
			cpu := cpuTime(c.Process.Pid)
			if cpu != last {
				idle, last = 0, cpu
			} else if idle++; atTerm && idle >= 30 {
				break
			}
		}
		late.Store(true)
		c.Process.Kill()
	}()
	err := c.Wait()
	close(ended)
	if late.Load() {
		// it waits or is starved: that says nothing about the property
		panic(AssumeFailed{"the tool did not end"})
	}
	code := 0
	var xe *exec.ExitError
	if errors.As(err, &xe) {
		code = xe.ExitCode()
		if bytes.Contains(er.Bytes(), []byte("goroutine 1 [running]")) {
			panic("tool crashed: " + string(er.Bytes()))
		}
	} else if err != nil {
		code = 255
	}
	if Verbose {
		fmt.Fprintf(os.Stderr, "  tool %q -> %d\n%s", args, code, er.Bytes())
	}
	return code & 255, out.Bytes(), er.Bytes()
}

func Exists(nm string) bool { _, err := os.Lstat(nm); return err == nil }

func Listing() int {
	n := 0
	filepath.Walk(Scratch(), func(p string, _ os.FileInfo, err error) error {
		if err == nil && p != scratch {
			n++
		}
		return nil
	})
	return n
}

// Fifo makes a named pipe that delivers data to every reader.
func Fifo(nm string, data []byte) string {
	if err := syscall.Mkfifo(nm, 0644); err != nil {
		panic(err)
	}
	go func() {
		for {
			fd, err := os.OpenFile(nm, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			fd.Write(data)
			fd.Close()
			time.Sleep(20 * time.Millisecond)
		}
	}()
	return nm
}
