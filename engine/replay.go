package main

// Native replay: builds the harness against the real packages and runs it on
// recorded values.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Replayer struct {
	root, repo string
	prog       *Program
	dir        string
	mu         sync.Mutex
	bins       map[bool]*nativeBin
	n          int
}

type nativeBin struct {
	once sync.Once
	bin  string
	tool string
	err  error
}

func NewReplayer(root, repo string, p *Program) (*Replayer, error) {
	d, err := os.MkdirTemp("", "vxe")
	if err != nil {
		return nil, err
	}
	return &Replayer{root: root, repo: repo, prog: p, dir: d, bins: map[bool]*nativeBin{false: {}, true: {}}}, nil
}

func (r *Replayer) Close() { os.RemoveAll(r.dir) }

const osHook = `
package os

import "syscall"

var vxSpec string
var vxN int

// vxMine excludes files the program opens on its own account (itself, /proc).
func vxMine(nm string) bool {
	d, _ := syscall.Getenv("VX_DIR")
	if nm == "" || nm[0] != '/' || d == "" {
		return true
	}
	has := func(p string) bool { return len(nm) >= len(p) && nm[:len(p)] == p }
	return has(d) || has("/dev/std")
}

func vxHook(op string, std bool) bool {
	s, _ := syscall.Getenv("VX_FAULT")
	if s == "" {
		vxSpec = ""
		return false
	}
	if s != vxSpec {
		vxSpec, vxN = s, 0
	}
	i := 0
	for i < len(s) && s[i] != ':' {
		i++
	}
	if s[:i] != op {
		return false
	}
	k := 0
	for _, c := range s[i+1:] {
		k = 10*k + int(c-'0')
	}
	vxN++
	if vxN-1 != k {
		return false
	}
	if m, _ := syscall.Getenv("VX_FIRED"); m != "" {
		if fd, err := syscall.Open(m, syscall.O_CREAT|syscall.O_WRONLY, 0600); err == nil {
			syscall.Close(fd)
		}
	}
	return true
}

func vxCrash() {
	if vxHook("crash", false) {
		syscall.Exit(137)
	}
}
`

func (r *Replayer) osOverlay() (map[string]string, error) {
	goroot := runtime.GOROOT()
	if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		goroot = strings.TrimSpace(string(out))
	}
	out := map[string]string{}
	edit := func(file string, reps ...[2]string) error {
		p := filepath.Join(goroot, "src/os", file)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := string(b)
		for _, x := range reps {
			if strings.Count(s, x[0]) != 1 {
				return fmt.Errorf("cannot instrument %s: %q", file, x[0])
			}
			s = strings.Replace(s, x[0], x[0]+x[1], 1)
		}
		q := filepath.Join(r.dir, "os_"+file)
		out[p] = q
		return os.WriteFile(q, []byte(s), 0644)
	}
	if err := edit("file.go",
		[2]string{"func (f *File) Read(b []byte) (n int, err error) {\n", "\tif len(b) > 0 && vxMine(f.name) && vxHook(\"read\", false) {\n\t\treturn 0, f.wrapErr(\"read\", syscall.EIO)\n\t}\n"},
		[2]string{"func (f *File) Write(b []byte) (n int, err error) {\n", "\tif f != Stderr && len(b) > 0 && vxMine(f.name) {\n\t\tvxCrash()\n\t\tif vxHook(\"write\", false) {\n\t\t\treturn 0, f.wrapErr(\"write\", syscall.ENOSPC)\n\t\t}\n\t\tif vxHook(\"partial\", false) {\n\t\t\tn, _ = f.write(b[:len(b)/2])\n\t\t\treturn n, f.wrapErr(\"write\", syscall.ENOSPC)\n\t\t}\n\t\tif vxHook(\"crashw\", false) {\n\t\t\tf.write(b[:len(b)/2])\n\t\t\tsyscall.Exit(137)\n\t\t}\n\t}\n"},
		[2]string{"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "\tif _, vxe := Stat(name); !vxMine(name) {\n\t} else if flag&3 != 0 {\n\t\tif vxe == nil || flag&O_CREATE != 0 {\n\t\t\tvxCrash()\n\t\t}\n\t\tif (vxe == nil || flag&O_CREATE != 0) && vxHook(\"create\", false) {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: syscall.EACCES}\n\t\t}\n\t} else if vxe == nil && vxHook(\"open\", false) {\n\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: syscall.EACCES}\n\t}\n"},
		[2]string{"func Rename(oldpath, newpath string) error {\n", "\tif _, vxe := Lstat(oldpath); vxe == nil {\n\t\tvxCrash()\n\t}\n\tif _, vxe := Lstat(oldpath); vxe == nil && vxHook(\"rename\", false) {\n\t\treturn &LinkError{\"rename\", oldpath, newpath, syscall.EIO}\n\t}\n"},
		[2]string{"func (f *File) ReadFrom(r io.Reader) (n int64, err error) {\n", "\tif s, _ := syscall.Getenv(\"VX_FAULT\"); s != \"\" {\n\t\treturn genericReadFrom(f, r)\n\t}\n"},
		[2]string{"func (f *File) WriteTo(w io.Writer) (n int64, err error) {\n", "\tif s, _ := syscall.Getenv(\"VX_FAULT\"); s != \"\" {\n\t\treturn genericWriteTo(f, w)\n\t}\n"},
	); err != nil {
		return nil, err
	}
	if err := edit("file_posix.go",
		[2]string{"func (f *File) Close() error {\n", "\tif f != nil && f.vxWritable() {\n\t\tvxCrash()\n\t}\n\tif f != nil && f.vxWritable() && vxHook(\"close\", false) {\n\t\tf.file.close()\n\t\treturn &PathError{Op: \"close\", Path: f.name, Err: syscall.EIO}\n\t}\n"},
		[2]string{"func (f *File) Sync() error {\n", "\tif f != nil && f.vxWritable() {\n\t\tvxCrash()\n\t}\n\tif f != nil && f.vxWritable() && vxHook(\"sync\", false) {\n\t\treturn f.wrapErr(\"sync\", syscall.EIO)\n\t}\n"},
	); err != nil {
		return nil, err
	}
	if err := edit("file_unix.go",
		[2]string{"func Remove(name string) error {\n", "\tvxCrash()\n"},
	); err != nil {
		return nil, err
	}
	hook := osHook + `
func VxMmap() bool { return vxHook("mmap", false) }

func (f *File) vxWritable() bool {
	if f == Stdout || f == Stderr || f == Stdin || f.file == nil || f.file.pfd.Sysfd < 0 {
		return false
	}
	m, _, e := syscall.Syscall(syscall.SYS_FCNTL, uintptr(f.file.pfd.Sysfd), 3, 0)
	return e == 0 && m&3 != 0
}
`
	q := filepath.Join(r.dir, "os_vxhook.go")
	out[filepath.Join(goroot, "src/os", "vxhook.go")] = q
	return out, os.WriteFile(q, []byte(hook), 0644)
}

// mmapModule makes a go.mod that uses a copy of go-mmap whose mappings can fail.
func (r *Replayer) mmapModule() (string, error) {
	const mod = "github.com/opencoff/go-mmap"
	c := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", mod)
	c.Dir, c.Env = r.repo, goEnv()
	o, err := c.Output()
	if err != nil {
		return "", err
	}
	src, dst := strings.TrimSpace(string(o)), filepath.Join(r.dir, "go-mmap")
	if err := os.MkdirAll(dst, 0755); err != nil {
		return "", err
	}
	es, err := os.ReadDir(src)
	if err != nil {
		return "", err
	}
	for _, e := range es {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") && n != "go.mod" || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return "", err
		}
		if n == "mmap_unix.go" {
			const at = "\tb, err := unix.Mmap(int(fd),"
			if bytes.Count(b, []byte(at)) != 1 {
				return "", fmt.Errorf("cannot instrument %s", n)
			}
			b = bytes.Replace(b, []byte(at), []byte("\tif os.VxMmap() {\n\t\treturn nil, unix.ENOMEM\n\t}\n"+at), 1)
			if !bytes.Contains(b, []byte("\"os\"")) {
				b = bytes.Replace(b, []byte("import (\n"), []byte("import (\n\t\"os\"\n"), 1)
			}
		}
		if err := os.WriteFile(filepath.Join(dst, n), b, 0644); err != nil {
			return "", err
		}
	}
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(r.repo, n))
		if err != nil {
			return "", err
		}
		if n == "go.mod" {
			b = append(b, []byte("\nreplace "+mod+" => "+dst+"\n")...)
		}
		if err := os.WriteFile(filepath.Join(r.dir, "vx"+n), b, 0644); err != nil {
			return "", err
		}
	}
	return filepath.Join(r.dir, "vxgo.mod"), nil
}

func (r *Replayer) build(fault bool) (*nativeBin, error) {
	nb := r.bins[fault]
	nb.once.Do(func() { nb.err = r.build1(nb, fault) })
	return nb, nb.err
}

func (r *Replayer) build1(nb *nativeBin, fault bool) error {
	wb := len(r.prog.dropped) == 0
	rep := overlayFiles(r.root, r.repo, wb, true)
	var sb bytes.Buffer
	sb.WriteString("package main\n\nimport (\n\t\"github.com/opencoff/sigtool/internal/vxh\"\n\t\"github.com/opencoff/sigtool/sign\"\n)\n\nvar _ = sign.PKHashLength\nvar harnesses = map[string]func(){\n")
	var names []string
	for n := range r.prog.harness {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pk := "vxh"
		if r.prog.harness[n].Pkg.Pkg.Path() == modPath+"/sign" {
			pk = "sign"
		}
		fmt.Fprintf(&sb, "\t%q: %s.%s,\n", n, pk, n)
	}
	sb.WriteString("}\n")
	tf := filepath.Join(r.dir, "table.go")
	if err := os.WriteFile(tf, sb.Bytes(), 0644); err != nil {
		return err
	}
	rep[filepath.Join(r.repo, "internal/vxreplay/table.go")] = tf
	if fault {
		m, err := r.osOverlay()
		if err != nil {
			return err
		}
		for k, v := range m {
			rep[k] = v
		}
	}
	var flags []string
	if fault {
		mf, err := r.mmapModule()
		if err != nil {
			return err
		}
		flags = append(flags, "-modfile="+mf)
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(r.dir, fmt.Sprintf("overlay_%v.json", fault))
	if err := os.WriteFile(of, ob, 0644); err != nil {
		return err
	}
	nb.bin = filepath.Join(r.dir, fmt.Sprintf("vxreplay_%v", fault))
	nb.tool = filepath.Join(r.dir, fmt.Sprintf("sigtool_%v", fault))
	for _, x := range [][2]string{{nb.bin, "./internal/vxreplay"}, {nb.tool, "./src"}} {
		c := exec.Command("go", append(append([]string{"build", "-overlay", of, "-o", x[0]}, flags...), x[1])...)
		c.Dir = r.repo
		c.Env = goEnv()
		if b, err := c.CombinedOutput(); err != nil {
			return fmt.Errorf("native build of %s: %v: %s", x[1], err, b)
		}
	}
	return nil
}

type ReplayResult struct {
	Code int
	Out  string
	Hung bool
}

func (c *Cand) hasFault() bool {
	for _, v := range c.Values {
		if v.Kind == "fault" && v.Lit != "" {
			return true
		}
	}
	return false
}

func (c *Cand) hasRandom() bool {
	for _, v := range c.Values {
		if v.Kind == "key" {
			return true
		}
	}
	return false
}

// Run replays c; attempts is used for harnesses with random keys.
func (r *Replayer) Run(c *Cand, attempts int, verbose bool) (*ReplayResult, error) {
	nb, err := r.build(c.hasFault())
	if err != nil {
		return nil, err
	}
	r.mu.Lock()
	r.n++
	fn := filepath.Join(r.dir, fmt.Sprintf("cand%d.json", r.n))
	r.mu.Unlock()
	if err := os.WriteFile(fn, c.JSON(), 0644); err != nil {
		return nil, err
	}
	defer os.Remove(fn)
	// 6 GiB of address space: an attempt to allocate more is a crash
	cmd := exec.Command("sh", "-c", "ulimit -v 6291456; exec \"$0\" \"$1\"", nb.bin, fn)
	cmd.Env = append(goEnv(), "VX_TOOL="+nb.tool, fmt.Sprintf("VX_ATTEMPTS=%d", attempts))
	cmd.Dir = r.dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if verbose {
		cmd.Env = append(cmd.Env, "VX_VERBOSE=1")
	}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	limit := 150 * time.Second
	if c.Hang {
		limit = 90 * time.Second
	}
	var late atomic.Bool
	t := time.AfterFunc(limit, func() {
		late.Store(true)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	err = cmd.Wait()
	t.Stop()
	res := &ReplayResult{Out: out.String()}
	if c.Hang && late.Load() {
		res.Hung = true
		res.Out += fmt.Sprintf("the real code did not end within %v\n", limit)
	}
	var xe *exec.ExitError
	if errors.As(err, &xe) {
		res.Code = xe.ExitCode()
	} else if err != nil {
		return nil, err
	}
	if len(res.Out) > 4000 {
		res.Out = res.Out[:4000]
	}
	return res, nil
}

// Confirmed tells whether the replay shows the violation.
func (r *ReplayResult) Confirmed() bool { return r.Hung || r.Code == 10 || r.Code == 12 || r.Code == 2 }
