package vxm

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"strconv"
	"syscall"
	"time"

	fio "github.com/opencoff/go-fio"
	"golang.org/x/sys/unix"
)

// ---- an in-memory file system with one optional fault ----

type inode struct {
	id   uint64
	mode fs.FileMode
	data []byte
	link string // symlink target
	nl   int
}

type dirent struct {
	name string
	ino  *inode
}

type vfile struct {
	f     *os.File
	name  string
	ino   *inode
	pos   int
	wr    bool
	rd    bool
	app   bool
	open  bool
	std   int // 1,2: collected output; 3: stdin
	fdnum int
}

var (
	ents   []dirent
	files  []*vfile
	nextID uint64 = 100
	nextFd        = 3
	env    [][2]string
	cwd                = "/w"
	umask  fs.FileMode = 022

	stdin, stdout, stderr []byte

	// what somebody types at the terminal of the next run, line by line
	tty   bool
	typed [][]byte
)

//vx:global os.Stdin
var Stdin = stdFile(3, "/dev/stdin")

//vx:global os.Stdout
var Stdout = stdFile(1, "/dev/stdout")

//vx:global os.Stderr
var Stderr = stdFile(2, "/dev/stderr")

//vx:global os.Args
var Args = []string{"sigtool"}

func stdFile(k int, nm string) *os.File {
	f := new(os.File)
	files = append(files, &vfile{f: f, name: nm, std: k, open: true, rd: k == 3, wr: k != 3, fdnum: k % 3, ino: &inode{mode: fs.ModeNamedPipe | 0600}})
	return f
}

// ---- faults ----

var (
	fArmed bool
	fFired bool
	fMask  string
	fCnt   []fcnt
)

type fcnt struct {
	kind string
	n    int
}

func faultFired(kind string, n int) { panic("vxm") }
func faultArm(mask string)          { panic("vxm") }

func fault(kind string) bool {
	if !fArmed || fFired || !inMask(kind) {
		return false
	}
	k := -1
	for i := range fCnt {
		if fCnt[i].kind == kind {
			k = i
		}
	}
	if k < 0 {
		fCnt = append(fCnt, fcnt{kind, 0})
		k = len(fCnt) - 1
	}
	n := fCnt[k].n
	fCnt[k].n++
	if choose(2) == 0 {
		return false
	}
	fFired = true
	faultFired(kind, n)
	return true
}

// crash ends the process here if that is the fault chosen.
func crash() {
	if fault("crash") {
		exit(137)
	}
}

func inMask(kind string) bool {
	s := fMask
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != ',' {
			i++
		}
		if s[:i] == kind {
			return true
		}
		if i < len(s) {
			i++
		}
		s = s[i:]
	}
	return false
}

//vx:replace github.com/opencoff/sigtool/internal/vx.Arm
func vxArm(mask string) {
	fArmed, fFired, fMask, fCnt = true, false, mask, nil
	faultArm(mask)
}

//vx:replace github.com/opencoff/sigtool/internal/vx.Disarm
func vxDisarm() bool {
	fArmed = false
	return fFired
}

//vx:replace github.com/opencoff/sigtool/internal/vx.Scratch
func vxScratch() string { return "/w" }

//vx:replace github.com/opencoff/sigtool/internal/vx.RunTool
func vxRunTool(in []byte, args ...string) (int, []byte, []byte) {
	resetGlobals()
	stdin, stdout, stderr = in, nil, nil
	files = nil
	os.Stdin = stdFile(3, "/dev/stdin")
	os.Stdout = stdFile(1, "/dev/stdout")
	os.Stderr = stdFile(2, "/dev/stderr")
	a := []string{"sigtool"}
	for _, x := range args {
		a = append(a, x)
	}
	os.Args = a
	c := runMain()
	files = nil
	tty, typed = false, nil
	return c & 255, stdout, stderr
}

//vx:replace github.com/opencoff/sigtool/internal/vx.Exists
func vxExists(nm string) bool { return find(abs(nm)) != nil }

//vx:replace github.com/opencoff/sigtool/internal/vx.Listing
func vxListing() int { return len(ents) }

//vx:replace github.com/opencoff/sigtool/internal/vx.Type
func vxType(lines ...[]byte) {
	tty = true
	typed = nil
	for _, l := range lines {
		typed = append(typed, l)
	}
}

//vx:replace golang.org/x/crypto/ssh/terminal.IsTerminal golang.org/x/term.IsTerminal
func isTerminal(fd int) bool { return fd == 0 && tty }

//vx:replace golang.org/x/crypto/ssh/terminal.ReadPassword golang.org/x/term.ReadPassword
func readPassword(fd int) ([]byte, error) {
	if !isTerminal(fd) {
		return nil, syscall.ENOTTY
	}
	if len(typed) == 0 {
		return nil, io.EOF
	}
	l := typed[0]
	typed = typed[1:]
	return append([]byte(nil), l...), nil
}

//vx:replace github.com/opencoff/sigtool/internal/vx.Fifo
func vxFifo(nm string, data []byte) string {
	ino := newIno(fs.ModeNamedPipe|0644, data)
	ents = append(ents, dirent{abs(nm), ino})
	return nm
}

// ---- namespace ----

func abs(nm string) string {
	if nm == "" {
		return ""
	}
	if nm[0] != '/' {
		nm = cwd + "/" + nm
	}
	return path.Clean(nm)
}

func find(p string) *inode {
	for i := range ents {
		if ents[i].name == p {
			return ents[i].ino
		}
	}
	return nil
}

func newIno(m fs.FileMode, data []byte) *inode {
	nextID++
	return &inode{id: nextID, mode: m, data: data, nl: 1}
}

func dirOK(p string) error {
	d := path.Dir(p)
	if d == "/" || d == "/w" || d == "/dev" {
		return nil
	}
	i := find(d)
	if i == nil {
		return syscall.ENOENT
	}
	if i.mode&fs.ModeDir == 0 {
		return syscall.ENOTDIR
	}
	return nil
}

// resolve follows symlinks of the last component.
func resolve(p string) (string, *inode, error) {
	for k := 0; k < 8; k++ {
		if p == "" {
			return p, nil, syscall.ENOENT
		}
		if p == "/" || p == "/w" {
			return p, &inode{id: 1, mode: fs.ModeDir | 0755, nl: 2}, nil
		}
		if e := dirOK(p); e != nil {
			return p, nil, e
		}
		i := find(p)
		if i == nil {
			return p, nil, syscall.ENOENT
		}
		if i.mode&fs.ModeSymlink == 0 {
			return p, i, nil
		}
		t := i.link
		if t[0] != '/' {
			t = path.Dir(p) + "/" + t
		}
		p = path.Clean(t)
	}
	return p, nil, syscall.ELOOP
}

func perr(op, nm string, e error) error { return &os.PathError{Op: op, Path: nm, Err: e} }

//vx:replace os.OpenFile
func openFile(nm string, flag int, perm fs.FileMode) (*os.File, error) {
	p, i, e := resolve(abs(nm))
	acc := flag & 3
	if e != nil && !(errors.Is(e, syscall.ENOENT) && flag&os.O_CREATE != 0) {
		return nil, perr("open", nm, e)
	}
	if i == nil {
		if e := dirOK(p); e != nil {
			return nil, perr("open", nm, e)
		}
		crash()
		if fault("create") {
			return nil, perr("open", nm, syscall.EACCES)
		}
		i = newIno(perm&^umask, nil)
		ents = append(ents, dirent{p, i})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", nm, syscall.EEXIST)
		}
		if acc != 0 && i.mode&fs.ModeDir != 0 {
			return nil, perr("open", nm, syscall.EISDIR)
		}
		if acc != 0 {
			crash()
			if fault("create") {
				return nil, perr("open", nm, syscall.EACCES)
			}
		} else if fault("open") {
			return nil, perr("open", nm, syscall.EACCES)
		}
		if flag&os.O_TRUNC != 0 && acc != 0 {
			i.data = nil
		}
	}
	f := new(os.File)
	nextFd++
	files = append(files, &vfile{f: f, name: nm, ino: i, wr: acc != 0, rd: acc != 1, app: flag&os.O_APPEND != 0, open: true, fdnum: nextFd})
	return f, nil
}

//vx:replace os.Open
func osOpen(nm string) (*os.File, error) { return openFile(nm, os.O_RDONLY, 0) }

//vx:replace os.Create
func osCreate(nm string) (*os.File, error) {
	return openFile(nm, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

var tmpN int

//vx:replace os.CreateTemp
func osCreateTemp(dir, pat string) (*os.File, error) {
	if dir == "" {
		dir = "/w"
	}
	tmpN++
	pre, suf := pat, ""
	for i := len(pat) - 1; i >= 0; i-- {
		if pat[i] == '*' {
			pre, suf = pat[:i], pat[i+1:]
			break
		}
	}
	return openFile(dir+"/"+pre+strconv.Itoa(100000+tmpN)+suf, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func h(f *os.File) *vfile {
	for _, v := range files {
		if v.f == f {
			return v
		}
	}
	return nil
}

//vx:replace (*os.File).Name
func fName(f *os.File) string { return h(f).name }

//vx:replace (*os.File).Fd
func fFd(f *os.File) uintptr { return uintptr(h(f).fdnum) }

//vx:replace (*os.File).Close
func fClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	v := h(f)
	if v == nil || !v.open {
		return os.ErrClosed
	}
	v.open = false
	if v.wr && v.std == 0 {
		crash()
		if fault("close") {
			return perr("close", v.name, syscall.EIO)
		}
	}
	return nil
}

//vx:replace (*os.File).Sync
func fSync(f *os.File) error {
	v := h(f)
	if v == nil || !v.open {
		return os.ErrClosed
	}
	if v.std != 0 {
		return perr("sync", v.name, syscall.EINVAL)
	}
	crash()
	if fault("sync") {
		return perr("sync", v.name, syscall.EIO)
	}
	return nil
}

//vx:replace (*os.File).Write
func fWrite(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	v := h(f)
	if v == nil || !v.open {
		return 0, perr("write", "?", os.ErrClosed)
	}
	if !v.wr {
		return 0, perr("write", v.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if v.std == 2 {
		stderr = append(stderr, b...)
		return len(b), nil
	}
	var e error
	crash()
	if fault("write") {
		return 0, perr("write", v.name, syscall.ENOSPC)
	} else if fault("partial") {
		b = b[:len(b)/2]
		e = perr("write", v.name, syscall.ENOSPC)
	}
	die := false
	if fault("crashw") {
		b = b[:len(b)/2]
		die = true
	}
	if v.std == 1 {
		stdout = append(stdout, b...)
		if die {
			exit(137)
		}
		return len(b), e
	}
	d := v.ino.data
	if v.app {
		v.pos = len(d)
	}
	if v.pos == len(d) {
		d = append(d[:len(d):len(d)], b...)
	} else {
		nd := clone(d)
		for len(nd) < v.pos+len(b) {
			nd = append(nd, 0)
		}
		copy(nd[v.pos:], b)
		d = nd
	}
	v.ino.data = d
	v.pos += len(b)
	if die {
		exit(137)
	}
	return len(b), e
}

//vx:replace (*os.File).WriteString
func fWriteString(f *os.File, s string) (int, error) { return fWrite(f, []byte(s)) }

//vx:replace (*os.File).Read
func fRead(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	v := h(f)
	if v == nil || !v.open {
		return 0, perr("read", "?", os.ErrClosed)
	}
	if !v.rd {
		return 0, perr("read", v.name, syscall.EBADF)
	}
	if v.ino.mode&fs.ModeDir != 0 {
		return 0, perr("read", v.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if fault("read") {
		return 0, perr("read", v.name, syscall.EIO)
	}
	d := v.ino.data
	if v.std == 3 {
		if tty && v.pos >= len(stdin) && len(typed) > 0 {
			stdin = append(stdin, typed[0]...)
			stdin = append(stdin, '\n')
			typed = typed[1:]
		}
		d = stdin
	}
	if v.pos >= len(d) {
		return 0, io.EOF
	}
	n := copy(b, d[v.pos:])
	v.pos += n
	return n, nil
}

//vx:replace (*os.File).ReadAt
func fReadAt(f *os.File, b []byte, off int64) (int, error) {
	v := h(f)
	if v == nil || !v.open {
		return 0, os.ErrClosed
	}
	if off < 0 {
		return 0, perr("readat", v.name, errors.New("negative offset"))
	}
	d := v.ino.data
	if int(off) >= len(d) {
		return 0, io.EOF
	}
	n := copy(b, d[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

//vx:replace (*os.File).Seek
func fSeek(f *os.File, off int64, wh int) (int64, error) {
	v := h(f)
	switch wh {
	case 0:
		v.pos = int(off)
	case 1:
		v.pos += int(off)
	case 2:
		v.pos = len(v.ino.data) + int(off)
	}
	return int64(v.pos), nil
}

//vx:replace (*os.File).Truncate
func fTruncate(f *os.File, n int64) error {
	v := h(f)
	d := clone(v.ino.data)
	for len(d) < int(n) {
		d = append(d, 0)
	}
	v.ino.data = d[:n]
	return nil
}

//vx:replace (*os.File).Chmod
func fChmod(f *os.File, m fs.FileMode) error {
	v := h(f)
	v.ino.mode = v.ino.mode&^fs.ModePerm | m&fs.ModePerm
	return nil
}

type noWT struct{ f *os.File }

func (n noWT) Read(b []byte) (int, error) { return fRead(n.f, b) }

type noRF struct{ f *os.File }

func (n noRF) Write(b []byte) (int, error) { return fWrite(n.f, b) }

//vx:replace (*os.File).ReadFrom
func fReadFrom(f *os.File, r io.Reader) (int64, error) { return io.Copy(noRF{f}, r) }

//vx:replace (*os.File).WriteTo
func fWriteTo(f *os.File, w io.Writer) (int64, error) { return io.Copy(w, noWT{f}) }

// ---- stat ----

type finfo struct {
	name string
	ino  *inode
	size int64
}

func (i *finfo) Name() string       { return i.name }
func (i *finfo) Size() int64        { return i.size }
func (i *finfo) Mode() fs.FileMode  { return i.ino.mode }
func (i *finfo) ModTime() time.Time { return time.Time{} }
func (i *finfo) IsDir() bool        { return i.ino.mode&fs.ModeDir != 0 }
func (i *finfo) Sys() any           { return nil }

func inoSize(i *inode) int64 {
	if i.mode&fs.ModeType == 0 {
		return int64(len(i.data))
	}
	if i.mode&fs.ModeDir != 0 {
		return 4096
	}
	return 0
}

//vx:replace os.Stat
func osStat(nm string) (fs.FileInfo, error) {
	_, i, e := resolve(abs(nm))
	if e != nil {
		return nil, perr("stat", nm, e)
	}
	return &finfo{path.Base(nm), i, inoSize(i)}, nil
}

//vx:replace os.Lstat
func osLstat(nm string) (fs.FileInfo, error) {
	p := abs(nm)
	if i := find(p); i != nil {
		return &finfo{path.Base(nm), i, inoSize(i)}, nil
	}
	return osStat(nm)
}

//vx:replace (*os.File).Stat
func fStat(f *os.File) (fs.FileInfo, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	v := h(f)
	if v == nil || !v.open {
		return nil, perr("stat", "?", os.ErrClosed)
	}
	return &finfo{path.Base(v.name), v.ino, inoSize(v.ino)}, nil
}

//vx:replace os.SameFile
func osSameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*finfo)
	y, ok2 := b.(*finfo)
	return ok1 && ok2 && x.ino == y.ino
}

//vx:replace syscall.Stat
func sysStat(nm string, st *syscall.Stat_t) error {
	_, i, e := resolve(abs(nm))
	if e != nil {
		return e
	}
	fillStat(i, st)
	return nil
}

//vx:replace syscall.Lstat
func sysLstat(nm string, st *syscall.Stat_t) error {
	i := find(abs(nm))
	if i == nil {
		return sysStat(nm, st)
	}
	fillStat(i, st)
	return nil
}

func fillStat(i *inode, st *syscall.Stat_t) {
	st.Ino = i.id
	st.Dev = 1
	st.Size = inoSize(i)
	st.Nlink = 1
	m := uint32(i.mode & 0777)
	switch {
	case i.mode&fs.ModeDir != 0:
		m |= syscall.S_IFDIR
	case i.mode&fs.ModeNamedPipe != 0:
		m |= syscall.S_IFIFO
	case i.mode&fs.ModeSymlink != 0:
		m |= syscall.S_IFLNK
	default:
		m |= syscall.S_IFREG
	}
	st.Mode = m
}

//vx:replace github.com/opencoff/go-fio.GetXattr github.com/opencoff/go-fio.LgetXattr
func getXattr(nm string) (fio.Xattr, error) { return nil, nil }

// ---- changes ----

func unlink(p string) {
	for k := range ents {
		if ents[k].name == p {
			ents = append(ents[:k:k], ents[k+1:]...)
			return
		}
	}
}

//vx:replace os.Remove
func osRemove(nm string) error {
	crash()
	p := abs(nm)
	if find(p) == nil {
		return perr("remove", nm, syscall.ENOENT)
	}
	unlink(p)
	return nil
}

//vx:replace os.RemoveAll
func osRemoveAll(nm string) error {
	p := abs(nm)
	for k := len(ents) - 1; k >= 0; k-- {
		n := ents[k].name
		if n == p || len(n) > len(p) && n[:len(p)] == p && n[len(p)] == '/' {
			ents = append(ents[:k:k], ents[k+1:]...)
		}
	}
	return nil
}

//vx:replace os.Rename
func osRename(a, b string) error {
	pa, pb := abs(a), abs(b)
	i := find(pa)
	if i == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if e := dirOK(pb); e != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	if j := find(pb); j != nil && j.mode&fs.ModeDir != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	crash()
	if fault("rename") {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EIO}
	}
	if pa == pb {
		return nil
	}
	unlink(pa)
	unlink(pb)
	ents = append(ents, dirent{pb, i})
	return nil
}

//vx:replace os.Link
func osLink(a, b string) error {
	i := find(abs(a))
	if i == nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	if find(abs(b)) != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	ents = append(ents, dirent{abs(b), i})
	return nil
}

//vx:replace os.Symlink
func osSymlink(t, nm string) error {
	if find(abs(nm)) != nil {
		return &os.LinkError{Op: "symlink", Old: t, New: nm, Err: syscall.EEXIST}
	}
	i := newIno(fs.ModeSymlink|0777, nil)
	i.link = t
	ents = append(ents, dirent{abs(nm), i})
	return nil
}

//vx:replace os.Mkdir os.MkdirAll
func osMkdir(nm string, perm fs.FileMode) error {
	if find(abs(nm)) == nil {
		ents = append(ents, dirent{abs(nm), newIno(fs.ModeDir|perm&^umask, nil)})
	}
	return nil
}

//vx:replace os.Chmod
func osChmod(nm string, m fs.FileMode) error {
	_, i, e := resolve(abs(nm))
	if e != nil {
		return perr("chmod", nm, e)
	}
	i.mode = i.mode&^fs.ModePerm | m&fs.ModePerm
	return nil
}

//vx:replace os.Truncate
func osTruncate(nm string, n int64) error {
	_, i, e := resolve(abs(nm))
	if e != nil {
		return perr("truncate", nm, e)
	}
	d := clone(i.data)
	for len(d) < int(n) {
		d = append(d, 0)
	}
	i.data = d[:n]
	return nil
}

// ---- process ----

//vx:replace os.Getenv
func osGetenv(k string) string {
	v, _ := osLookupEnv(k)
	return v
}

//vx:replace os.LookupEnv syscall.Getenv
func osLookupEnv(k string) (string, bool) {
	for i := range env {
		if env[i][0] == k {
			return env[i][1], true
		}
	}
	return "", false
}

//vx:replace os.Setenv
func osSetenv(k, v string) error {
	for i := range env {
		if env[i][0] == k {
			env[i][1] = v
			return nil
		}
	}
	env = append(env, [2]string{k, v})
	return nil
}

//vx:replace os.Unsetenv
func osUnsetenv(k string) error {
	for i := range env {
		if env[i][0] == k {
			env = append(env[:i:i], env[i+1:]...)
			return nil
		}
	}
	return nil
}

//vx:replace os.Getpid
func osGetpid() int { return 4242 }

//vx:replace os.Getuid os.Geteuid
func osGetuid() int { return 0 }

//vx:replace os.Getwd
func osGetwd() (string, error) { return cwd, nil }

//vx:replace os.UserHomeDir
func osHome() (string, error) {
	if v := osGetenv("HOME"); v != "" {
		return v, nil
	}
	return "", errors.New("$HOME is not defined")
}

//vx:replace os.Exit
func osExit(c int) { exit(c) }

//vx:replace golang.org/x/sys/unix.Mmap
func unixMmap(fd int, off int64, n int, prot, flags int) ([]byte, error) {
	for _, v := range files {
		if v.fdnum == fd && v.open {
			if v.ino.mode&fs.ModeType != 0 {
				return nil, unix.ENODEV
			}
			if n <= 0 {
				return nil, unix.EINVAL
			}
			if fault("mmap") {
				return nil, unix.ENOMEM
			}
			d := v.ino.data
			if int(off)+n > len(d) {
				unsup("mmap beyond end of file")
			}
			return d[off : int(off)+n], nil
		}
	}
	return nil, unix.EBADF
}

//vx:replace golang.org/x/sys/unix.Munmap
func unixMunmap(b []byte) error { return nil }

//vx:replace time.Now
func timeNow() time.Time { return time.Time{} }
