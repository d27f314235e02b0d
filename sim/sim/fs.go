package sim

import (
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated file system. What completed calls wrote survives a process crash.
type FS struct {
	r       *Run
	root    *Inode
	handles map[*File]bool
	inoSeq  uint64
	Faults  *FSFaults
	Latency time.Duration
	// Delay, if set, is how long a call waits before it takes effect while other tasks run.
	Delay func(op, name string) time.Duration
	// CloseLoses, if set, tells for a failing close of a written file that the second half of
	// the file's bytes never reached the disk (delayed allocation, quota, network file system).
	CloseLoses func(name string) bool
	// OnOp, if set, is called after every successful or failed mutating call.
	OnOp  func(op, name, name2 string, err error)
	Ops   int64
	temps int
	Uid   int
}

// Inode is a file or directory.
type Inode struct {
	Ino   uint64
	Dir   bool
	Data  []byte
	Mode  os.FileMode
	Uid   int
	Gid   int
	Mtime time.Time
	Child map[string]*Inode
	Links int
	Tag   interface{} // for the harness
}

// FSFaults decides which calls fail. Each rate is "one in N"; 0 means never.
type FSFaults struct {
	Rate  map[string]int
	Match func(op, name string) bool
	Max   int // at most this many faults; <=0 unlimited
	Count int
	// Burst: after a fault the following Burst calls of the same kind fail too.
	Burst int
	// Always: the faults go on when the rest of the run is calm.
	Always bool
	left   map[string]int
	Last   string
}

func newFS(r *Run) *FS {
	f := &FS{r: r, handles: map[*File]bool{}}
	f.root = f.newInode(true, 0755)
	for _, d := range []string{"/tmp", "/work"} {
		f.MustMkdirAll(d)
	}
	return f
}

func (f *FS) newInode(dir bool, mode os.FileMode) *Inode {
	f.inoSeq++
	n := &Inode{Ino: f.inoSeq, Dir: dir, Mode: mode & os.ModePerm, Mtime: f.r.Wall(), Links: 1}
	if dir {
		n.Child = map[string]*Inode{}
		n.Mode |= os.ModeDir
	}
	return n
}

func abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/work/" + name
	}
	return path.Clean(name)
}

func (f *FS) find(name string) (*Inode, error) {
	if name == "" {
		return nil, syscall.ENOENT
	}
	p := abs(name)
	n := f.root
	for _, part := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
		if part == "" {
			continue
		}
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		c := n.Child[part]
		if c == nil {
			return nil, syscall.ENOENT
		}
		n = c
	}
	return n, nil
}

func (f *FS) parent(name string) (*Inode, string, error) {
	p := abs(name)
	d, err := f.find(path.Dir(p))
	if err != nil {
		return nil, "", err
	}
	if !d.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, path.Base(p), nil
}

// ---- direct access for the harness (no scheduling, no faults) ----

// MustMkdirAll creates directories.
func (f *FS) MustMkdirAll(name string) *Inode {
	n := f.root
	for _, part := range strings.Split(strings.TrimPrefix(abs(name), "/"), "/") {
		if part == "" {
			continue
		}
		c := n.Child[part]
		if c == nil {
			c = f.newInode(true, 0755)
			n.Child[part] = c
		}
		n = c
	}
	return n
}

// Put creates a file with content.
func (f *FS) Put(name string, data []byte) *Inode {
	d := f.MustMkdirAll(path.Dir(abs(name)))
	n := f.newInode(false, 0644)
	n.Data = append([]byte(nil), data...)
	d.Child[path.Base(abs(name))] = n
	return n
}

// Get returns the inode of name, or nil.
func (f *FS) Get(name string) *Inode {
	n, err := f.find(name)
	if err != nil {
		return nil
	}
	return n
}

// List returns the names in a directory, sorted.
func (f *FS) List(dir string) []string {
	n := f.Get(dir)
	if n == nil || !n.Dir {
		return nil
	}
	var out []string
	for k := range n.Child {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Unlink removes an entry directly.
func (f *FS) Unlink(name string) {
	if d, b, err := f.parent(name); err == nil {
		delete(d.Child, b)
	}
}

// OpenHandles counts open files.
func (f *FS) OpenHandles() int { return len(f.handles) }

func (f *FS) closeProc(p int) {
	for h := range f.handles {
		if h.proc == p {
			delete(f.handles, h)
			h.closed = true
		}
	}
}

// ---- system calls ----

var errnosFor = map[string][]syscall.Errno{
	"open":     {syscall.EMFILE, syscall.EACCES, syscall.EIO, syscall.ENOSPC, syscall.ENFILE, syscall.EROFS, syscall.EINTR, syscall.ENOMEM},
	"create":   {syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.EIO, syscall.EDQUOT, syscall.EROFS, syscall.EINTR},
	"stat":     {syscall.EIO, syscall.EACCES, syscall.ENOMEM},
	"rename":   {syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EBUSY, syscall.EPERM},
	"write":    {syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.EINTR, syscall.EAGAIN},
	"read":     {syscall.EIO},
	"close":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EINTR},
	"chown":    {syscall.EPERM, syscall.EIO},
	"chmod":    {syscall.EPERM},
	"mkdir":    {syscall.ENOSPC, syscall.EACCES},
	"readdir":  {syscall.EIO, syscall.EMFILE},
	"remove":   {syscall.EBUSY, syscall.EACCES, syscall.EIO},
	"sync":     {syscall.EIO},
	"truncate": {syscall.EIO},
	"link":     {syscall.EPERM, syscall.EIO},
}

// CrashAtFS arms a process crash at the n-th file-system call from now; phase 0 = just before
// it takes effect, 1 = just after, 2 = in the middle (writes are torn).
func (r *Run) CrashAtFS(n int64, phase int) { r.fsCrash = r.fsOps + n; r.fsPhase = phase }

// FSCrashPending tells whether the crash is still armed.
func (r *Run) FSCrashPending() bool { return r.fsCrash > 0 }

// DisarmFSCrash cancels it.
func (r *Run) DisarmFSCrash() { r.fsCrash = 0 }

// enter is the common prologue of a call: scheduling point, latency, crash and fault decisions.
func (f *FS) enter(op, name string) (err error) {
	Op(-20)
	if !active {
		return nil
	}
	r := f.r
	if f.Latency > 0 {
		r.now += int64(f.Latency)
	}
	if f.Delay != nil && r.cur.Proc != 0 && !r.calm {
		if d := f.Delay(op, name); d > 0 {
			r.Fault("fs-slow")
			r.Sleep(d)
		}
	}
	r.fsOps++
	f.Ops++
	if r.fsCrash > 0 && r.fsOps >= r.fsCrash && r.cur.Proc != 0 && r.fsPhase == 0 {
		r.fsCrash = 0
		r.Probe("crash-before-" + op)
		r.crashNow()
	}
	return f.fault(op, name)
}

func (f *FS) fault(op, name string) error {
	r := f.r
	p := f.Faults
	if p == nil || r.calm && !p.Always {
		return nil
	}
	if p.left == nil {
		p.left = map[string]int{}
	}
	if p.Match != nil && !p.Match(op, name) {
		return nil
	}
	if p.left[op] > 0 {
		p.left[op]--
	} else {
		n := p.Rate[op]
		if n <= 0 || (p.Max > 0 && p.Count >= p.Max) || !r.F.Chance(1, n) {
			return nil
		}
		if p.Burst > 0 {
			p.left[op] = r.F.Draw(p.Burst + 1)
		}
	}
	p.Count++
	list := errnosFor[op]
	if len(list) == 0 {
		list = []syscall.Errno{syscall.EIO}
	}
	e := list[r.F.Draw(len(list))]
	p.Last = op
	r.Fault("fs-" + op)
	r.Logf("inject %s %s: %v", op, name, e)
	return e
}

// leave is the epilogue: crash just after the effect.
func (f *FS) leave(op, name, name2 string, err error) {
	if !active {
		return
	}
	r := f.r
	if r.in.Trace {
		r.Tracef("fs %s %s %s -> %v", op, name, name2, err)
	}
	if f.OnOp != nil {
		f.OnOp(op, name, name2, err)
	}
	if r.fsCrash > 0 && r.fsOps >= r.fsCrash && r.cur.Proc != 0 {
		r.fsCrash = 0
		r.Probe("crash-after-" + op)
		r.crashNow()
	}
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &os.PathError{Op: op, Path: name, Err: err}
}

// OpenFiles lists the files a process has open.
func (f *FS) OpenFiles(proc int) []string {
	var out []string
	for h := range f.handles {
		if h.proc == proc && !h.closed {
			out = append(out, h.name)
		}
	}
	sort.Strings(out)
	return out
}

// File is an open simulated file (or a standard stream).
type File struct {
	fs     *FS
	name   string
	ino    *Inode
	off    int64
	flag   int
	closed bool
	proc   int
	cap    func() *Capture
	dirPos int
}

// NewStream returns a *File for a standard stream.
func NewStream(name string, c func() *Capture) *File { return &File{name: name, cap: c} }

// Capture records what is written to a standard stream.
type Capture struct {
	Chunks [][]byte
	// OnWrite may delay or fail a write.
	OnWrite func(p []byte) (int, error)
}

// String is everything written.
func (c *Capture) String() string {
	var b strings.Builder
	for _, x := range c.Chunks {
		b.Write(x)
	}
	return b.String()
}

func theFS() *FS {
	if R == nil {
		panic("verifsim: file system used outside a run")
	}
	if R.over {
		runtime.Goexit()
	}
	return R.FS
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	f := theFS()
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	err := f.enter(op, name)
	var h *File
	if err == nil {
		h, err = f.open(name, flag, perm)
	}
	f.leave(op, name, "", err)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return h, nil
}

func (f *FS) open(name string, flag int, perm os.FileMode) (*File, error) {
	d, base, err := f.parent(name)
	if abs(name) == "/" {
		d, base, err = nil, "", nil
	}
	if err != nil {
		return nil, err
	}
	var n *Inode
	if d == nil {
		n = f.root
	} else {
		n = d.Child[base]
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, syscall.ENOENT
		}
		n = f.newInode(false, perm)
		n.Uid = f.Uid
		d.Child[base] = n
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, syscall.EEXIST
		}
		if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, syscall.EISDIR
		}
		if flag&os.O_TRUNC != 0 && !n.Dir {
			n.Data = nil
			n.Mtime = f.r.Wall()
		}
	}
	h := &File{fs: f, name: name, ino: n, flag: flag}
	if f.r.cur != nil {
		h.proc = f.r.cur.Proc
	}
	f.handles[h] = true
	return h, nil
}

// Open, Create as in package os.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// Name returns the name given to Open.
func (h *File) Name() string { return h.name }

// Fd is not meaningful in the simulation.
func (h *File) Fd() uintptr { return 3 }

// Inode gives the harness access to the file.
func (h *File) Inode() *Inode { return h.ino }

func (h *File) check(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return perr(op, h.name, os.ErrClosed)
	}
	return nil
}

// Write implements io.Writer.
func (h *File) Write(p []byte) (int, error) {
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.cap != nil {
		if R == nil {
			return len(p), nil
		}
		Op(-21)
		c := h.cap()
		if c.OnWrite != nil {
			n, err := c.OnWrite(p)
			if err != nil {
				return n, err
			}
		}
		c.Chunks = append(c.Chunks, append([]byte(nil), p...))
		return len(p), nil
	}
	if err := h.check("write"); err != nil {
		return 0, err
	}
	f := h.fs
	err := f.enter("write", h.name)
	if h.closed { // closed by another task while waiting
		return 0, perr("write", h.name, os.ErrClosed)
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	n := len(p)
	if err != nil {
		if n > 1 && f.r.F.Draw(2) == 1 {
			// short write: a prefix reaches the file
			n = 1 + f.r.F.Draw(n-1)
			f.r.Fault("fs-short-write")
		} else {
			n = 0
		}
	}
	r := f.r
	if active && err == nil && r.fsCrash > 0 && r.fsOps >= r.fsCrash && r.cur.Proc != 0 && r.fsPhase == 2 && len(p) > 1 {
		n = 1 + r.F.Draw(len(p)-1)
		h.put(p[:n])
		r.fsCrash = 0
		r.Fault("torn-write")
		r.crashNow()
	}
	h.put(p[:n])
	f.leave("write", h.name, "", err)
	if err != nil {
		return n, perr("write", h.name, err)
	}
	return n, nil
}

func (h *File) put(p []byte) {
	if len(p) == 0 {
		return
	}
	n := h.ino
	if h.flag&os.O_APPEND != 0 {
		h.off = int64(len(n.Data))
	}
	end := h.off + int64(len(p))
	if h.off == int64(len(n.Data)) {
		n.Data = append(n.Data, p...)
	} else {
		if end > int64(len(n.Data)) {
			grown := make([]byte, end)
			copy(grown, n.Data)
			n.Data = grown
		}
		copy(n.Data[h.off:], p)
	}
	h.off = end
	n.Mtime = h.fs.r.Wall()
}

// WriteString implements io.StringWriter.
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

// WriteAt writes at an offset.
func (h *File) WriteAt(p []byte, off int64) (int, error) {
	if err := h.check("write"); err != nil {
		return 0, err
	}
	save := h.off
	h.off = off
	n, err := h.Write(p)
	h.off = save
	return n, err
}

// Read implements io.Reader.
func (h *File) Read(p []byte) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	if h.cap != nil {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	f := h.fs
	if err := f.enter("read", h.name); err != nil {
		f.leave("read", h.name, "", err)
		return 0, perr("read", h.name, err)
	}
	if h.closed {
		return 0, perr("read", h.name, os.ErrClosed)
	}
	if h.flag&os.O_WRONLY != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.ino.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.off >= int64(len(h.ino.Data)) {
		f.leave("read", h.name, "", nil)
		return 0, io.EOF
	}
	n := copy(p, h.ino.Data[h.off:])
	h.off += int64(n)
	f.leave("read", h.name, "", nil)
	return n, nil
}

// ReadAt reads at an offset.
func (h *File) ReadAt(p []byte, off int64) (int, error) {
	if err := h.check("read"); err != nil {
		return 0, err
	}
	save := h.off
	h.off = off
	t := 0
	for t < len(p) {
		n, err := h.Read(p[t:])
		t += n
		if err != nil {
			h.off = save
			return t, err
		}
	}
	h.off = save
	return t, nil
}

// Seek implements io.Seeker.
func (h *File) Seek(off int64, whence int) (int64, error) {
	if err := h.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += h.off
	case io.SeekEnd:
		off += int64(len(h.ino.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = off
	return off, nil
}

// Close closes the handle; like on Linux the handle is gone even if an error is reported.
func (h *File) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.cap != nil {
		return nil
	}
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	f := h.fs
	err := f.enter("close", h.name)
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	delete(f.handles, h)
	if err != nil && h.flag&(os.O_WRONLY|os.O_RDWR) != 0 && f.CloseLoses != nil && len(h.ino.Data) > 1 && f.CloseLoses(h.name) {
		f.r.Fault("fs-close-lost")
		truncate(h.ino, int64(len(h.ino.Data)/2))
	}
	f.leave("close", h.name, "", err)
	return perr("close", h.name, err)
}

// Sync flushes.
func (h *File) Sync() error {
	if err := h.check("sync"); err != nil {
		return err
	}
	if h.cap != nil {
		return nil
	}
	err := h.fs.enter("sync", h.name)
	h.fs.leave("sync", h.name, "", err)
	return perr("sync", h.name, err)
}

// Truncate changes the size.
func (h *File) Truncate(size int64) error {
	if err := h.check("truncate"); err != nil {
		return err
	}
	err := h.fs.enter("truncate", h.name)
	if err == nil {
		truncate(h.ino, size)
	}
	h.fs.leave("truncate", h.name, "", err)
	return perr("truncate", h.name, err)
}

func truncate(n *Inode, size int64) {
	if size <= int64(len(n.Data)) {
		n.Data = append([]byte(nil), n.Data[:size]...)
	} else {
		n.Data = append(n.Data, make([]byte, size-int64(len(n.Data)))...)
	}
}

// Stat returns the file's info.
func (h *File) Stat() (os.FileInfo, error) {
	if err := h.check("stat"); err != nil {
		return nil, err
	}
	if h.cap != nil {
		return &info{name: h.name, n: &Inode{Mode: 0600}}, nil
	}
	err := h.fs.enter("stat", h.name)
	h.fs.leave("stat", h.name, "", err)
	if err != nil {
		return nil, perr("stat", h.name, err)
	}
	return newInfo(path.Base(h.name), h.ino), nil
}

// Chmod, Chown change attributes.
func (h *File) Chmod(m os.FileMode) error { return Chmod(h.name, m) }
func (h *File) Chown(u, g int) error {
	if err := h.check("chown"); err != nil {
		return err
	}
	err := h.fs.enter("chown", h.name)
	if err == nil {
		h.ino.Uid, h.ino.Gid = u, g
	}
	h.fs.leave("chown", h.name, "", err)
	return perr("chown", h.name, err)
}

// SetDeadline and friends are no-ops.
func (h *File) SetDeadline(time.Time) error      { return nil }
func (h *File) SetReadDeadline(time.Time) error  { return nil }
func (h *File) SetWriteDeadline(time.Time) error { return nil }

// ReadDir reads the directory.
func (h *File) ReadDir(n int) ([]os.DirEntry, error) {
	fis, err := h.Readdir(n)
	var out []os.DirEntry
	for _, fi := range fis {
		out = append(out, fs.FileInfoToDirEntry(fi))
	}
	return out, err
}

// Readdir reads the directory.
func (h *File) Readdir(n int) ([]os.FileInfo, error) {
	if err := h.check("readdir"); err != nil {
		return nil, err
	}
	if err := h.fs.enter("readdir", h.name); err != nil {
		return nil, perr("readdirent", h.name, err)
	}
	if !h.ino.Dir {
		return nil, perr("readdirent", h.name, syscall.ENOTDIR)
	}
	list := listDir(h.ino)
	if h.dirPos > len(list) {
		h.dirPos = len(list)
	}
	list = list[h.dirPos:]
	if n > 0 {
		if len(list) == 0 {
			return nil, io.EOF
		}
		if len(list) > n {
			list = list[:n]
		}
	}
	h.dirPos += len(list)
	return list, nil
}

// Readdirnames reads the names.
func (h *File) Readdirnames(n int) ([]string, error) {
	fis, err := h.Readdir(n)
	var out []string
	for _, fi := range fis {
		out = append(out, fi.Name())
	}
	return out, err
}

func listDir(n *Inode) []os.FileInfo {
	var names []string
	for k := range n.Child {
		names = append(names, k)
	}
	sort.Strings(names)
	var out []os.FileInfo
	for _, k := range names {
		out = append(out, newInfo(k, n.Child[k]))
	}
	return out
}

type info struct {
	name string
	n    *Inode
	size int64
	mode os.FileMode
	mt   time.Time
	sys  *syscall.Stat_t
}

func newInfo(name string, n *Inode) *info {
	return &info{name: name, n: n, size: int64(len(n.Data)), mode: n.Mode, mt: n.Mtime,
		sys: &syscall.Stat_t{Uid: uint32(n.Uid), Gid: uint32(n.Gid), Ino: n.Ino, Size: int64(len(n.Data)), Mode: uint32(n.Mode.Perm()), Nlink: uint64(n.Links)}}
}
func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() os.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return i.mt }
func (i *info) IsDir() bool        { return i.mode.IsDir() }
func (i *info) Sys() interface{}   { return i.sys }

// SameFile compares infos.
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n == y.n
}

// Stat as os.Stat.
func Stat(name string) (os.FileInfo, error) {
	f := theFS()
	err := f.enter("stat", name)
	var n *Inode
	if err == nil {
		n, err = f.find(name)
	}
	f.leave("stat", name, "", err)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return newInfo(path.Base(abs(name)), n), nil
}

// Rename as os.Rename.
func Rename(from, to string) error {
	f := theFS()
	err := f.enter("rename", from)
	if err == nil {
		err = f.rename(from, to)
	}
	f.leave("rename", from, to, err)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	return nil
}

func (f *FS) rename(from, to string) error {
	sd, sb, err := f.parent(from)
	if err != nil {
		return err
	}
	n := sd.Child[sb]
	if n == nil {
		return syscall.ENOENT
	}
	dd, db, err := f.parent(to)
	if err != nil {
		return err
	}
	if x := dd.Child[db]; x != nil {
		if x == n {
			return nil
		}
		if x.Dir && !n.Dir {
			return syscall.EISDIR
		}
		if n.Dir && !x.Dir {
			return syscall.ENOTDIR
		}
		if x.Dir && len(x.Child) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	delete(sd.Child, sb)
	dd.Child[db] = n
	return nil
}

// Link as os.Link.
func Link(from, to string) error {
	f := theFS()
	err := f.enter("link", from)
	if err == nil {
		err = func() error {
			n, err := f.find(from)
			if err != nil {
				return err
			}
			d, b, err := f.parent(to)
			if err != nil {
				return err
			}
			if d.Child[b] != nil {
				return syscall.EEXIST
			}
			n.Links++
			d.Child[b] = n
			return nil
		}()
	}
	f.leave("link", from, to, err)
	if err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	return nil
}

// Remove as os.Remove.
func Remove(name string) error {
	f := theFS()
	err := f.enter("remove", name)
	if err == nil {
		err = func() error {
			d, b, err := f.parent(name)
			if err != nil {
				return err
			}
			n := d.Child[b]
			if n == nil {
				return syscall.ENOENT
			}
			if n.Dir && len(n.Child) > 0 {
				return syscall.ENOTEMPTY
			}
			delete(d.Child, b)
			n.Links--
			return nil
		}()
	}
	f.leave("remove", name, "", err)
	return perr("remove", name, err)
}

// RemoveAll as os.RemoveAll.
func RemoveAll(name string) error {
	f := theFS()
	err := f.enter("remove", name)
	if err == nil {
		if d, b, e := f.parent(name); e == nil {
			delete(d.Child, b)
		}
	}
	f.leave("removeall", name, "", err)
	return perr("unlinkat", name, err)
}

// Mkdir as os.Mkdir.
func Mkdir(name string, perm os.FileMode) error {
	f := theFS()
	err := f.enter("mkdir", name)
	if err == nil {
		err = func() error {
			d, b, err := f.parent(name)
			if err != nil {
				return err
			}
			if d.Child[b] != nil {
				return syscall.EEXIST
			}
			d.Child[b] = f.newInode(true, perm)
			return nil
		}()
	}
	f.leave("mkdir", name, "", err)
	return perr("mkdir", name, err)
}

// MkdirAll as os.MkdirAll.
func MkdirAll(name string, perm os.FileMode) error {
	f := theFS()
	if n, err := f.find(name); err == nil {
		Op(-22)
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	p := abs(name)
	if i := strings.LastIndex(p, "/"); i > 0 {
		if err := MkdirAll(p[:i], perm); err != nil {
			return err
		}
	}
	err := Mkdir(name, perm)
	if err != nil {
		if n, e := f.find(name); e == nil && n.Dir {
			return nil
		}
	}
	return err
}

// ReadDirInfo lists a directory.
func ReadDirInfo(name string) ([]os.FileInfo, error) {
	f := theFS()
	err := f.enter("readdir", name)
	var out []os.FileInfo
	if err == nil {
		var n *Inode
		n, err = f.find(name)
		if err == nil && !n.Dir {
			err = syscall.ENOTDIR
		}
		if err == nil {
			out = listDir(n)
		}
	}
	f.leave("readdir", name, "", err)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return out, nil
}

// ReadDirStat lists a directory and then looks at each entry, as ioutil.ReadDir does: an entry
// that vanishes in between makes it fail.
func ReadDirStat(name string) ([]os.FileInfo, error) {
	out, err := ReadDirInfo(name)
	if err != nil {
		return nil, err
	}
	for i, fi := range out {
		p := path.Join(name, fi.Name())
		Op(-23)
		n, err := theFS().find(p)
		if err != nil {
			return nil, perr("lstat", p, err)
		}
		out[i] = newInfo(fi.Name(), n)
	}
	return out, nil
}

// ReadDir as os.ReadDir.
func ReadDir(name string) ([]os.DirEntry, error) {
	fis, err := ReadDirInfo(name)
	if err != nil {
		return nil, err
	}
	var out []os.DirEntry
	for _, fi := range fis {
		out = append(out, fs.FileInfoToDirEntry(fi))
	}
	return out, nil
}

// Chown, Lchown, Chmod, Chtimes, Truncate as in os.
func Chown(name string, uid, gid int) error {
	f := theFS()
	err := f.enter("chown", name)
	if err == nil {
		var n *Inode
		if n, err = f.find(name); err == nil {
			n.Uid, n.Gid = uid, gid
		}
	}
	f.leave("chown", name, "", err)
	return perr("chown", name, err)
}
func Chmod(name string, m os.FileMode) error {
	f := theFS()
	err := f.enter("chmod", name)
	if err == nil {
		var n *Inode
		if n, err = f.find(name); err == nil {
			n.Mode = n.Mode&os.ModeDir | m.Perm()
		}
	}
	f.leave("chmod", name, "", err)
	return perr("chmod", name, err)
}
func Chtimes(name string, a, m time.Time) error {
	f := theFS()
	err := f.enter("chtimes", name)
	if err == nil {
		var n *Inode
		if n, err = f.find(name); err == nil {
			n.Mtime = m
		}
	}
	f.leave("chtimes", name, "", err)
	return perr("chtimes", name, err)
}
func Truncate(name string, size int64) error {
	f := theFS()
	err := f.enter("truncate", name)
	if err == nil {
		var n *Inode
		if n, err = f.find(name); err == nil {
			truncate(n, size)
		}
	}
	f.leave("truncate", name, "", err)
	return perr("truncate", name, err)
}

// ReadFile, WriteFile as in os.
func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(h)
}
func WriteFile(name string, data []byte, perm os.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e := h.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func tempName(dir, pattern string) string {
	f := theFS()
	f.temps++
	if dir == "" {
		dir = "/tmp"
	}
	num := "sim" + itoa(f.temps)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pattern = pattern[:i] + num + pattern[i+1:]
	} else {
		pattern += num
	}
	return path.Join(dir, pattern)
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

// CreateTemp, MkdirTemp as in os.
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}
func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0700)
}

// Glob as filepath.Glob (final component pattern only).
func Glob(pattern string) ([]string, error) {
	dir, file := path.Split(pattern)
	if _, err := path.Match(file, ""); err != nil {
		return nil, err
	}
	d := dir
	if d == "" {
		d = "."
	}
	fis, err := ReadDirInfo(d)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, fi := range fis {
		if ok, _ := path.Match(file, fi.Name()); ok {
			out = append(out, path.Join(dir, fi.Name()))
		}
	}
	return out, nil
}

// Walk as filepath.Walk.
func Walk(root string, fn func(path string, info os.FileInfo, err error) error) error {
	fi, err := Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fi, fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}
func walk(p string, fi os.FileInfo, fn func(path string, info os.FileInfo, err error) error) error {
	if !fi.IsDir() {
		return fn(p, fi, nil)
	}
	list, err := ReadDirInfo(p)
	err1 := fn(p, fi, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, c := range list {
		err = walk(path.Join(p, c.Name()), c, fn)
		if err != nil {
			if !c.IsDir() || err != fs.SkipDir {
				return err
			}
		}
	}
	return nil
}
