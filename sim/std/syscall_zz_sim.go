// A simulated kernel behind package syscall (overlay; not part of the
// repository under test).  While SimOn is set every system call made through
// this package is served from memory: files, directories, links, pipes,
// processes, clock, randomness.  Nothing reaches the real operating system.

package syscall

import (
	"runtime"
	"unsafe"
)

// SimOn routes system calls to the simulated kernel.
var SimOn bool

// Sim is the current kernel.
var Sim *SimKernel

const simFDBase = 1 << 20 // so that a stray real close() of a simulated fd is EBADF

// SimInode is a file, directory, symlink or FIFO.
type SimInode struct {
	Ino     uint64
	Mode    uint32 // S_IFMT | permissions
	UID     uint32
	GID     uint32
	Nlink   int
	Mtime   int64 // ns
	Atime   int64
	Ctime   int64
	Data    []byte
	Target  string
	Rdev    uint64
	Dev     uint64 // file system; 0 is the root
	StIno   uint64 // its number there, if that is not Ino
	Entries map[string]*SimInode
	Parent  *SimInode // directories only

	// FIFO with preloaded content ("process substitution"): consumed once.
	FifoPos int

	Born int // index in log, for crash reconstruction
}

// simFile is an open file description.
type simFile struct {
	ino    *SimInode
	path   string
	flags  int
	pos    int64
	refs   int
	dirbuf []simDirent
	dirpos int
	pipe   *simPipe
	wr     bool // write end of the pipe
	std    int  // 1: stdout, 2: stderr, 3: /dev/null, 4: stdin
}

type simDirent struct {
	name string
	ino  *SimInode
}

type simPipe struct {
	buf      []byte
	readers  int
	writers  int
	waitR    []chan struct{}
	waitW    []chan struct{}
	capacity int
}

func (p *simPipe) wake(l *[]chan struct{}) {
	w := *l
	*l = nil
	for _, c := range w {
		close(c)
	}
}

// SimProc is a simulated process.
type SimProc struct {
	ID      int32 // index in Sim.Procs
	Pid     int
	PPid    int
	UID     int
	GID     int
	Cwd     string
	Umask   uint32
	Argv0   string
	Argv    []string
	Env     []string
	fds     map[int]*simFile
	nextFD  int
	Exited  bool
	Reaped  bool
	Status  uint32 // wait status
	waiters []chan struct{}
	KillCh  chan struct{} // closed when a signal kills it
	Killed  bool
}

// SimOp describes one system call to the fault hook and to the log.
type SimOp struct {
	Index int    // among the faultable calls of the main process
	Proc  int32  // 0: the program under test
	Name  string // "open", "read", ...
	Path  string
	Path2 string
	FD    int
	N     int // requested length

	// decided by the hook
	Errno Errno // fail with this, without effect
	Limit int   // >0: transfer at most Limit bytes
	Crash bool  // the process dies here (after Limit bytes if it is a write)
	Zero  bool  // read: pretend end of file

	// outcome
	Ret int
	Err Errno
}

// SimMut is a log record of one change to the file system.
type SimMut struct {
	Kind  string // create, mkdir, symlink, link, unlink, rmdir, rename, write, truncate, chmod, chown, utimes, fsync
	Dir   *SimInode
	Name  string
	Dir2  *SimInode
	Name2 string
	Ino   *SimInode
	Off   int64
	Data  []byte
	Old   []byte
	Op    int
}

type SimKernel struct {
	Root    *SimInode
	nextIno uint64
	devIno  map[uint64]uint64
	Procs   []*SimProc
	nextPid int

	Stdout    []byte
	Stderr    []byte
	Stdin     []byte
	stdinPos  int
	StdoutIno *SimInode

	Hook    func(*SimOp)        // before every call of process 0 (and others if HookAll)
	HookAll bool                //
	Trace   func(*SimOp)        // after every call
	Exec    func(*SimProc) int  // runs a simulated program; returns the wait status
	CanExec func(path string) Errno
	OnExit  func(code int)      // exit_group by process 0
	OnSig   func(sig int)       // fatal signal to process 0
	OnCrash func()              // SimOp.Crash
	DirSeed uint64              // order of getdents
	Ops     int
	Log     []*SimMut
	KeepLog bool
	PipeCap int
	Limit   int                 // RLIMIT_NOFILE-like; 0: none
	Tick    int64               // ns per call
	Quota   int64               // bytes that can still be written; <0: no limit
	nofault int
	Calls   map[string]int
	OpenFDs int
	Unknown map[uintptr]int
}

func NewSimKernel() *SimKernel {
	k := &SimKernel{nextPid: 4242, PipeCap: 65536, Tick: 1000, Quota: -1, Calls: map[string]int{}, Unknown: map[uintptr]int{}}
	k.Root = k.newInode(S_IFDIR | 0755)
	k.Root.Parent = k.Root
	p := &SimProc{Pid: k.nextPid, PPid: 1, Cwd: "/", Umask: 022, fds: map[int]*simFile{}, nextFD: simFDBase, KillCh: make(chan struct{})}
	k.nextPid++
	p.fds[0] = &simFile{std: 4, refs: 1, path: "<stdin>"}
	p.fds[1] = &simFile{std: 1, refs: 1, path: "<stdout>"}
	p.fds[2] = &simFile{std: 2, refs: 1, path: "<stderr>"}
	k.Procs = []*SimProc{p}
	return k
}

func (k *SimKernel) now() int64 { return runtime.SimWall() }

func (k *SimKernel) newInode(mode uint32) *SimInode {
	k.nextIno++
	t := k.now()
	i := &SimInode{Ino: 1000 + k.nextIno, Mode: mode, Nlink: 1, Mtime: t, Atime: t, Ctime: t, Born: len(k.Log)}
	if mode&S_IFMT == S_IFDIR {
		i.Entries = map[string]*SimInode{}
		i.Nlink = 2
	}
	return i
}

// adopt puts a new inode in the file system of its directory.
func (k *SimKernel) adopt(d, i *SimInode) {
	if d.Dev != 0 {
		i.Dev = d.Dev
		k.devIno[d.Dev]++
		i.StIno = k.devIno[d.Dev]
	}
}

// Mount makes an empty directory the root of another file system, in which
// inodes have the numbers of other files.
func (k *SimKernel) Mount(d *SimInode, dev uint64) {
	if d.Dev == dev || len(d.Entries) > 0 {
		return
	}
	if k.devIno == nil {
		k.devIno = map[uint64]uint64{}
	}
	if k.devIno[dev] == 0 {
		n := k.nextIno
		if n > 5 {
			n -= 5
		}
		k.devIno[dev] = 1000 + n
	}
	d.Dev = dev
	k.devIno[dev]++
	d.StIno = k.devIno[dev]
}

func (k *SimKernel) cur() *SimProc {
	id := runtime.SimGetProc()
	if int(id) >= len(k.Procs) {
		return k.Procs[0]
	}
	return k.Procs[id]
}

// NewProc registers one more process (an independent instance of the program
// under test, or a child).
func (k *SimKernel) NewProc(parent *SimProc) *SimProc {
	p := &SimProc{ID: int32(len(k.Procs)), Pid: k.nextPid, PPid: parent.Pid, UID: parent.UID, GID: parent.GID, Cwd: parent.Cwd, Umask: parent.Umask, fds: map[int]*simFile{}, nextFD: simFDBase + 1000*len(k.Procs), KillCh: make(chan struct{})}
	k.nextPid++
	k.Procs = append(k.Procs, p)
	p.fds[0] = &simFile{std: 4, refs: 1, path: "<stdin>"}
	p.fds[1] = &simFile{std: 1, refs: 1, path: "<stdout>"}
	p.fds[2] = &simFile{std: 2, refs: 1, path: "<stderr>"}
	return p
}

// ---- path resolution ----

func simSplit(p string) []string {
	var out []string
	for i := 0; i < len(p); {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		if j > i {
			out = append(out, p[i:j])
		}
		i = j
	}
	return out
}

func (k *SimKernel) access(pr *SimProc, i *SimInode, want uint32) bool {
	if pr.UID == 0 {
		if want == 1 && i.Mode&S_IFMT != S_IFDIR {
			return i.Mode&0111 != 0
		}
		return true
	}
	m := i.Mode
	switch {
	case uint32(pr.UID) == i.UID:
		m >>= 6
	case uint32(pr.GID) == i.GID:
		m >>= 3
	}
	return m&want == want
}

// walk resolves path.  With wantParent it stops before the last component.
func (k *SimKernel) walk(pr *SimProc, base *SimInode, path string, follow, wantParent bool) (dir *SimInode, name string, ino *SimInode, e Errno) {
	if path == "" {
		return nil, "", nil, ENOENT
	}
	if len(path) > 4095 {
		return nil, "", nil, ENAMETOOLONG
	}
	d := base
	if path[0] == '/' || d == nil {
		d = k.Root
		if path[0] != '/' {
			var e Errno
			_, _, d, e = k.walk(pr, k.Root, pr.Cwd, true, false)
			if e != 0 {
				return nil, "", nil, e
			}
		}
	}
	parts := simSplit(path)
	trailing := path[len(path)-1] == '/'
	links := 0
	if len(parts) == 0 {
		return d, ".", d, 0
	}
	for n := 0; n < len(parts); n++ {
		last := n == len(parts)-1
		c := parts[n]
		if len(c) > 255 {
			return nil, "", nil, ENAMETOOLONG
		}
		if d.Mode&S_IFMT != S_IFDIR {
			return nil, "", nil, ENOTDIR
		}
		if !k.access(pr, d, 1) {
			return nil, "", nil, EACCES
		}
		var next *SimInode
		switch c {
		case ".":
			next = d
		case "..":
			next = d.Parent
		default:
			next = d.Entries[c]
		}
		if last && wantParent && c != "." && c != ".." {
			if next == nil || !follow || next.Mode&S_IFMT != S_IFLNK {
				return d, c, next, 0
			}
		}
		if next == nil {
			return nil, "", nil, ENOENT
		}
		if next.Mode&S_IFMT == S_IFLNK && (!last || follow || trailing) {
			links++
			if links > 40 {
				return nil, "", nil, ELOOP
			}
			t := next.Target
			if t == "" {
				return nil, "", nil, ENOENT
			}
			rest := parts[n+1:]
			np := append(append([]string{}, simSplit(t)...), rest...)
			if t[0] == '/' {
				d = k.Root
			}
			parts = np
			n = -1
			if len(parts) == 0 {
				return d, ".", d, 0
			}
			continue
		}
		if last {
			if trailing && next.Mode&S_IFMT != S_IFDIR {
				return nil, "", nil, ENOTDIR
			}
			return d, c, next, 0
		}
		d = next
	}
	return nil, "", nil, ENOENT
}

// ---- harness access (never faulted, never logged) ----

func (k *SimKernel) MkdirAll(path string, mode uint32) *SimInode {
	d := k.Root
	for _, c := range simSplit(path) {
		n := d.Entries[c]
		for n != nil && n.Mode&S_IFMT == S_IFLNK {
			_, _, n2, e := k.walk(k.Procs[0], d, n.Target, true, false)
			if e != 0 {
				panic("sim MkdirAll: " + path)
			}
			n = n2
		}
		if n == nil {
			n = k.newInode(S_IFDIR | mode)
			k.adopt(d, n)
			n.Parent = d
			d.Entries[c] = n
			d.Nlink++
		}
		d = n
	}
	return d
}

func simDirBase(p string) (string, string) {
	i := len(p) - 1
	for i >= 0 && p[i] != '/' {
		i--
	}
	return p[:i+1], p[i+1:]
}

func (k *SimKernel) PutFile(path string, mode uint32, data []byte) *SimInode {
	dn, bn := simDirBase(path)
	d := k.MkdirAll(dn, 0755)
	i := k.newInode(S_IFREG | mode)
	k.adopt(d, i)
	i.Data = data
	d.Entries[bn] = i
	return i
}

func (k *SimKernel) PutSymlink(path, target string) *SimInode {
	dn, bn := simDirBase(path)
	d := k.MkdirAll(dn, 0755)
	i := k.newInode(S_IFLNK | 0777)
	k.adopt(d, i)
	i.Target = target
	d.Entries[bn] = i
	return i
}

func (k *SimKernel) PutNode(path string, mode uint32) *SimInode {
	dn, bn := simDirBase(path)
	d := k.MkdirAll(dn, 0755)
	i := k.newInode(mode)
	k.adopt(d, i)
	d.Entries[bn] = i
	return i
}

func (k *SimKernel) PutLink(path string, i *SimInode) {
	dn, bn := simDirBase(path)
	d := k.MkdirAll(dn, 0755)
	d.Entries[bn] = i
	i.Nlink++
}

// Lookup resolves a path without following a final symlink.
func (k *SimKernel) Lookup(path string) *SimInode {
	_, _, i, e := k.walk(&SimProc{}, k.Root, path, false, false)
	if e != 0 {
		return nil
	}
	return i
}

func (k *SimKernel) LookupFollow(path string) *SimInode {
	_, _, i, e := k.walk(&SimProc{}, k.Root, path, true, false)
	if e != 0 {
		return nil
	}
	return i
}

func (k *SimKernel) Remove(path string) {
	dn, bn := simDirBase(path)
	if d := k.Lookup(dn); d != nil {
		if i := d.Entries[bn]; i != nil {
			i.Nlink--
			delete(d.Entries, bn)
		}
	}
}

// OpenFiles lists the descriptors of process id that are still open.
func (k *SimKernel) OpenFiles(id int) []string {
	var out []string
	for fd, f := range k.Procs[id].fds {
		if fd > 2 {
			out = append(out, f.path)
		}
	}
	return out
}

// ---- faults ----

func (k *SimKernel) begin(pr *SimProc, op *SimOp) {
	runtime.SimAdvance(k.Tick)
	if pr.Killed {
		runtime.Goexit()
	}
	op.Proc = pr.ID
	k.Calls[op.Name]++
	op.Index = -1
	if pr.ID == 0 {
		op.Index = k.Ops
		k.Ops++
	}
	if k.Hook != nil && (pr.ID == 0 || k.HookAll) {
		k.Hook(op)
	}
}

func (k *SimKernel) end(pr *SimProc, op *SimOp, ret int, e Errno) (uintptr, uintptr, Errno) {
	op.Ret, op.Err = ret, e
	if k.Trace != nil {
		k.Trace(op)
	}
	if e != 0 {
		return ^uintptr(0), 0, e
	}
	return uintptr(ret), 0, 0
}

func (k *SimKernel) crash(pr *SimProc) {
	if k.OnCrash != nil {
		k.OnCrash()
	}
	runtime.Goexit()
}

func (k *SimKernel) mut(m *SimMut) {
	if k.KeepLog {
		m.Op = k.Ops
		k.Log = append(k.Log, m)
	}
}

// ---- calls ----

func simStr(p uintptr) string {
	if p == 0 {
		return ""
	}
	n := 0
	for *(*byte)(unsafe.Pointer(p + uintptr(n))) != 0 {
		n++
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = *(*byte)(unsafe.Pointer(p + uintptr(i)))
	}
	return string(b)
}

func simBytes(p uintptr, n int) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), n)
}

func (k *SimKernel) allocFD(pr *SimProc, f *simFile) (int, Errno) {
	if k.Limit > 0 && len(pr.fds) >= k.Limit {
		return -1, EMFILE
	}
	fd := pr.nextFD
	pr.nextFD++
	f.refs++
	pr.fds[fd] = f
	return fd, 0
}

func (k *SimKernel) closeFile(f *simFile) {
	f.refs--
	if f.refs > 0 {
		return
	}
	if f.pipe != nil {
		if f.wr {
			f.pipe.writers--
			if f.pipe.writers == 0 {
				f.pipe.wake(&f.pipe.waitR)
			}
		} else {
			f.pipe.readers--
			if f.pipe.readers == 0 {
				f.pipe.wake(&f.pipe.waitW)
			}
		}
	}
}

func (k *SimKernel) baseOf(pr *SimProc, dirfd int) (*SimInode, string, Errno) {
	if dirfd == _AT_FDCWD {
		return nil, "", 0
	}
	f := pr.fds[dirfd]
	if f == nil {
		return nil, "", EBADF
	}
	if f.ino == nil || f.ino.Mode&S_IFMT != S_IFDIR {
		return nil, "", ENOTDIR
	}
	return f.ino, f.path, 0
}

func simJoin(base, p string) string {
	if base == "" || (len(p) > 0 && p[0] == '/') {
		return p
	}
	return base + "/" + p
}

func (k *SimKernel) open(pr *SimProc, dirfd int, path string, flags int, mode uint32) (uintptr, uintptr, Errno) {
	base, bp, e := k.baseOf(pr, dirfd)
	op := &SimOp{Name: "open", Path: simJoin(bp, path)}
	if flags&O_ACCMODE != O_RDONLY || flags&(O_CREAT|O_TRUNC) != 0 {
		op.Name = "openw"
	}
	k.begin(pr, op)
	if op.Crash {
		k.crash(pr)
	}
	if op.Errno != 0 {
		return k.end(pr, op, -1, op.Errno)
	}
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	dir, name, ino, e := k.walk(pr, base, path, flags&O_NOFOLLOW == 0, flags&O_CREAT != 0)
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	if ino == nil {
		if flags&O_CREAT == 0 {
			return k.end(pr, op, -1, ENOENT)
		}
		if !k.access(pr, dir, 3) {
			return k.end(pr, op, -1, EACCES)
		}
		ino = k.newInode(S_IFREG | (mode & 07777 &^ pr.Umask))
		k.adopt(dir, ino)
		ino.UID, ino.GID = uint32(pr.UID), uint32(pr.GID)
		dir.Entries[name] = ino
		dir.Mtime = k.now()
		k.mut(&SimMut{Kind: "create", Dir: dir, Name: name, Ino: ino})
	} else {
		if flags&O_CREAT != 0 && flags&O_EXCL != 0 {
			return k.end(pr, op, -1, EEXIST)
		}
		if ino.Mode&S_IFMT == S_IFLNK {
			return k.end(pr, op, -1, ELOOP)
		}
		if flags&O_DIRECTORY != 0 && ino.Mode&S_IFMT != S_IFDIR {
			return k.end(pr, op, -1, ENOTDIR)
		}
		acc := flags & O_ACCMODE
		if ino.Mode&S_IFMT == S_IFDIR && (acc != O_RDONLY || flags&O_CREAT != 0) {
			return k.end(pr, op, -1, EISDIR)
		}
		var want uint32 = 4
		if acc == O_WRONLY {
			want = 2
		} else if acc == O_RDWR {
			want = 6
		}
		if !k.access(pr, ino, want) {
			return k.end(pr, op, -1, EACCES)
		}
		if flags&O_TRUNC != 0 && ino.Mode&S_IFMT == S_IFREG {
			k.mut(&SimMut{Kind: "truncate", Ino: ino, Off: 0, Old: ino.Data})
			ino.Data = nil
			ino.Mtime = k.now()
		}
	}
	f := &simFile{ino: ino, path: op.Path, flags: flags}
	if ino.Mode&S_IFMT == S_IFCHR {
		f.std = 3
	}
	fd, e := k.allocFD(pr, f)
	return k.end(pr, op, fd, e)
}

func (k *SimKernel) blockOn(pr *SimProc, l *[]chan struct{}) {
	c := make(chan struct{})
	*l = append(*l, c)
	<-c
	if pr.Killed {
		runtime.Goexit()
	}
}

func (k *SimKernel) read(pr *SimProc, fd int, buf []byte, off int64, pread bool) (uintptr, uintptr, Errno) {
	f := pr.fds[fd]
	op := &SimOp{Name: "read", FD: fd, N: len(buf)}
	if f != nil {
		op.Path = f.path
		if f.pipe != nil {
			op.Name = "piperead"
		}
	}
	k.begin(pr, op)
	if op.Crash {
		k.crash(pr)
	}
	if op.Errno != 0 {
		return k.end(pr, op, -1, op.Errno)
	}
	if f == nil {
		return k.end(pr, op, -1, EBADF)
	}
	if op.Zero {
		return k.end(pr, op, 0, 0)
	}
	if op.Limit > 0 && op.Limit < len(buf) {
		buf = buf[:op.Limit]
	}
	switch {
	case f.std == 3:
		return k.end(pr, op, 0, 0)
	case f.std == 4:
		n := copy(buf, k.Stdin[k.stdinPos:])
		k.stdinPos += n
		return k.end(pr, op, n, 0)
	case f.std != 0:
		return k.end(pr, op, -1, EBADF)
	case f.pipe != nil:
		if f.wr {
			return k.end(pr, op, -1, EBADF)
		}
		for len(f.pipe.buf) == 0 {
			if f.pipe.writers == 0 {
				return k.end(pr, op, 0, 0)
			}
			k.blockOn(pr, &f.pipe.waitR)
		}
		n := copy(buf, f.pipe.buf)
		f.pipe.buf = f.pipe.buf[n:]
		f.pipe.wake(&f.pipe.waitW)
		return k.end(pr, op, n, 0)
	}
	if f.flags&O_ACCMODE == O_WRONLY {
		return k.end(pr, op, -1, EBADF)
	}
	switch f.ino.Mode & S_IFMT {
	case S_IFDIR:
		return k.end(pr, op, -1, EISDIR)
	case S_IFIFO:
		if pread {
			return k.end(pr, op, -1, ESPIPE)
		}
		n := copy(buf, f.ino.Data[f.ino.FifoPos:])
		f.ino.FifoPos += n
		return k.end(pr, op, n, 0)
	}
	if !pread {
		off = f.pos
	}
	n := 0
	if off < int64(len(f.ino.Data)) {
		n = copy(buf, f.ino.Data[off:])
	}
	if !pread {
		f.pos += int64(n)
	}
	return k.end(pr, op, n, 0)
}

func (k *SimKernel) write(pr *SimProc, fd int, buf []byte, off int64, pwrite bool) (uintptr, uintptr, Errno) {
	f := pr.fds[fd]
	op := &SimOp{Name: "write", FD: fd, N: len(buf)}
	if f != nil {
		op.Path = f.path
		if f.pipe != nil {
			op.Name = "pipewrite"
		}
		if f.std == 1 {
			op.Name = "stdout"
		}
		if f.std == 2 {
			op.Name = "stderr"
		}
	}
	k.begin(pr, op)
	if op.Errno != 0 {
		if op.Crash {
			k.crash(pr)
		}
		return k.end(pr, op, -1, op.Errno)
	}
	if f == nil {
		return k.end(pr, op, -1, EBADF)
	}
	if op.Crash && op.Limit == 0 {
		k.crash(pr)
	}
	if op.Limit > 0 && op.Limit < len(buf) {
		buf = buf[:op.Limit]
	}
	if k.Quota >= 0 && f.std == 0 && f.pipe == nil && pr.ID == 0 {
		if k.Quota == 0 && len(buf) > 0 {
			return k.end(pr, op, -1, ENOSPC)
		}
		if int64(len(buf)) > k.Quota {
			buf = buf[:k.Quota]
		}
		k.Quota -= int64(len(buf))
	}
	switch {
	case f.std == 3:
	case f.std == 1:
		k.Stdout = append(k.Stdout, buf...)
	case f.std == 2:
		if len(k.Stderr) < 1<<20 {
			k.Stderr = append(k.Stderr, buf...)
		}
	case f.std == 4:
		return k.end(pr, op, -1, EBADF)
	case f.pipe != nil:
		if !f.wr {
			return k.end(pr, op, -1, EBADF)
		}
		done := 0
		for done < len(buf) {
			if f.pipe.readers == 0 {
				if done > 0 {
					break
				}
				return k.end(pr, op, -1, EPIPE)
			}
			room := k.PipeCap - len(f.pipe.buf)
			if room <= 0 {
				k.blockOn(pr, &f.pipe.waitW)
				continue
			}
			n := len(buf) - done
			if n > room {
				n = room
			}
			f.pipe.buf = append(f.pipe.buf, buf[done:done+n]...)
			done += n
			f.pipe.wake(&f.pipe.waitR)
		}
		return k.end(pr, op, done, 0)
	default:
		if f.flags&O_ACCMODE == O_RDONLY {
			return k.end(pr, op, -1, EBADF)
		}
		if !pwrite {
			off = f.pos
			if f.flags&O_APPEND != 0 {
				off = int64(len(f.ino.Data))
			}
		}
		d := make([]byte, len(buf))
		copy(d, buf)
		k.mut(&SimMut{Kind: "write", Ino: f.ino, Off: off, Data: d})
		f.ino.Data = SimApplyWrite(f.ino.Data, off, d)
		f.ino.Mtime = k.now()
		if !pwrite {
			f.pos = off + int64(len(buf))
		}
	}
	if op.Crash {
		k.crash(pr)
	}
	return k.end(pr, op, len(buf), 0)
}

func SimApplyWrite(old []byte, off int64, d []byte) []byte {
	end := off + int64(len(d))
	n := int64(len(old))
	if end > n {
		if end <= int64(cap(old)) && n > 0 {
			old = old[:end]
			for i := n; i < off; i++ {
				old[i] = 0
			}
		} else {
			c := end + end/4
			nb := make([]byte, end, c)
			copy(nb, old)
			old = nb
		}
	} else {
		// never modify a shared initial image in place
		nb := make([]byte, n)
		copy(nb, old)
		old = nb
	}
	copy(old[off:], d)
	return old
}

func (k *SimKernel) fillStat(st *Stat_t, i *SimInode) {
	*st = Stat_t{}
	st.Dev = 0x801 + i.Dev
	st.Ino = i.Ino
	if i.StIno != 0 {
		st.Ino = i.StIno
	}
	st.Nlink = uint64(i.Nlink)
	st.Mode = i.Mode
	st.Uid = i.UID
	st.Gid = i.GID
	st.Rdev = i.Rdev
	st.Blksize = 4096
	switch i.Mode & S_IFMT {
	case S_IFREG:
		st.Size = int64(len(i.Data))
	case S_IFLNK:
		st.Size = int64(len(i.Target))
	case S_IFDIR:
		st.Size = 4096
	}
	st.Blocks = (st.Size + 511) / 512
	st.Mtim = NsecToTimespec(i.Mtime)
	st.Atim = NsecToTimespec(i.Atime)
	st.Ctim = NsecToTimespec(i.Ctime)
}

func (k *SimKernel) stat(pr *SimProc, dirfd int, path string, follow bool, out uintptr) (uintptr, uintptr, Errno) {
	base, bp, e := k.baseOf(pr, dirfd)
	op := &SimOp{Name: "stat", Path: simJoin(bp, path)}
	k.begin(pr, op)
	if op.Crash {
		k.crash(pr)
	}
	if op.Errno != 0 {
		return k.end(pr, op, -1, op.Errno)
	}
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	_, _, i, e := k.walk(pr, base, path, follow, false)
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	k.fillStat((*Stat_t)(unsafe.Pointer(out)), i)
	return k.end(pr, op, 0, 0)
}

func (k *SimKernel) simpleFault(pr *SimProc, op *SimOp) (bool, uintptr, uintptr, Errno) {
	k.begin(pr, op)
	if op.Crash {
		k.crash(pr)
	}
	if op.Errno != 0 {
		a, b, c := k.end(pr, op, -1, op.Errno)
		return true, a, b, c
	}
	return false, 0, 0, 0
}

func simHashName(seed uint64, s string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func (k *SimKernel) getdents(pr *SimProc, fd int, buf []byte) (uintptr, uintptr, Errno) {
	f := pr.fds[fd]
	op := &SimOp{Name: "getdents", FD: fd, N: len(buf)}
	if f != nil {
		op.Path = f.path
	}
	if done, a, b, c := k.simpleFault(pr, op); done {
		return a, b, c
	}
	if f == nil || f.ino == nil {
		return k.end(pr, op, -1, EBADF)
	}
	if f.ino.Mode&S_IFMT != S_IFDIR {
		return k.end(pr, op, -1, ENOTDIR)
	}
	if f.dirbuf == nil {
		f.dirbuf = []simDirent{{".", f.ino}, {"..", f.ino.Parent}}
		var l []simDirent
		for n, i := range f.ino.Entries {
			l = append(l, simDirent{n, i})
		}
		// order: seeded hash (a real directory has no useful order)
		for a := 1; a < len(l); a++ {
			for b := a; b > 0; b-- {
				ha, hb := simHashName(k.DirSeed, l[b].name), simHashName(k.DirSeed, l[b-1].name)
				if ha < hb || ha == hb && l[b].name < l[b-1].name {
					l[b], l[b-1] = l[b-1], l[b]
				} else {
					break
				}
			}
		}
		f.dirbuf = append(f.dirbuf, l...)
	}
	n := 0
	for f.dirpos < len(f.dirbuf) {
		d := f.dirbuf[f.dirpos]
		reclen := (19 + len(d.name) + 1 + 7) &^ 7
		if n+reclen > len(buf) || (op.Limit > 0 && n > 0 && n+reclen > op.Limit) {
			break
		}
		b := buf[n : n+reclen]
		for i := range b {
			b[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&b[0])) = d.ino.Ino
		*(*uint64)(unsafe.Pointer(&b[8])) = uint64(f.dirpos + 1)
		*(*uint16)(unsafe.Pointer(&b[16])) = uint16(reclen)
		b[18] = byte(d.ino.Mode & S_IFMT >> 12)
		copy(b[19:], d.name)
		n += reclen
		f.dirpos++
	}
	if n == 0 && f.dirpos < len(f.dirbuf) {
		return k.end(pr, op, -1, EINVAL)
	}
	return k.end(pr, op, n, 0)
}

func (k *SimKernel) unlink(pr *SimProc, dirfd int, path string, rmdir bool) (uintptr, uintptr, Errno) {
	base, bp, e := k.baseOf(pr, dirfd)
	op := &SimOp{Name: "unlink", Path: simJoin(bp, path)}
	if rmdir {
		op.Name = "rmdir"
	}
	if done, a, b, c := k.simpleFault(pr, op); done {
		return a, b, c
	}
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	dir, name, ino, e := k.walk(pr, base, path, false, true)
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	if name == "." {
		return k.end(pr, op, -1, EINVAL)
	}
	if ino == nil {
		return k.end(pr, op, -1, ENOENT)
	}
	if !k.access(pr, dir, 3) {
		return k.end(pr, op, -1, EACCES)
	}
	if rmdir {
		if ino.Mode&S_IFMT != S_IFDIR {
			return k.end(pr, op, -1, ENOTDIR)
		}
		if len(ino.Entries) > 0 {
			return k.end(pr, op, -1, ENOTEMPTY)
		}
	} else if ino.Mode&S_IFMT == S_IFDIR {
		return k.end(pr, op, -1, EISDIR)
	}
	delete(dir.Entries, name)
	dir.Mtime = k.now()
	ino.Nlink--
	k.mut(&SimMut{Kind: "unlink", Dir: dir, Name: name, Ino: ino})
	return k.end(pr, op, 0, 0)
}

func (k *SimKernel) rename(pr *SimProc, fd1 int, old string, fd2 int, new string) (uintptr, uintptr, Errno) {
	b1, p1, e1 := k.baseOf(pr, fd1)
	b2, p2, e2 := k.baseOf(pr, fd2)
	op := &SimOp{Name: "rename", Path: simJoin(p1, old), Path2: simJoin(p2, new)}
	if done, a, b, c := k.simpleFault(pr, op); done {
		return a, b, c
	}
	if e1 != 0 || e2 != 0 {
		return k.end(pr, op, -1, EBADF)
	}
	d1, n1, i1, e := k.walk(pr, b1, old, false, true)
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	d2, n2, i2, e := k.walk(pr, b2, new, false, true)
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	if i1 == nil {
		return k.end(pr, op, -1, ENOENT)
	}
	if !k.access(pr, d1, 3) || !k.access(pr, d2, 3) {
		return k.end(pr, op, -1, EACCES)
	}
	if d1.Dev != d2.Dev {
		return k.end(pr, op, -1, EXDEV)
	}
	if i1.Dev != d1.Dev || i2 != nil && i2.Dev != d2.Dev {
		return k.end(pr, op, -1, EBUSY)
	}
	if i1 == i2 {
		return k.end(pr, op, 0, 0)
	}
	if i2 != nil {
		dir1, dir2 := i1.Mode&S_IFMT == S_IFDIR, i2.Mode&S_IFMT == S_IFDIR
		if dir2 && !dir1 {
			return k.end(pr, op, -1, EISDIR)
		}
		if dir1 && !dir2 {
			return k.end(pr, op, -1, ENOTDIR)
		}
		if dir2 && len(i2.Entries) > 0 {
			return k.end(pr, op, -1, ENOTEMPTY)
		}
		i2.Nlink--
	}
	delete(d1.Entries, n1)
	d2.Entries[n2] = i1
	if i1.Mode&S_IFMT == S_IFDIR {
		i1.Parent = d2
	}
	d1.Mtime, d2.Mtime = k.now(), k.now()
	k.mut(&SimMut{Kind: "rename", Dir: d1, Name: n1, Dir2: d2, Name2: n2, Ino: i1})
	return k.end(pr, op, 0, 0)
}

// make: mkdir, symlink, link, mknod
func (k *SimKernel) make(pr *SimProc, kind string, dirfd int, path string, mode uint32, target string, lnk *SimInode) (uintptr, uintptr, Errno) {
	base, bp, e := k.baseOf(pr, dirfd)
	op := &SimOp{Name: kind, Path: simJoin(bp, path), Path2: target}
	if done, a, b, c := k.simpleFault(pr, op); done {
		return a, b, c
	}
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	dir, name, ino, e := k.walk(pr, base, path, false, true)
	if e != 0 {
		return k.end(pr, op, -1, e)
	}
	if ino != nil {
		return k.end(pr, op, -1, EEXIST)
	}
	if !k.access(pr, dir, 3) {
		return k.end(pr, op, -1, EACCES)
	}
	if kind == "link" && lnk.Dev != dir.Dev {
		return k.end(pr, op, -1, EXDEV)
	}
	if kind == "link" {
		lnk.Nlink++
		ino = lnk
	} else {
		ino = k.newInode(mode)
		k.adopt(dir, ino)
		ino.UID, ino.GID = uint32(pr.UID), uint32(pr.GID)
		ino.Target = target
		if kind == "mkdir" {
			ino.Parent = dir
		}
	}
	dir.Entries[name] = ino
	dir.Mtime = k.now()
	k.mut(&SimMut{Kind: kind, Dir: dir, Name: name, Ino: ino})
	return k.end(pr, op, 0, 0)
}

func (k *SimKernel) attr(pr *SimProc, kind string, i *SimInode, path string, f func(*SimInode)) (uintptr, uintptr, Errno) {
	op := &SimOp{Name: kind, Path: path}
	if done, a, b, c := k.simpleFault(pr, op); done {
		return a, b, c
	}
	if i == nil {
		return k.end(pr, op, -1, EBADF)
	}
	f(i)
	i.Ctime = k.now()
	k.mut(&SimMut{Kind: kind, Ino: i})
	return k.end(pr, op, 0, 0)
}

func (k *SimKernel) attrAt(pr *SimProc, kind string, dirfd int, path string, follow bool, f func(*SimInode)) (uintptr, uintptr, Errno) {
	base, bp, e := k.baseOf(pr, dirfd)
	if e == 0 {
		var i *SimInode
		_, _, i, e = k.walk(pr, base, path, follow, false)
		if e == 0 {
			return k.attr(pr, kind, i, simJoin(bp, path), f)
		}
	}
	op := &SimOp{Name: kind, Path: simJoin(bp, path)}
	if done, a, b, c := k.simpleFault(pr, op); done {
		return a, b, c
	}
	return k.end(pr, op, -1, e)
}

// ---- processes ----

func simForkExec(argv0 string, argv []string, attr *ProcAttr) (int, error) {
	k := Sim
	pr := k.cur()
	op := &SimOp{Name: "exec", Path: argv0}
	k.begin(pr, op)
	if op.Crash {
		k.crash(pr)
	}
	if op.Errno != 0 {
		k.end(pr, op, -1, op.Errno)
		return 0, op.Errno
	}
	dir := pr.Cwd
	if attr != nil && attr.Dir != "" {
		dir = simJoin(pr.Cwd, attr.Dir)
	}
	tmp := *pr
	tmp.Cwd = dir
	_, _, ino, e := k.walk(&tmp, nil, argv0, true, false)
	if e == 0 && (ino.Mode&S_IFMT != S_IFREG || ino.Mode&0111 == 0) {
		e = EACCES
	}
	if e == 0 && k.CanExec != nil {
		e = k.CanExec(argv0)
	}
	if e != 0 {
		k.end(pr, op, -1, e)
		return 0, e
	}
	c := k.NewProc(pr)
	c.Cwd = dir
	c.Argv0 = argv0
	c.Argv = append([]string{}, argv...)
	c.fds = map[int]*simFile{}
	if attr != nil {
		c.Env = append([]string{}, attr.Env...)
		for i, fd := range attr.Files {
			f := pr.fds[int(fd)]
			if f == nil {
				continue
			}
			f.refs++
			c.fds[i] = f
		}
	}
	go func() {
		runtime.SimSetProc(c.ID)
		normal := false
		defer func() {
			if !normal {
				if c.Killed {
					return
				}
			}
			// a panic in a simulated program is a bug in the harness: let it out
		}()
		st := uint32(127 << 8)
		if k.Exec != nil {
			st = uint32(k.Exec(c))
		}
		normal = true
		if !c.Killed {
			k.finish(c, st)
		}
	}()
	k.end(pr, op, c.Pid, 0)
	return c.Pid, nil
}

func (k *SimKernel) finish(c *SimProc, status uint32) {
	if c.Exited {
		return
	}
	c.Exited = true
	c.Status = status
	// deterministic order of closing
	for fd := 0; len(c.fds) > 0; fd++ {
		if fd > 64 && fd < simFDBase {
			fd = simFDBase
		}
		if fd > c.nextFD {
			break
		}
		if f := c.fds[fd]; f != nil {
			delete(c.fds, fd)
			k.closeFile(f)
		}
	}
	for _, w := range c.waiters {
		close(w)
	}
	c.waiters = nil
}

func (k *SimKernel) kill(pid int, sig int) Errno {
	for _, p := range k.Procs {
		if p.Pid != pid {
			continue
		}
		if p.ID == 0 {
			if sig != 0 && k.OnSig != nil {
				k.OnSig(sig)
			}
			return 0
		}
		if p.Reaped {
			return ESRCH
		}
		if p.Exited || sig == 0 {
			return 0
		}
		p.Killed = true
		close(p.KillCh)
		k.finish(p, uint32(sig))
		return 0
	}
	return ESRCH
}

func (k *SimKernel) wait(pr *SimProc, pid int, status *WaitStatus, nohang, nowait bool) (uintptr, uintptr, Errno) {
	op := &SimOp{Name: "wait", N: pid}
	k.begin(pr, op)
	if op.Crash {
		k.crash(pr)
	}
	if op.Errno != 0 {
		return k.end(pr, op, -1, op.Errno)
	}
	var c *SimProc
	for _, p := range k.Procs {
		if p.Pid == pid && p.PPid == pr.Pid && !p.Reaped {
			c = p
		}
	}
	if c == nil {
		return k.end(pr, op, -1, ECHILD)
	}
	for !c.Exited {
		if nohang {
			return k.end(pr, op, 0, 0)
		}
		k.blockOn(pr, &c.waiters)
	}
	if status != nil {
		*status = WaitStatus(c.Status)
	}
	if !nowait {
		c.Reaped = true
	}
	return k.end(pr, op, pid, 0)
}

// SimCurrent returns the process of the calling goroutine.
func (k *SimKernel) SimCurrent() *SimProc { return k.cur() }

// PipeStdin etc. let the harness look at what a process was given.
func (p *SimProc) HasFD(fd int) bool { return p.fds[fd] != nil }

func (k *SimKernel) exit(pr *SimProc, code int) {
	if pr.ID == 0 {
		if k.OnExit != nil {
			k.OnExit(code)
		}
		runtime.Goexit()
	}
	k.finish(pr, uint32(code&0xff)<<8)
	pr.Killed = true
	runtime.Goexit()
}

// ---- dispatch ----

func simSyscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	k := Sim
	pr := k.cur()
	switch trap {
	case SYS_OPEN:
		return k.open(pr, _AT_FDCWD, simStr(a1), int(a2), uint32(a3))
	case SYS_OPENAT:
		return k.open(pr, int(int32(a1)), simStr(a2), int(a3), uint32(a4))
	case SYS_READ:
		return k.read(pr, int(a1), simBytes(a2, int(a3)), 0, false)
	case SYS_PREAD64:
		return k.read(pr, int(a1), simBytes(a2, int(a3)), int64(a4), true)
	case SYS_WRITE:
		return k.write(pr, int(a1), simBytes(a2, int(a3)), 0, false)
	case SYS_PWRITE64:
		return k.write(pr, int(a1), simBytes(a2, int(a3)), int64(a4), true)
	case SYS_CLOSE:
		f := pr.fds[int(a1)]
		op := &SimOp{Name: "close", FD: int(a1)}
		if f != nil {
			op.Path = f.path
			if f.ino != nil && f.flags&O_ACCMODE != O_RDONLY {
				op.Name = "closew"
			}
		}
		k.begin(pr, op)
		if op.Crash {
			k.crash(pr)
		}
		if f == nil {
			return k.end(pr, op, -1, EBADF)
		}
		delete(pr.fds, int(a1))
		k.closeFile(f)
		// close releases the descriptor even when it reports an error
		return k.end(pr, op, 0, op.Errno)
	case SYS_STAT:
		return k.stat(pr, _AT_FDCWD, simStr(a1), true, a2)
	case SYS_LSTAT:
		return k.stat(pr, _AT_FDCWD, simStr(a1), false, a2)
	case SYS_NEWFSTATAT:
		return k.stat(pr, int(int32(a1)), simStr(a2), int(a4)&_AT_SYMLINK_NOFOLLOW == 0, a3)
	case SYS_FSTAT:
		f := pr.fds[int(a1)]
		op := &SimOp{Name: "fstat", FD: int(a1)}
		if f != nil {
			op.Path = f.path
		}
		if done, a, b, c := k.simpleFault(pr, op); done {
			return a, b, c
		}
		if f == nil {
			return k.end(pr, op, -1, EBADF)
		}
		st := (*Stat_t)(unsafe.Pointer(a2))
		if f.ino != nil {
			k.fillStat(st, f.ino)
		} else {
			*st = Stat_t{}
			st.Mode = S_IFIFO | 0600
			if f.std != 0 {
				st.Mode = S_IFCHR | 0600
			}
		}
		return k.end(pr, op, 0, 0)
	case SYS_LSEEK:
		f := pr.fds[int(a1)]
		op := &SimOp{Name: "lseek", FD: int(a1)}
		if f != nil {
			op.Path = f.path
		}
		if done, a, b, c := k.simpleFault(pr, op); done {
			return a, b, c
		}
		if f == nil {
			return k.end(pr, op, -1, EBADF)
		}
		if f.ino == nil || f.ino.Mode&S_IFMT == S_IFIFO {
			return k.end(pr, op, -1, ESPIPE)
		}
		switch int(a3) {
		case 0:
			f.pos = int64(a2)
		case 1:
			f.pos += int64(a2)
		case 2:
			f.pos = int64(len(f.ino.Data)) + int64(a2)
		}
		if f.ino.Mode&S_IFMT == S_IFDIR && f.pos == 0 {
			f.dirbuf, f.dirpos = nil, 0
		}
		return k.end(pr, op, int(f.pos), 0)
	case SYS_GETDENTS64:
		return k.getdents(pr, int(a1), simBytes(a2, int(a3)))
	case SYS_UNLINK:
		return k.unlink(pr, _AT_FDCWD, simStr(a1), false)
	case SYS_RMDIR:
		return k.unlink(pr, _AT_FDCWD, simStr(a1), true)
	case SYS_UNLINKAT:
		return k.unlink(pr, int(int32(a1)), simStr(a2), int(a3)&_AT_REMOVEDIR != 0)
	case SYS_RENAME:
		return k.rename(pr, _AT_FDCWD, simStr(a1), _AT_FDCWD, simStr(a2))
	case SYS_RENAMEAT:
		return k.rename(pr, int(int32(a1)), simStr(a2), int(int32(a3)), simStr(a4))
	case SYS_MKDIR:
		return k.make(pr, "mkdir", _AT_FDCWD, simStr(a1), S_IFDIR|uint32(a2)&07777&^pr.Umask, "", nil)
	case SYS_MKDIRAT:
		return k.make(pr, "mkdir", int(int32(a1)), simStr(a2), S_IFDIR|uint32(a3)&07777&^pr.Umask, "", nil)
	case SYS_SYMLINK:
		return k.make(pr, "symlink", _AT_FDCWD, simStr(a2), S_IFLNK|0777, simStr(a1), nil)
	case SYS_SYMLINKAT:
		return k.make(pr, "symlink", int(int32(a2)), simStr(a3), S_IFLNK|0777, simStr(a1), nil)
	case SYS_MKNODAT:
		return k.make(pr, "mknod", int(int32(a1)), simStr(a2), uint32(a3), "", nil)
	case SYS_LINK, SYS_LINKAT:
		d1, p1, d2, p2 := _AT_FDCWD, a1, _AT_FDCWD, a2
		if trap == SYS_LINKAT {
			d1, p1, d2, p2 = int(int32(a1)), a2, int(int32(a3)), a4
		}
		base, _, e := k.baseOf(pr, d1)
		if e != 0 {
			return ^uintptr(0), 0, e
		}
		_, _, i, e := k.walk(pr, base, simStr(p1), false, false)
		if e != 0 {
			return ^uintptr(0), 0, e
		}
		return k.make(pr, "link", d2, simStr(p2), 0, "", i)
	case SYS_READLINK, SYS_READLINKAT:
		d, p, bufp, n := _AT_FDCWD, a1, a2, a3
		if trap == SYS_READLINKAT {
			d, p, bufp, n = int(int32(a1)), a2, a3, a4
		}
		base, bp, e := k.baseOf(pr, d)
		op := &SimOp{Name: "readlink", Path: simJoin(bp, simStr(p))}
		if done, a, b, c := k.simpleFault(pr, op); done {
			return a, b, c
		}
		if e != 0 {
			return k.end(pr, op, -1, e)
		}
		_, _, i, e := k.walk(pr, base, simStr(p), false, false)
		if e != 0 {
			return k.end(pr, op, -1, e)
		}
		if i.Mode&S_IFMT != S_IFLNK {
			return k.end(pr, op, -1, EINVAL)
		}
		return k.end(pr, op, copy(simBytes(bufp, int(n)), i.Target), 0)
	case SYS_FCHMOD:
		f := pr.fds[int(a1)]
		if f == nil {
			return ^uintptr(0), 0, EBADF
		}
		return k.attr(pr, "chmod", f.ino, f.path, func(i *SimInode) { i.Mode = i.Mode&S_IFMT | uint32(a2)&07777 })
	case SYS_CHMOD:
		return k.attrAt(pr, "chmod", _AT_FDCWD, simStr(a1), true, func(i *SimInode) { i.Mode = i.Mode&S_IFMT | uint32(a2)&07777 })
	case SYS_FCHMODAT:
		return k.attrAt(pr, "chmod", int(int32(a1)), simStr(a2), true, func(i *SimInode) { i.Mode = i.Mode&S_IFMT | uint32(a3)&07777 })
	case SYS_FCHOWN:
		f := pr.fds[int(a1)]
		if f == nil {
			return ^uintptr(0), 0, EBADF
		}
		return k.attr(pr, "chown", f.ino, f.path, func(i *SimInode) { i.UID, i.GID = uint32(a2), uint32(a3) })
	case SYS_FCHOWNAT, SYS_CHOWN, SYS_LCHOWN:
		d, p, u, g, follow := _AT_FDCWD, a1, a2, a3, trap == SYS_CHOWN
		if trap == SYS_FCHOWNAT {
			d, p, u, g, follow = int(int32(a1)), a2, a3, a4, int(a5)&_AT_SYMLINK_NOFOLLOW == 0
		}
		return k.attrAt(pr, "chown", d, simStr(p), follow, func(i *SimInode) { i.UID, i.GID = uint32(u), uint32(g) })
	case SYS_UTIMENSAT:
		var ts [2]Timespec
		ts = *(*[2]Timespec)(unsafe.Pointer(a3))
		return k.attrAt(pr, "utimes", int(int32(a1)), simStr(a2), int(a4)&_AT_SYMLINK_NOFOLLOW == 0, func(i *SimInode) {
			i.Atime, i.Mtime = ts[0].Nano(), ts[1].Nano()
		})
	case SYS_FTRUNCATE:
		f := pr.fds[int(a1)]
		if f == nil || f.ino == nil {
			return ^uintptr(0), 0, EBADF
		}
		return k.attr(pr, "truncate", f.ino, f.path, func(i *SimInode) {
			n := int64(a2)
			nb := make([]byte, n)
			copy(nb, i.Data)
			i.Data = nb
		})
	case SYS_FSYNC, SYS_FDATASYNC:
		f := pr.fds[int(a1)]
		if f == nil {
			return ^uintptr(0), 0, EBADF
		}
		op := &SimOp{Name: "fsync", FD: int(a1), Path: f.path}
		if done, a, b, c := k.simpleFault(pr, op); done {
			return a, b, c
		}
		if f.ino == nil {
			return k.end(pr, op, -1, EINVAL)
		}
		k.mut(&SimMut{Kind: "fsync", Ino: f.ino})
		return k.end(pr, op, 0, 0)
	case SYS_PIPE2, SYS_PIPE:
		op := &SimOp{Name: "pipe"}
		if done, a, b, c := k.simpleFault(pr, op); done {
			return a, b, c
		}
		p := &simPipe{readers: 1, writers: 1}
		r, e := k.allocFD(pr, &simFile{pipe: p, path: "<pipe>", flags: O_RDONLY})
		if e != 0 {
			return k.end(pr, op, -1, e)
		}
		w, e := k.allocFD(pr, &simFile{pipe: p, wr: true, path: "<pipe>", flags: O_WRONLY})
		if e != 0 {
			return k.end(pr, op, -1, e)
		}
		out := (*[2]int32)(unsafe.Pointer(a1))
		out[0], out[1] = int32(r), int32(w)
		return k.end(pr, op, 0, 0)
	case SYS_DUP, SYS_FCNTL:
		f := pr.fds[int(a1)]
		if f == nil {
			return ^uintptr(0), 0, EBADF
		}
		if trap == SYS_DUP || a2 == F_DUPFD_CLOEXEC || a2 == F_DUPFD {
			fd, e := k.allocFD(pr, f)
			if e != 0 {
				return ^uintptr(0), 0, e
			}
			return uintptr(fd), 0, 0
		}
		if a2 == F_GETFL {
			return uintptr(f.flags & O_ACCMODE), 0, 0
		}
		return 0, 0, 0
	case SYS_GETCWD:
		c := pr.Cwd
		b := simBytes(a1, int(a2))
		if len(c)+1 > len(b) {
			return ^uintptr(0), 0, ERANGE
		}
		copy(b, c)
		b[len(c)] = 0
		return uintptr(len(c) + 1), 0, 0
	case SYS_CHDIR:
		p := simStr(a1)
		_, _, i, e := k.walk(pr, nil, p, true, false)
		if e == 0 && i.Mode&S_IFMT != S_IFDIR {
			e = ENOTDIR
		}
		if e != 0 {
			return ^uintptr(0), 0, e
		}
		pr.Cwd = simJoin(pr.Cwd, p)
		return 0, 0, 0
	case SYS_ACCESS, SYS_FACCESSAT, 439:
		d, p, m := _AT_FDCWD, a1, a2
		if trap != SYS_ACCESS {
			d, p, m = int(int32(a1)), a2, a3
		}
		base, bp, e := k.baseOf(pr, d)
		op := &SimOp{Name: "access", Path: simJoin(bp, simStr(p))}
		if done, a, b, c := k.simpleFault(pr, op); done {
			return a, b, c
		}
		var i *SimInode
		if e == 0 {
			_, _, i, e = k.walk(pr, base, simStr(p), true, false)
		}
		if e == 0 && m != 0 && !k.access(pr, i, uint32(m)) {
			e = EACCES
		}
		return k.end(pr, op, 0, e)
	case SYS_GETPID:
		return uintptr(pr.Pid), 0, 0
	case SYS_GETPPID:
		return uintptr(pr.PPid), 0, 0
	case SYS_GETUID, SYS_GETEUID:
		return uintptr(pr.UID), 0, 0
	case SYS_GETGID, SYS_GETEGID:
		return uintptr(pr.GID), 0, 0
	case SYS_GETTID:
		return uintptr(pr.Pid), 0, 0
	case SYS_GETGROUPS:
		return 0, 0, 0
	case SYS_UMASK:
		o := pr.Umask
		pr.Umask = uint32(a1) & 0777
		return uintptr(o), 0, 0
	case SYS_WAIT4:
		return k.wait(pr, int(int32(a1)), (*WaitStatus)(unsafe.Pointer(a2)), int(a3)&WNOHANG != 0, false)
	case SYS_WAITID:
		r, r2, e := k.wait(pr, int(a2), nil, false, true)
		if e == 0 {
			r = 0
		}
		return r, r2, e
	case SYS_KILL, SYS_TGKILL:
		return 0, 0, k.kill(int(a1), int(a2))
	case 318: // getrandom
		b := simBytes(a1, int(a2))
		for i := range b {
			b[i] = byte(runtime.SimRand() >> 24)
		}
		return a2, 0, 0
	case SYS_EXIT_GROUP, SYS_EXIT:
		k.exit(pr, int(a1))
		return 0, 0, 0
	case SYS_UNAME:
		return 0, 0, 0
	case SYS_IOCTL:
		return ^uintptr(0), 0, ENOTTY
	case SYS_SOCKET, SYS_CONNECT:
		return ^uintptr(0), 0, ENETUNREACH
	}
	k.Unknown[trap]++
	return ^uintptr(0), 0, ENOSYS
}

// SimExit ends the calling simulated process.
func SimExit(code int) {
	Sim.exit(Sim.cur(), code)
}

// SimSigpipe is what the Go runtime does on EPIPE on stdout or stderr.
func SimSigpipe() bool {
	pr := Sim.cur()
	if pr.ID == 0 {
		if Sim.OnSig != nil {
			Sim.OnSig(int(SIGPIPE))
		}
		runtime.Goexit()
	}
	pr.Killed = true
	Sim.finish(pr, uint32(SIGPIPE))
	runtime.Goexit()
	return true
}
