//go:build go1.23

package rt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Disk is the simulated file system. A process crash keeps every completed operation; a power cut
// keeps a prefix of the name changes and, of data not yet synced, anything between nothing and all.
type Disk struct {
	s       *Sim
	names   map[string]*inode
	durable map[string]*inode
	pending []metaOp
	nextID  int
	tmpSeq  int

	// OnChange is called after every visible change of the file at path.
	OnChange func(path string)
	Log      []FaultEvent // faults injected, in order
	Ops      int
}

// FaultEvent is one injected I/O fault
type FaultEvent struct {
	Op, Path, Kind string
	At             uint64 // decision point
	Out, Err       int    // what had been printed to standard output and error
	Now            int64  // simulated time
}

type inode struct {
	id      int
	dir     bool
	data    []byte
	synced  []byte
	history [][]byte // contents between the last sync and now
	mode    fs.FileMode
	mtime   int64
}

type metaOp struct {
	path string
	ino  *inode // nil: removed
}

// NewDisk makes an empty disk with a working directory
func NewDisk(s *Sim) *Disk {
	d := &Disk{s: s, names: map[string]*inode{}, durable: map[string]*inode{}}
	for _, p := range []string{"/", "/w", "/tmp"} {
		n := &inode{dir: true, mode: 0755 | fs.ModeDir}
		d.names[p] = n
		d.durable[p] = n
	}
	return d
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/w/" + p
	}
	return path.Clean(p)
}

// Put places a durable file (harness use)
func (d *Disk) Put(p string, data []byte) {
	p = clean(p)
	n := &inode{id: d.id(), data: append([]byte{}, data...), mode: 0644}
	n.synced = n.data
	d.names[p] = n
	d.durable[p] = n
}

// MakeDir places a durable directory (harness use)
func (d *Disk) MakeDir(p string) {
	n := &inode{dir: true, mode: 0755 | fs.ModeDir}
	d.names[clean(p)] = n
	d.durable[clean(p)] = n
}

// Get returns a file's content (harness use)
func (d *Disk) Get(p string) ([]byte, bool) {
	n := d.names[clean(p)]
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// List returns all file names (harness use)
func (d *Disk) List() []string {
	var l []string
	for p, n := range d.names {
		if !n.dir {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

// Files returns the surviving files after a process crash (harness use)
func (d *Disk) Files() map[string][]byte {
	m := map[string][]byte{}
	for p, n := range d.names {
		if !n.dir {
			m[p] = append([]byte{}, n.data...)
		}
	}
	return m
}

// IsDir tells whether path p is a directory now
func (d *Disk) IsDir(p string) bool {
	n := d.names[clean(p)]
	return n != nil && n.dir
}

// PowerCut returns every content (nil: absent) that path p may hold when power fails now.
func (d *Disk) PowerCut(p string) [][]byte {
	p = clean(p)
	var out [][]byte
	add := func(b []byte) {
		for _, o := range out {
			if (o == nil) == (b == nil) && bytes.Equal(o, b) {
				return
			}
		}
		out = append(out, b)
	}
	ino := d.durable[p]
	consider := func(n *inode) {
		if n == nil || n.dir {
			add(nil)
			return
		}
		add(nn(n.synced))
		for _, h := range n.history {
			add(nn(h))
		}
		add(nn(n.data))
		if len(n.history) > 0 && len(n.data) > 1 {
			add(nn(n.data[:len(n.data)/2]))
		}
	}
	consider(ino)
	for _, op := range d.pending {
		if op.path == p {
			consider(op.ino)
		}
	}
	return out
}

func nn(b []byte) []byte {
	if b == nil {
		return []byte{}
	}
	return b
}

func (d *Disk) id() int { d.nextID++; return d.nextID }

func (d *Disk) setName(p string, n *inode) {
	if n == nil {
		delete(d.names, p)
	} else {
		d.names[p] = n
	}
	d.journal(metaOp{p, n})
}

// journal notes name changes; the disk has written out those that many others have followed.
func (d *Disk) journal(ops ...metaOp) {
	d.pending = append(d.pending, ops...)
	if len(d.pending) > 128 {
		d.commit(64)
	}
}

// commit makes the oldest n name changes durable.
func (d *Disk) commit(n int) {
	for _, op := range d.pending[:n] {
		if op.ino == nil {
			delete(d.durable, op.path)
		} else {
			d.durable[op.path] = op.ino
		}
	}
	d.pending = append([]metaOp{}, d.pending[n:]...)
}

func (d *Disk) changed(n *inode, ps ...string) {
	if d.OnChange == nil {
		return
	}
	if n != nil {
		var l []string
		for p, m := range d.names {
			if m == n {
				l = append(l, p)
			}
		}
		sort.Strings(l)
		ps = append(ps, l...)
	}
	for _, p := range ps {
		d.OnChange(p)
	}
}

func (d *Disk) mutate(n *inode, data []byte) {
	n.history = append(n.history, n.data)
	if len(n.history) > 8 {
		n.history = n.history[len(n.history)-8:]
	}
	n.data = data
	n.mtime = d.s.now
}

// Faults an operation may meet. The number of a fault in its list is its value in a decision.
var opFaults = map[string][]string{
	"open":   {"eio", "emfile", "crash"},
	"create": {"eacces", "enospc", "emfile", "crash"},
	"read":   {"short", "eio", "crash"},
	"write":  {"enospc", "eio", "partial", "crash", "crash-partial"},
	"sync":   {"eio", "crash"},
	"close":  {"eio", "crash"},
	"rename": {"eio", "eacces", "crash", "crash-after"},
	"remove": {"eacces", "crash"},
	"stat":   {"eacces"},
	"chmod":  {"eperm", "crash"},
	"mkdir":  {"eacces", "crash"},
	"trunc":  {"eio", "crash"},
}

// fault decides whether this operation meets a fault; "" is none.
func (d *Disk) fault(op, p string) string {
	s := d.s
	d.Ops++
	list := opFaults[op]
	v := s.consult(KFault, func() int {
		if s.D() >= s.Cfg.FairAfter && s.D() >= s.Cfg.FaultUntil || s.Cfg.FaultP <= 0 || s.rng.float() >= s.Cfg.FaultP {
			return 0
		}
		k := 1 + s.rng.intn(len(list))
		name := list[k-1]
		if !s.faultSet[name] && !s.faultSet[op+":"+name] {
			return 0
		}
		return k
	})
	if v <= 0 || v > len(list) {
		return ""
	}
	name := list[v-1]
	s.Stats.Faults[op+":"+name]++
	d.Log = append(d.Log, FaultEvent{op, p, name, s.D(), s.Stdout.Len(), s.Stderr.Len(), s.SimNow()})
	s.Trace("fault %s at %s %s", name, op, p)
	if name == "crash" {
		s.Crash("before " + op + " " + p)
	}
	return name
}

func errno(f string) error {
	switch f {
	case "eio":
		return syscall.EIO
	case "enospc", "partial":
		return syscall.ENOSPC
	case "emfile":
		return syscall.EMFILE
	case "eacces":
		return syscall.EACCES
	case "eperm":
		return syscall.EPERM
	}
	return nil
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// File is os.File on the simulated disk
type File struct {
	name   string
	full   string
	ino    *inode
	off    int64
	app    bool
	rd, wr bool
	closed bool
	std    int // 1 stdout, 2 stderr, 3 stdin
}

// Stdin, Stdout and Stderr of the simulated process
var (
	Stdin  = &File{name: "/dev/stdin", std: 3}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
)

const (
	oWRONLY = syscall.O_WRONLY
	oRDWR   = syscall.O_RDWR
	oAPPEND = syscall.O_APPEND
	oCREATE = syscall.O_CREAT
	oEXCL   = syscall.O_EXCL
	oTRUNC  = syscall.O_TRUNC
)

// Os_OpenFile is os.OpenFile
func Os_OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	s := need("open")
	Y()
	d := s.Disk
	p := clean(name)
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	n := d.names[p]
	op := "open"
	if flag&(oWRONLY|oRDWR) != 0 {
		op = "create"
	}
	if e := errno(d.fault(op, p)); e != nil {
		return nil, perr("open", name, e)
	}
	n = d.names[p]
	if n == nil {
		if flag&oCREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		dir := d.names[path.Dir(p)]
		if dir == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !dir.dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &inode{id: d.id(), mode: perm & 0777, mtime: s.now}
		d.setName(p, n)
		s.Trace("creates %s", p)
		d.changed(n)
	} else {
		if flag&oCREATE != 0 && flag&oEXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.dir && flag&(oWRONLY|oRDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if n.mode&0200 == 0 && flag&(oWRONLY|oRDWR) != 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&oTRUNC != 0 && len(n.data) > 0 {
			d.mutate(n, nil)
			s.Trace("truncates %s", p)
			d.changed(n)
		}
	}
	f := &File{name: name, full: p, ino: n, app: flag&oAPPEND != 0}
	switch {
	case flag&oRDWR != 0:
		f.rd, f.wr = true, true
	case flag&oWRONLY != 0:
		f.wr = true
	default:
		f.rd = true
	}
	return f, nil
}

// Os_Open is os.Open
func Os_Open(name string) (*File, error) { return Os_OpenFile(name, 0, 0) }

// Os_Create is os.Create
func Os_Create(name string) (*File, error) {
	return Os_OpenFile(name, oRDWR|oCREATE|oTRUNC, 0666)
}

func (f *File) ok(op string) (*Sim, error) {
	s := need(op)
	Y()
	if f == nil {
		return s, fs.ErrInvalid
	}
	if f.closed {
		return s, perr(op, f.name, fs.ErrClosed)
	}
	return s, nil
}

// Read reads
func (f *File) Read(b []byte) (int, error) {
	s, err := f.ok("read")
	if err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	if !f.rd {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.ino.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	flt := s.Disk.fault("read", f.full)
	if e := errno(flt); e != nil {
		return 0, perr("read", f.name, e)
	}
	if f.off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	avail := f.ino.data[f.off:]
	if flt == "short" && len(avail) > 1 {
		// a short read ends anywhere; the amount is a function of the state
		h := (uint64(f.off)*2654435761 + s.D()*0x9E3779B97F4A7C15 + uint64(len(avail))) >> 8
		k := 1 + int(h>>1%uint64(min(len(avail), 64)))
		if h&1 == 1 {
			k = 1 + int(h>>1%uint64(len(avail)))
		}
		avail = avail[:min(k, len(avail))]
	}
	n := copy(b, avail)
	f.off += int64(n)
	return n, nil
}

// ReadAt reads at an offset
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	s, err := f.ok("read")
	if err != nil {
		return 0, err
	}
	if e := errno(s.Disk.fault("read", f.full)); e != nil {
		return 0, perr("read", f.name, e)
	}
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) put(s *Sim, b []byte, off int64) {
	d := s.Disk
	end := off + int64(len(b))
	data := append([]byte{}, f.ino.data...)
	for int64(len(data)) < end {
		data = append(data, 0)
	}
	copy(data[off:], b)
	d.mutate(f.ino, data)
	s.Trace("writes %d bytes to %s", len(b), f.full)
	d.changed(f.ino)
}

// Write writes; the data becomes visible in two steps.
func (f *File) Write(b []byte) (int, error) {
	s, err := f.ok("write")
	if err != nil {
		return 0, err
	}
	switch f.std {
	case 1:
		return stdout(string(b))
	case 2:
		stderr(string(b))
		return len(b), nil
	}
	off := f.off
	if f.app {
		off = int64(len(f.ino.data))
	}
	n, err := f.writeAt(s, b, off)
	f.off = off + int64(n)
	return n, err
}

func (f *File) writeAt(s *Sim, b []byte, off int64) (int, error) {
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	flt := s.Disk.fault("write", f.full)
	half := len(b) / 2
	switch flt {
	case "enospc", "eio":
		return 0, perr("write", f.name, errno(flt))
	case "partial":
		if half > 0 {
			f.put(s, b[:half], off)
		}
		return half, perr("write", f.name, syscall.ENOSPC)
	case "crash-partial":
		if half > 0 {
			f.put(s, b[:half], off)
		}
		s.Crash("in the middle of write " + f.full)
	}
	if half > 0 {
		f.put(s, b[:half], off)
		Y()
	}
	f.put(s, b[half:], off+int64(half))
	return len(b), nil
}

// WriteAt writes at an offset
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	s, err := f.ok("write")
	if err != nil {
		return 0, err
	}
	return f.writeAt(s, b, off)
}

// WriteString writes a string
func (f *File) WriteString(x string) (int, error) { return f.Write([]byte(x)) }

// Seek seeks
func (f *File) Seek(off int64, whence int) (int64, error) {
	if _, err := f.ok("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

// Truncate truncates
func (f *File) Truncate(size int64) error {
	s, err := f.ok("truncate")
	if err != nil {
		return err
	}
	if !f.wr {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	return truncIno(s, f.ino, f.name, size)
}

func truncIno(s *Sim, n *inode, name string, size int64) error {
	if e := errno(s.Disk.fault("trunc", name)); e != nil {
		return perr("truncate", name, e)
	}
	data := append([]byte{}, n.data...)
	for int64(len(data)) < size {
		data = append(data, 0)
	}
	s.Disk.mutate(n, data[:size])
	s.Disk.changed(n)
	return nil
}

// Sync makes the file's data durable
func (f *File) Sync() error {
	s, err := f.ok("sync")
	if err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	if e := errno(s.Disk.fault("sync", f.full)); e != nil {
		return perr("sync", f.name, e)
	}
	d := s.Disk
	if f.ino.dir { // name changes so far become durable
		d.commit(len(d.pending))
		return nil
	}
	f.ino.synced = f.ino.data
	f.ino.history = nil
	return nil
}

// Close closes
func (f *File) Close() error {
	s, err := f.ok("close")
	if err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	flt := ""
	if f.wr {
		flt = s.Disk.fault("close", f.full)
	}
	f.closed = true
	if e := errno(flt); e != nil {
		return perr("close", f.name, e)
	}
	return nil
}

// Name is the name given at opening
func (f *File) Name() string { return f.name }

// Chmod changes the mode
func (f *File) Chmod(m fs.FileMode) error {
	s, err := f.ok("chmod")
	if err != nil {
		return err
	}
	if e := errno(s.Disk.fault("chmod", f.full)); e != nil {
		return perr("chmod", f.name, e)
	}
	f.ino.mode = m & 0777
	return nil
}

// Chown does nothing
func (f *File) Chown(int, int) error { return nil }

// SetDeadline is not supported on files
func (f *File) SetDeadline(time.Time) error { return errors.New("file type does not support deadline") }

// Fd returns a made-up descriptor
func (f *File) Fd() uintptr { return 99 }

// Stat describes the file
func (f *File) Stat() (fs.FileInfo, error) {
	s, err := f.ok("stat")
	if err != nil {
		return nil, err
	}
	if f.std != 0 {
		return info{name: path.Base(f.name), n: &inode{mode: fs.ModeCharDevice | 0620}}, nil
	}
	if e := errno(s.Disk.fault("stat", f.full)); e != nil {
		return nil, perr("stat", f.name, e)
	}
	return info{path.Base(f.full), f.ino, int64(len(f.ino.data))}, nil
}

type info struct {
	name string
	n    *inode
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.n.mode }
func (i info) ModTime() time.Time { return Epoch.Add(time.Duration(i.n.mtime)) }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

// ReadDir lists a directory
func (f *File) ReadDir(int) ([]fs.DirEntry, error) { return Os_ReadDir(f.name) }

// Os_ReadDir is os.ReadDir
func Os_ReadDir(name string) ([]fs.DirEntry, error) {
	s := need("readdir")
	p := clean(name)
	n := s.Disk.names[p]
	if n == nil || !n.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var out []fs.DirEntry
	for q, m := range s.Disk.names {
		if q != "/" && path.Dir(q) == p {
			out = append(out, fs.FileInfoToDirEntry(info{path.Base(q), m, int64(len(m.data))}))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

// Os_ReadFile is os.ReadFile
func Os_ReadFile(name string) ([]byte, error) {
	f, err := Os_Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// Os_WriteFile is os.WriteFile
func Os_WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := Os_OpenFile(name, oWRONLY|oCREATE|oTRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Os_Rename is os.Rename
func Os_Rename(a, b string) error {
	s := need("rename")
	Y()
	d := s.Disk
	pa, pb := clean(a), clean(b)
	flt := d.fault("rename", pa+" "+pb)
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: e} }
	if e := errno(flt); e != nil {
		return lerr(e)
	}
	n := d.names[pa]
	if n == nil || a == "" || b == "" {
		return lerr(syscall.ENOENT)
	}
	if o := d.names[pb]; o != nil && o.dir {
		return lerr(syscall.EEXIST)
	}
	if dd := d.names[path.Dir(pb)]; dd == nil || !dd.dir {
		return lerr(syscall.ENOENT)
	}
	if pa != pb {
		// one journalled operation
		delete(d.names, pa)
		d.names[pb] = n
		d.journal(metaOp{pb, n}, metaOp{pa, nil})
	}
	s.Trace("renames %s to %s", pa, pb)
	d.changed(nil, pa, pb)
	if flt == "crash-after" {
		s.Crash("after rename " + pa + " " + pb)
	}
	return nil
}

// Os_Remove is os.Remove
func Os_Remove(name string) error {
	s := need("remove")
	Y()
	d := s.Disk
	p := clean(name)
	if e := errno(d.fault("remove", p)); e != nil {
		return perr("remove", name, e)
	}
	n := d.names[p]
	if n == nil || name == "" {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.dir {
		for q := range d.names {
			if path.Dir(q) == p {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	d.setName(p, nil)
	s.Trace("removes %s", p)
	d.changed(nil, p)
	return nil
}

// Os_RemoveAll is os.RemoveAll
func Os_RemoveAll(name string) error {
	s := need("removeall")
	p := clean(name)
	var l []string
	for q := range s.Disk.names {
		if q == p || strings.HasPrefix(q, p+"/") {
			l = append(l, q)
		}
	}
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	for _, q := range l {
		if err := Os_Remove(q); err != nil {
			return err
		}
	}
	return nil
}

// Os_Stat is os.Stat
func Os_Stat(name string) (fs.FileInfo, error) {
	s := need("stat")
	Y()
	p := clean(name)
	if e := errno(s.Disk.fault("stat", p)); e != nil {
		return nil, perr("stat", name, e)
	}
	n := s.Disk.names[p]
	if n == nil || name == "" {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{path.Base(p), n, int64(len(n.data))}, nil
}

// Os_Lstat is os.Lstat (there are no links on the simulated disk)
func Os_Lstat(name string) (fs.FileInfo, error) { return Os_Stat(name) }

// Os_Chmod is os.Chmod
func Os_Chmod(name string, m fs.FileMode) error {
	s := need("chmod")
	p := clean(name)
	if e := errno(s.Disk.fault("chmod", p)); e != nil {
		return perr("chmod", name, e)
	}
	n := s.Disk.names[p]
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.mode = m & 0777
	return nil
}

// Os_Truncate is os.Truncate
func Os_Truncate(name string, size int64) error {
	s := need("truncate")
	n := s.Disk.names[clean(name)]
	if n == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	return truncIno(s, n, clean(name), size)
}

// Os_Mkdir is os.Mkdir
func Os_Mkdir(name string, perm fs.FileMode) error {
	s := need("mkdir")
	p := clean(name)
	if e := errno(s.Disk.fault("mkdir", p)); e != nil {
		return perr("mkdir", name, e)
	}
	if s.Disk.names[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if s.Disk.names[path.Dir(p)] == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	s.Disk.setName(p, &inode{id: s.Disk.id(), dir: true, mode: perm&0777 | fs.ModeDir})
	return nil
}

// Os_MkdirAll is os.MkdirAll
func Os_MkdirAll(name string, perm fs.FileMode) error {
	p := clean(name)
	s := need("mkdir")
	if n := s.Disk.names[p]; n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if err := Os_MkdirAll(path.Dir(p), perm); err != nil {
		return err
	}
	return Os_Mkdir(p, perm)
}

func tempName(s *Sim, dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	s.Disk.tmpSeq++
	pre, post := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, post = pattern[:i], pattern[i+1:]
	}
	return path.Join(dir, fmt.Sprintf("%s%d%s", pre, 400000+s.Disk.tmpSeq*7919%100000, post))
}

// Os_CreateTemp is os.CreateTemp
func Os_CreateTemp(dir, pattern string) (*File, error) {
	s := need("createtemp")
	for {
		f, err := Os_OpenFile(tempName(s, dir, pattern), oRDWR|oCREATE|oEXCL, 0600)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}

// Os_MkdirTemp is os.MkdirTemp
func Os_MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(need("mkdirtemp"), dir, pattern)
	return n, Os_Mkdir(n, 0700)
}

// Os_Exit is os.Exit
func Os_Exit(code int) {
	s := need("exit")
	s.Exit(code)
}

// Os_Getwd is os.Getwd
func Os_Getwd() (string, error) { return "/w", nil }

// Os_Getpid is os.Getpid
func Os_Getpid() int { return 4242 }

// Os_Hostname is os.Hostname
func Os_Hostname() (string, error) { return "sim", nil }

// Os_TempDir is os.TempDir
func Os_TempDir() string { return "/tmp" }

// Ioutil_ReadAll is ioutil.ReadAll
func Ioutil_ReadAll(r io.Reader) ([]byte, error) { return io.ReadAll(r) }

// Filepath_EvalSymlinks is filepath.EvalSymlinks on a disk without links
func Filepath_EvalSymlinks(p string) (string, error) {
	if _, err := Os_Stat(p); err != nil {
		return "", err
	}
	return path.Clean(p), nil
}

// Filepath_Abs is filepath.Abs
func Filepath_Abs(p string) (string, error) { return clean(p), nil }

// Choose is a recorded choice of the harness among n; 0 is the default.
func Choose(kind string, n int, p float64) int {
	s := need("choose")
	if n <= 1 {
		return 0
	}
	v := s.consult(kind, func() int {
		if s.D() >= s.Cfg.FairAfter || s.rng.float() >= p {
			return 0
		}
		return s.rng.intn(n)
	})
	if v != 0 && kind == KFault {
		s.Stats.Faults["reader"]++
	}
	return v % n
}

// Count counts an injected event
func Count(kind string) { need("count").Stats.Faults[kind]++ }

// Now is the number of the current decision point, a global event sequence number.
func Now() uint64 {
	budget--
	if budget < 0 {
		cur.arm()
	}
	return cur.D()
}
