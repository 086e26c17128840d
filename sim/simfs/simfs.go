// Package simfs is a simulated disk. The instrumented code reaches it through
// the os and io/ioutil shims; the real file system is never touched.
//
// All functions that run on simulated goroutines are compiled without race
// instrumentation: a kernel call orders nothing between goroutines.
package simfs

import (
	"io"
	"io/fs"
	"path"
	"syscall"
	"time"

	"zsim/rt"
)

// Faults attached to one path. Offsets are byte offsets in the file; -1 is off.
type Faults struct {
	OpenErr   error
	ReadErrAt int64 // first byte that cannot be read
	ReadErr   error
	MaxChunk  int // largest read or write the kernel serves at once (0: any)
	Seed      uint64
	Delay     int64 // longest simulated delay per call, ns
	WriteCap  int64 // bytes the disk accepts (full disk)
	WriteErr  error
	CloseErr  error
	SyncErr   error
	RenameErr error // moving a file to this name fails
	StatErr   error
	HangAt    int64 // with Hang: bytes read or written before the process crashes
	HangClose bool
	Hang      func() // does not return
	StallAt   int64  // with Stall: bytes read before a read stalls, once per handle
	Stall     int64  // for how long, ns
	Interrupt bool   // a transient EINTR-like short read now and then
}

// NoFaults is the fault-free plan.
func NoFaults() *Faults { return &Faults{ReadErrAt: -1, WriteCap: -1} }

// Inode is a file or directory.
type Inode struct {
	Data []byte
	Dir  bool
	Mode fs.FileMode
}

// Entry names an inode.
type Entry struct {
	Name string
	Node *Inode
	F    *Faults
	Gone bool
	// Fresh: the file does not exist yet; the entry only carries the faults it
	// will have once it is created
	Fresh bool
	// Plans are the faults of the first openings, in their order; F of the others
	Plans []*Faults
}

// Op is one logged operation.
type Op struct {
	Op, Path string
	Flag     int
	Tag      int
	N        int
	Err      error
	Fault    bool // the error is injected
}

// Handle is an open file.
type Handle struct {
	Path   string
	Node   *Inode
	F      *Faults
	Off    int64
	Flag   int
	Closed bool
	Tag    int
	Wrote  int64
	Failed bool // some operation on this handle failed
	// Stalled: a read on this handle was stalled
	Stalled bool
}

// Disk is a simulated disk.
type Disk struct {
	Entries []*Entry
	Handles []*Handle
	Log     []Op
	Counts  Counts
	tmp     int
	// OnOp is called at the start of every operation
	OnOp func(tag int)
	// WFault gives the faults of whatever a call opens for writing, or nil
	WFault func(tag int) *Faults
}

// Counts of injected faults.
type Counts struct {
	OpenErr, ReadErr, ShortRead, WriteErr, ShortWrite, CloseErr, SyncErr, Delays int64
}

// Cur is the mounted disk.
var Cur *Disk

// New makes an empty disk with a root and /tmp.
func New() *Disk {
	d := &Disk{}
	d.Put("/", nil).Node.Dir = true
	for _, n := range []string{"/tmp", Cwd, "/data", "/out"} {
		d.Put(n, nil).Node.Dir = true
	}
	return d
}

// Cwd is the working directory.
const Cwd = "/work"

// Abs is the name a file has, however it is called.
//
//go:norace
func Abs(name string) string {
	if len(name) == 0 || name[0] != '/' {
		name = Cwd + "/" + name
	}
	return path.Clean(name)
}

// Put stores a file.
func (d *Disk) Put(name string, data []byte) *Entry {
	name = Abs(name)
	if e := d.find(name); e != nil {
		e.Node = &Inode{Data: data, Mode: 0644}
		return e
	}
	e := &Entry{Name: name, Node: &Inode{Data: data, Mode: 0644}, F: NoFaults()}
	d.Entries = append(d.Entries, e)
	return e
}

// Get returns a file's bytes.
func (d *Disk) Get(name string) ([]byte, bool) {
	e := d.find(Abs(name))
	if e == nil || e.Node.Dir {
		return nil, false
	}
	return e.Node.Data, true
}

//go:norace
func (d *Disk) find(name string) *Entry {
	for i := 0; i < len(d.Entries); i++ {
		e := d.Entries[i]
		if !e.Gone && !e.Fresh && e.Name == name {
			return e
		}
	}
	return nil
}

//go:norace
func (d *Disk) plan(name string) *Entry {
	for i := 0; i < len(d.Entries); i++ {
		e := d.Entries[i]
		if !e.Gone && e.Fresh && e.Name == name {
			return e
		}
	}
	return nil
}

// Open counts handles that are open.
//
//go:norace
func (d *Disk) OpenHandles(tag int) int {
	n := 0
	for i := 0; i < len(d.Handles); i++ {
		if h := d.Handles[i]; !h.Closed && (tag < 0 || h.Tag == tag) {
			n++
		}
	}
	return n
}

//go:norace
func tag() int {
	if g := rt.Cur(); g != nil {
		return g.Tag
	}
	return -1
}

//go:norace
func (d *Disk) log(op, p string, flag, n int, err error) {
	d.Log = append(d.Log, Op{op, p, flag, tag(), n, err, false})
}

//go:norace
func (d *Disk) logFault(op, p string, flag, n int, err error) {
	d.Log = append(d.Log, Op{op, p, flag, tag(), n, err, true})
}

//go:norace
func (d *Disk) delay(f *Faults) {
	d.point()
	if f != nil && f.Delay > 0 && rt.Active() {
		d.Counts.Delays++
		rt.Sleep(1 + int64(rt.AuxU64()%uint64(f.Delay)))
	}
}

//go:norace
func (d *Disk) point() {
	rt.Point()
	if d.OnOp != nil {
		d.OnOp(tag())
	}
}

// Entry is the entry of an existing file, or nil.
func (d *Disk) Entry(name string) *Entry { return d.find(Abs(name)) }

// Planned is the entry that carries the faults of a file not yet created.
func (d *Disk) Planned(name string) *Entry { return d.plan(Abs(name)) }

//go:norace
func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// OpenFile opens or creates a file.
//
//go:norace
func (d *Disk) OpenFile(name string, flag int, perm fs.FileMode) (*Handle, error) {
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	p := Abs(name)
	e := d.find(p)
	if e != nil {
		d.delay(e.F)
	} else {
		d.point()
	}
	var err error
	var wf *Faults
	if d.WFault != nil && flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		wf = d.WFault(tag())
	}
	fault := true
	switch {
	case wf != nil && wf.OpenErr != nil:
		d.Counts.OpenErr++
		err = wf.OpenErr
	case e != nil && e.F.OpenErr != nil:
		d.Counts.OpenErr++
		err = e.F.OpenErr
	case e == nil && flag&syscall.O_CREAT == 0:
		err, fault = syscall.ENOENT, false
	case e != nil && e.Node.Dir && flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0:
		err, fault = syscall.EISDIR, false
	case e != nil && flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0:
		err, fault = syscall.EEXIST, false
	case e == nil:
		// a directory plan may forbid creation, or hand its faults on
		dir := d.find(path.Dir(p))
		if dir == nil || !dir.Node.Dir {
			err, fault = syscall.ENOENT, false
			break
		}
		if dir.F.OpenErr != nil {
			d.Counts.OpenErr++
			err = dir.F.OpenErr
			break
		}
		if q := d.plan(p); q != nil {
			if q.F.OpenErr != nil {
				d.Counts.OpenErr++
				err = q.F.OpenErr
				break
			}
			q.Gone = true
			e = &Entry{Name: p, Node: &Inode{Mode: perm}, F: q.F}
		} else {
			e = &Entry{Name: p, Node: &Inode{Mode: perm}, F: dir.F}
		}
		d.Entries = append(d.Entries, e)
	}
	if err != nil {
		err = perr("open", name, err)
		d.log("open", p, flag, 0, err)
		d.Log[len(d.Log)-1].Fault = fault
		return nil, err
	}
	if flag&syscall.O_TRUNC != 0 && flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		e.Node.Data = nil
	}
	h := &Handle{Path: p, Node: e.Node, F: e.F, Flag: flag, Tag: tag()}
	if wf != nil {
		h.F = wf
	} else if len(e.Plans) > 0 {
		h.F = e.Plans[0]
		e.Plans = e.Plans[1:]
	}
	d.Handles = append(d.Handles, h)
	d.log("open", p, flag, 0, nil)
	return h, nil
}

// Read serves at most len(p) bytes; the caller copies them (so that the buffer
// is touched by instrumented code).
//
//go:norace
func (d *Disk) Read(h *Handle, want int, off int64, seq bool) ([]byte, error) {
	d.delay(h.F)
	if h.Closed {
		return nil, perr("read", h.Path, fs.ErrClosed)
	}
	if h.Node.Dir {
		h.Failed = true
		return nil, perr("read", h.Path, syscall.EISDIR)
	}
	if h.Flag&syscall.O_WRONLY != 0 {
		return nil, perr("read", h.Path, syscall.EBADF)
	}
	if seq {
		off = h.Off
	}
	if want == 0 {
		return nil, nil
	}
	size := int64(len(h.Node.Data))
	if h.F.Hang != nil && h.Flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 && off >= h.F.HangAt {
		h.F.Hang()
	}
	if h.F.Stall > 0 && off >= h.F.StallAt && !h.Stalled && rt.Active() {
		h.Stalled = true
		d.Counts.Delays++
		rt.Sleep(h.F.Stall)
	}
	if h.F.ReadErrAt >= 0 && off >= h.F.ReadErrAt {
		d.Counts.ReadErr++
		h.Failed = true
		err := perr("read", h.Path, h.F.ReadErr)
		d.logFault("read", h.Path, 0, 0, err)
		return nil, err
	}
	if off >= size {
		return nil, io.EOF
	}
	n := int64(want)
	if n > size-off {
		n = size - off
	}
	if h.F.Hang != nil && h.Flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 && n > h.F.HangAt-off {
		n = h.F.HangAt - off
	}
	if h.F.ReadErrAt >= 0 && n > h.F.ReadErrAt-off {
		n = h.F.ReadErrAt - off
	}
	if m := int64(h.F.MaxChunk); m > 0 && n > 1 {
		// by file and offset: the same file is delivered the same way again
		r := rt.NewRand(h.F.Seed ^ uint64(off+1)*0x9E3779B97F4A7C15)
		c := 1 + int64(r.U64()%uint64(m))
		if c < n {
			d.Counts.ShortRead++
			n = c
		}
	}
	rt.Mix(uint64(n))
	out := make([]byte, n)
	for i := int64(0); i < n; i++ {
		out[i] = h.Node.Data[off+i]
	}
	if seq {
		h.Off += n
	}
	return out, nil
}

// Write accepts bytes until the disk is full.
//
//go:norace
func (d *Disk) Write(h *Handle, p []byte, off int64, seq bool) (int, error) {
	d.delay(h.F)
	if h.Closed {
		return 0, perr("write", h.Path, fs.ErrClosed)
	}
	if h.Flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, perr("write", h.Path, syscall.EBADF)
	}
	if seq {
		off = h.Off
		if h.Flag&syscall.O_APPEND != 0 {
			off = int64(len(h.Node.Data))
		}
	}
	n := len(p)
	var err error
	hang := h.F.Hang != nil && !h.F.HangClose && h.Wrote+int64(n) >= h.F.HangAt
	if hang {
		n = max(0, int(h.F.HangAt-h.Wrote))
	}
	if c := h.F.WriteCap; c >= 0 && h.Wrote+int64(n) > c {
		n = int(c - h.Wrote)
		if n < 0 {
			n = 0
		}
		d.Counts.WriteErr++
		if n > 0 {
			d.Counts.ShortWrite++
		}
		h.Failed = true
		err = perr("write", h.Path, h.F.WriteErr)
	}
	for int64(len(h.Node.Data)) < off {
		h.Node.Data = append(h.Node.Data, 0)
	}
	for i := 0; i < n; i++ {
		if at := off + int64(i); at < int64(len(h.Node.Data)) {
			h.Node.Data[at] = p[i]
		} else {
			h.Node.Data = append(h.Node.Data, p[i])
		}
	}
	h.Wrote += int64(n)
	if hang {
		h.F.Hang()
	}
	rt.Mix(uint64(n))
	if seq {
		h.Off = off + int64(n)
	}
	if err != nil {
		d.logFault("write", h.Path, 0, n, err)
	}
	return n, err
}

// Close closes a handle; a failing close loses what was written.
//
//go:norace
func (d *Disk) Close(h *Handle) error {
	d.delay(h.F)
	if h.Closed {
		return perr("close", h.Path, fs.ErrClosed)
	}
	if h.F.Hang != nil && h.F.HangClose {
		h.F.Hang()
	}
	h.Closed = true
	if h.F.CloseErr != nil && h.Flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		d.Counts.CloseErr++
		h.Failed = true
		h.Node.Data = nil
		err := perr("close", h.Path, h.F.CloseErr)
		d.logFault("close", h.Path, 0, 0, err)
		return err
	}
	d.log("close", h.Path, 0, 0, nil)
	return nil
}

// Sync flushes a handle.
//
//go:norace
func (d *Disk) Sync(h *Handle) error {
	d.delay(h.F)
	if h.Closed {
		return perr("sync", h.Path, fs.ErrClosed)
	}
	if h.F.SyncErr != nil {
		d.Counts.SyncErr++
		h.Failed = true
		err := perr("sync", h.Path, h.F.SyncErr)
		d.logFault("sync", h.Path, 0, 0, err)
		return err
	}
	return nil
}

// Seek moves the offset.
//
//go:norace
func (d *Disk) Seek(h *Handle, off int64, whence int) (int64, error) {
	d.point()
	if h.Closed {
		return 0, perr("seek", h.Path, fs.ErrClosed)
	}
	switch whence {
	case 1:
		off += h.Off
	case 2:
		off += int64(len(h.Node.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.Path, syscall.EINVAL)
	}
	h.Off = off
	return off, nil
}

// Truncate changes a file's size.
//
//go:norace
func Truncate(n *Inode, size int64) {
	for int64(len(n.Data)) < size {
		n.Data = append(n.Data, 0)
	}
	n.Data = n.Data[:size]
}

// Remove deletes a name.
//
//go:norace
func (d *Disk) Remove(name string) error {
	d.point()
	e := d.find(Abs(name))
	if e == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	e.Gone = true
	d.log("remove", e.Name, 0, 0, nil)
	return nil
}

// Rename moves a name.
//
//go:norace
func (d *Disk) Rename(a, b string) error {
	d.point()
	e := d.find(Abs(a))
	if e == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	b = Abs(b)
	if d.WFault != nil {
		if f := d.WFault(tag()); f != nil && f.RenameErr != nil {
			err := perr("rename", b, f.RenameErr)
			d.logFault("rename", b, 0, 0, err)
			return err
		}
	}
	if q := d.plan(b); q != nil {
		q.Gone = true
	}
	if t := d.find(b); t != nil && t != e {
		t.Gone = true
	}
	e.Name = b
	d.log("rename", b, 0, 0, nil)
	return nil
}

// Mkdir makes a directory.
//
//go:norace
func (d *Disk) Mkdir(name string) error {
	d.point()
	p := Abs(name)
	if d.find(p) != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d.Entries = append(d.Entries, &Entry{Name: p, Node: &Inode{Dir: true, Mode: 0755}, F: NoFaults()})
	return nil
}

// TempName makes an unused name.
//
//go:norace
func (d *Disk) TempName() string {
	d.tmp++
	s := ""
	for n := d.tmp; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// Info describes a file.
type Info struct {
	N    string
	S    int64
	M    fs.FileMode
	D    bool
	Node *Inode
}

func (i *Info) Name() string       { return i.N }
func (i *Info) Size() int64        { return i.S }
func (i *Info) Mode() fs.FileMode  { return i.M }
func (i *Info) ModTime() time.Time { return time.Unix(0, 0) }
func (i *Info) IsDir() bool        { return i.D }
func (i *Info) Sys() any           { return i.Node }

// Stat describes a node.
//
//go:norace
func (d *Disk) Stat(name string) (*Info, error) {
	d.point()
	e := d.find(Abs(name))
	if e == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	if e.F.StatErr != nil {
		return nil, perr("stat", name, e.F.StatErr)
	}
	return d.InfoOf(e.Name, e.Node), nil
}

// InfoOf describes an inode.
//
//go:norace
func (d *Disk) InfoOf(name string, n *Inode) *Info {
	m := n.Mode
	if n.Dir {
		m |= fs.ModeDir
	}
	return &Info{path.Base(name), int64(len(n.Data)), m, n.Dir, n}
}
