package sev

import (
	"go/token"
	"sort"
)

// FS is the file system the generator sees.
type FS struct {
	Files   map[string]*File
	Touched map[string]string // path: how it was first changed
	Made    map[string]bool   // files the program created
	Gone    map[string]bool   // files it did not create and removed
	MaxFail int               // file operations that may fail on one path
	Failed  []string          // those that failed
	seq     int
}

// File is a file.
type File struct {
	Content Str
	Orig    bool // existed before
	Dir     bool
}

// NewFS makes a file system with the given files.
func NewFS(files map[string]Str) *FS {
	fs := &FS{Files: map[string]*File{}, Touched: map[string]string{}, Made: map[string]bool{}, Gone: map[string]bool{}}
	for n, c := range files {
		fs.Files[n] = &File{Content: c, Orig: true}
	}
	return fs
}

// Names lists the files.
func (fs *FS) Names() []string {
	var r []string
	for n := range fs.Files {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func (fs *FS) touch(n, how string) {
	if fs.Touched[n] == "" {
		fs.Touched[n] = how
	}
}

// handle is the state of an *os.File.
type handle struct {
	name   string
	f      *File
	read   bool
	write  bool
	closed bool
	std    bool
	app    bool // appends
	off    int  // where the next write goes
	data   Str  // what is left to be read
}

type errExt struct {
	kind string // exist, notexist, closed, io
	msg  Str
	wrap Val
}

// fails decides whether a file operation fails.
func (m *Machine) fails(op string) bool {
	if m.FS == nil || len(m.FS.Failed) >= m.FS.MaxFail {
		return false
	}
	if m.Choose(2) == 1 {
		m.FS.Failed = append(m.FS.Failed, op)
		return true
	}
	return false
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oAPPEND = 1024
	oCREATE = 64
	oEXCL   = 128
	oTRUNC  = 512
)

func (m *Machine) open(name string, flag int64, pos token.Pos) (*handle, string) {
	if m.fails("open " + name) {
		return nil, "io"
	}
	f := m.FS.Files[name]
	if f != nil && flag&oCREATE != 0 && flag&oEXCL != 0 {
		return nil, "exist"
	}
	if f == nil {
		if flag&oCREATE == 0 {
			return nil, "notexist"
		}
		f = &File{}
		m.FS.Files[name] = f
		m.FS.Made[name] = true
		m.FS.touch(name, "created")
	}
	if flag&oTRUNC != 0 && flag&(oWRONLY|oRDWR) != 0 && len(f.Content.P) > 0 {
		m.FS.touch(name, "truncated")
		f.Content = Str{}
	}
	w := flag&(oWRONLY|oRDWR) != 0
	return &handle{name: name, f: f, write: w, app: flag&oAPPEND != 0, read: flag&oWRONLY == 0, data: f.Content}, ""
}

func (h *handle) put(m *Machine, s Str) string {
	switch {
	case h.std:
		return ""
	case h.closed:
		return "closed"
	case !h.write:
		return "io"
	}
	if len(s.P) == 0 {
		return ""
	}
	m.FS.touch(h.name, "written")
	if m.fails("write " + h.name) {
		return "io"
	}
	old := h.f.Content.Text(m.Assign)
	n := len(s.Text(m.Assign))
	switch {
	case h.app || h.off == len(old):
		h.off = len(old) + n
		h.f.Content = Cat(h.f.Content, s)
	case h.off > len(old):
		m.undecided("a write behind the end of %s", h.name)
	case h.off+n >= len(old) && h.off == 0:
		h.f.Content = s
		h.off = n
	default: // in place
		text := old[:h.off] + s.Text(m.Assign)
		if h.off += n; h.off < len(old) {
			text += old[h.off:]
		}
		h.f.Content = Lit(text)
	}
	return ""
}

func (fs *FS) remove(name string) string {
	f := fs.Files[name]
	if f == nil {
		return "notexist"
	}
	delete(fs.Files, name)
	if !fs.Made[name] {
		fs.Gone[name] = true
	}
	fs.touch(name, "removed")
	return ""
}
