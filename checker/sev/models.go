package sev

import (
	"fmt"
	"go/format"
	"go/scanner"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// interpreted: functions of the standard library whose source is evaluated.
func interpreted(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		return fn.Synthetic != ""
	}
	if recv := fn.Signature.Recv(); recv != nil {
		switch strings.TrimPrefix(types.TypeString(recv.Type(), nil), "*") {
		case "strings.Builder", "bytes.Buffer": // modelled
			return false
		}
	}
	switch p.Pkg.Path() {
	case "internal/strconv", "container/list", "container/heap", "unicode/utf16", "internal/itoa", "regexp", "regexp/syntax", "strings", "strconv", "unicode", "unicode/utf8", "errors", "sort", "bytes", "slices", "maps", "cmp",
		"math", "math/bits", "path", "path/filepath", "internal/stringslite", "internal/filepathlite", "iter":
		return true
	}
	return false
}

// New makes a machine and initialises the package-level variables.
func New(prog *ssa.Program, inRepo func(*ssa.Function) bool, max int) *Machine {
	return &Machine{Prog: prog, InRepo: inRepo, MaxStep: max, globals: map[*ssa.Global]*Cell{},
		Special: map[string]bool{}, Pairs: map[[2]*Atom]bool{}, keys: map[*Atom]bool{}, inited: map[*ssa.Package]bool{}, flags: map[string]*Cell{}, Flags: map[string]Val{}}
}

// Init runs the initialisers of pkg (of the repository only).
func (m *Machine) Init(pkg *ssa.Package) {
	if f := pkg.Func("init"); f != nil {
		m.Call(f, nil, nil, token.NoPos)
	}
}

// ---- helpers ----

func (m *Machine) named(pkg, name string) types.Type {
	for _, p := range m.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	m.undecided("type %s.%s", pkg, name)
	return nil
}

func (m *Machine) newErr(e errExt) Val {
	t := m.named("errors", "errorString")
	return Iface{types.NewPointer(t), &Cell{&Agg{cells: []*Cell{{e.msg}}, ext: e}}}
}

func (m *Machine) ioErr(kind, what string) Val {
	if kind == "" {
		return Nil
	}
	return m.newErr(errExt{kind: kind, msg: Lit(what + ": " + kind)})
}

func errKind(v Val) (errExt, bool) {
	if i, ok := v.(Iface); ok {
		if c, ok := i.V.(*Cell); ok {
			if a, ok := c.v.(*Agg); ok {
				e, ok := a.ext.(errExt)
				return e, ok
			}
		}
	}
	return errExt{}, false
}

func (m *Machine) errIs(e, t Val) bool {
	for e != nil && !isNil(e) {
		if m.equal(e, t) {
			return true
		}
		x, ok := errKind(e)
		y, ok2 := errKind(t)
		if ok && ok2 && x.kind != "" && x.kind == y.kind {
			return true
		}
		if !ok || x.wrap == nil {
			return false
		}
		e = x.wrap
	}
	return false
}

// obj makes a new pointer to a library value with the given state.
func (m *Machine) obj(pkg, name string, ext Val) *Cell {
	a, ok := zero(m.named(pkg, name)).(*Agg)
	if !ok {
		a = &Agg{}
	}
	a.ext = ext
	return &Cell{a}
}

func ext[T any](m *Machine, v Val, pos token.Pos) (T, *Agg) {
	c := m.cell(v, pos)
	a, ok := c.v.(*Agg)
	if !ok {
		m.undecided("state of %T", c.v)
	}
	x, _ := a.ext.(T)
	return x, a
}

func (m *Machine) externalGlobal(g *ssa.Global) Val {
	if g.Pkg == nil {
		return nil
	}
	n := g.Pkg.Pkg.Path() + "." + g.Name()
	switch n {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		return m.obj("os", "File", &handle{name: n, std: true, write: true})
	case "os.Args":
		prog := "go-rpcgen"
		if m.Env > 0 {
			prog = fmt.Sprintf("/bin%d/rpcgen%d", m.Env, m.Env)
		}
		as := []*Cell{{Lit(prog)}}
		var ns []string
		for n := range m.Flags {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			as = append(as, &Cell{Lit("-" + n)})
			if s, ok := m.Flags[n].(Str); ok {
				as = append(as, &Cell{s})
			}
		}
		return Slice{as}
	case "os.ErrExist", "io/fs.ErrExist":
		return m.newErr(errExt{kind: "exist", msg: Lit("file already exists")})
	case "os.ErrNotExist", "io/fs.ErrNotExist":
		return m.newErr(errExt{kind: "notexist", msg: Lit("file does not exist")})
	case "io.EOF":
		return m.newErr(errExt{kind: "eof", msg: Lit("EOF")})
	case "io.Discard", "io/ioutil.Discard":
		return Iface{types.NewPointer(m.named("os", "File")), m.obj("os", "File", &handle{name: n, std: true, write: true})}
	case "flag.CommandLine":
		return m.obj("flag", "FlagSet", "set")
	case "flag.Usage", "flag.ErrHelp":
		return Nil
	}
	if m.interpretedPkg(g.Pkg) {
		return nil
	}
	m.undecided("variable %s", n)
	return nil
}

func (m *Machine) interpretedPkg(p *ssa.Package) bool {
	f := p.Func("init")
	return f != nil && (m.InRepo(f) || interpreted(f))
}

// write sends text to an io.Writer.
func (m *Machine) write(w Val, s Str, pos token.Pos) Val {
	if isNil(w) {
		m.rt(pos, "invalid memory address or nil pointer dereference")
	}
	r := m.Invoke(w, "Write", nil, []Val{Bytes{s}}, pos)
	return r.(Tuple)[1]
}

// goVal turns a value into a Go value for native formatting.
func (m *Machine) goVal(v Val) any {
	switch x := v.(type) {
	case Iface:
		if s, ok := m.stringer(x); ok {
			return m.text(s)
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok {
			if n, ok := x.V.(int64); ok {
				switch b.Kind() {
				case types.Uint8:
					return uint8(n)
				case types.Uint16:
					return uint16(n)
				case types.Uint32:
					return uint32(n)
				case types.Uint64, types.Uint, types.Uintptr:
					return uint64(n)
				case types.Int32:
					return int32(n)
				}
			}
		}
		return m.goVal(x.V)
	case Str:
		return m.text(x)
	case Bytes:
		return []byte(m.text(x))
	case int64, bool, float64:
		return x
	case nilT, nil:
		return nil
	case Slice:
		var r []any
		for _, c := range x.c {
			r = append(r, m.goVal(c.v))
		}
		return r
	case *Agg:
		var r []any
		for _, c := range x.cells {
			r = append(r, m.goVal(c.v))
		}
		return r
	case *Cell:
		return m.goVal(x.v)
	}
	return fmt.Sprintf("%T", v)
}

// stringer calls Error or String if v has it.
func (m *Machine) stringer(v Val) (Str, bool) {
	i, ok := v.(Iface)
	if !ok {
		return Str{}, false
	}
	if e, ok := errKind(v); ok {
		return e.msg, true
	}
	for _, n := range []string{"Error", "String"} {
		if fn := m.method(i.T, n); fn != nil && m.InRepo(fn) {
			sig := fn.Signature
			if sig.Params().Len() == 0 && sig.Results().Len() == 1 {
				if r, ok := m.Call(fn, []Val{i.V}, nil, token.NoPos).(Str); ok {
					return r, true
				}
			}
		}
	}
	return Str{}, false
}

func (m *Machine) variadic(v Val) []Val {
	s, ok := v.(Slice)
	if !ok {
		return nil
	}
	var r []Val
	for _, c := range s.c {
		r = append(r, c.v)
	}
	return r
}

func (m *Machine) piece(v Val) Str {
	if i, ok := v.(Iface); ok {
		if s, ok := m.stringer(v); ok {
			return s
		}
		switch x := i.V.(type) {
		case Str:
			return x
		case Bytes:
			if isBytes(i.T) {
				return x.S
			}
		}
	}
	return Lit(fmt.Sprint(m.goVal(v)))
}

// Sprintf formats.
func (m *Machine) sprintf(f Str, args []Val) Str {
	var out []Str
	format := m.text(f)
	n, reordered := 0, false
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = append(out, Lit(format[i:]))
			break
		}
		out = append(out, Lit(format[i:i+j]))
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			out = append(out, Lit("%!(NOVERB)"))
			break
		}
		flags, verb := format[i+1:k], format[k]
		i = k + 1
		if verb == '%' {
			out = append(out, Lit("%"))
			continue
		}
		if strings.HasPrefix(flags, "[") && strings.HasSuffix(flags, "]") {
			if x, err := strconv.Atoi(flags[1 : len(flags)-1]); err == nil {
				n, flags, reordered = x-1, "", true
			}
		}
		if strings.ContainsAny(flags, "[]*") {
			m.undecided("format %q", format)
		}
		if n >= len(args) || n < 0 {
			out = append(out, Lit("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		_, isErr := m.stringer(a)
		s := false
		if x, ok := a.(Iface); ok {
			switch x.V.(type) {
			case Str:
				s = true
			case Bytes:
				s = verb == 's'
			}
		}
		switch {
		case flags == "" && (verb == 's' || verb == 'v') && (s || isErr):
			out = append(out, m.piece(a))
		case verb == 'w':
			out = append(out, m.piece(a))
		case verb == 'T':
			if x, ok := a.(Iface); ok {
				out = append(out, Lit(types.TypeString(x.T, func(p *types.Package) string { return p.Name() })))
			} else {
				out = append(out, Lit("<nil>"))
			}
		case flags == "" && verb == 'q' && s:
			out = append(out, Lit(`"`), m.piece(a), Lit(`"`))
		default:
			out = append(out, Lit(fmt.Sprintf("%"+flags+string(verb), m.goVal(a))))
		}
	}
	if n < len(args) && !reordered {
		out = append(out, Lit("%!(EXTRA)"))
	}
	return Cat(out...)
}

func (m *Machine) sprint(args []Val, ln bool) Str {
	var out []Str
	for i, a := range args {
		if i > 0 {
			isS := func(v Val) bool {
				x, ok := v.(Iface)
				if !ok {
					return false
				}
				b, ok := x.T.Underlying().(*types.Basic)
				return ok && b.Info()&types.IsString != 0
			}
			if ln || !isS(a) && !isS(args[i-1]) {
				out = append(out, Lit(" "))
			}
		}
		out = append(out, m.piece(a))
	}
	if ln {
		out = append(out, Lit("\n"))
	}
	return Cat(out...)
}

func (m *Machine) strSlice(ss []string) Val {
	var cs []*Cell
	for _, s := range ss {
		cs = append(cs, &Cell{Lit(s)})
	}
	return Slice{cs}
}

func (m *Machine) strs(v Val) []Str {
	var r []Str
	for _, x := range m.variadic(v) {
		r = append(r, m.str(x))
	}
	return r
}

// ---- the scanner ----

type tokT struct {
	off  int
	tok  token.Token
	lit  Str
	errs []string
}

// scan is the state of a go/scanner.Scanner.
type scan struct {
	toks []tokT
	i    int
	errh Val
	base int64
}

// Tokens scans a specification as go/scanner does.
func Tokens(src Str, assign map[string]string, mode scanner.Mode) []tokT {
	text := src.Text(assign)
	at := map[int]*Atom{} // atoms by offset
	off := 0
	for _, p := range src.P {
		if p.A != nil {
			at[off] = p.A
			off += len(p.A.Text(assign))
		} else {
			off += len(p.Lit)
		}
	}
	fset := token.NewFileSet()
	f := fset.AddFile("spec.x", -1, len(text))
	var s scanner.Scanner
	var errs []string
	s.Init(f, []byte(text), func(_ token.Position, msg string) { errs = append(errs, msg) }, mode)
	var r []tokT
	for {
		errs = nil
		pos, tok, lit := s.Scan()
		t := tokT{off: int(pos) - f.Base(), tok: tok, lit: Lit(lit), errs: errs}
		if a := at[t.off]; a != nil && (tok == token.IDENT || tok == token.INT) && lit == a.Text(assign) {
			t.lit = AtomStr(a)
		}
		r = append(r, t)
		if tok == token.EOF {
			return r
		}
	}
}

// ---- external functions ----

func fullName(fn *ssa.Function) string {
	if fn.Signature.Recv() == nil {
		if fn.Pkg == nil {
			if o := fn.Object(); o != nil && o.Pkg() != nil {
				return o.Pkg().Path() + "." + fn.Name()
			}
			if o := fn.Origin(); o != nil && o.Pkg != nil {
				return o.Pkg.Pkg.Path() + "." + o.Name()
			}
			return fn.Name()
		}
		return fn.Pkg.Pkg.Path() + "." + fn.Name()
	}
	t := fn.Signature.Recv().Type()
	return "(" + types.TypeString(t, nil) + ")." + fn.Name()
}

// external evaluates a function of the standard library; ok is false if it
// has no model.
func (m *Machine) external(fn *ssa.Function, args []Val, pos token.Pos) (res Val, ok bool) {
	ok = true
	name := fullName(fn)
	n := func(i int) int64 { return args[i].(int64) }
	void := Tuple{}
	switch name {
	// flag
	case "flag.String", "flag.Bool", "flag.Int", "flag.Uint", "flag.Int64", "flag.Uint64":
		c := &Cell{args[1]}
		m.flags[m.text(args[0])] = c
		return c, true
	case "flag.StringVar", "flag.BoolVar", "flag.IntVar", "flag.UintVar", "flag.Int64Var", "flag.Uint64Var":
		c := m.cell(args[0], pos)
		c.v = args[2]
		m.flags[m.text(args[1])] = c
		return void, true
	case "flag.Parse":
		for k, v := range m.Flags {
			c := m.flags[k]
			if c == nil {
				panic(Exit{2})
			}
			c.v = v
		}
		return void, true
	case "flag.Usage", "flag.PrintDefaults":
		return void, true
	case "flag.NArg", "flag.NFlag":
		return int64(0), true
	case "flag.Args":
		return Nil, true
	case "flag.Arg":
		return Str{}, true

	// os
	case "os.Exit":
		panic(Exit{n(0)})
	case "os.ReadFile", "io/ioutil.ReadFile":
		h, e := m.open(m.text(args[0]), 0, pos)
		if e == "" && m.fails("read "+h.name) {
			e = "io"
		}
		if e != "" {
			return Tuple{Nil, m.ioErr(e, "read "+m.text(args[0]))}, true
		}
		return Tuple{Bytes{h.data}, Nil}, true
	case "os.WriteFile", "io/ioutil.WriteFile":
		h, e := m.open(m.text(args[0]), oWRONLY|oCREATE|oTRUNC, pos)
		if e == "" {
			e = h.put(m, m.str(args[1]))
		}
		if e == "" && m.fails("close "+h.name) {
			e = "io"
		}
		return m.ioErr(e, "write "+m.text(args[0])), true
	case "os.OpenFile":
		return m.openFile(args[0], n(1), pos), true
	case "os.Create":
		return m.openFile(args[0], oRDWR|oCREATE|oTRUNC, pos), true
	case "os.Open":
		return m.openFile(args[0], 0, pos), true
	case "os.CreateTemp", "io/ioutil.TempFile":
		dir, pat := m.text(args[0]), m.text(args[1])
		if dir == "" {
			dir = "/tmp"
		}
		for base := pat; ; { // until the name is free
			m.FS.seq++
			r := "rnd" + strconv.Itoa(m.FS.seq+1000*m.Env)
			if i := strings.LastIndexByte(base, '*'); i >= 0 {
				pat = base[:i] + r + base[i+1:]
			} else {
				pat = base + r
			}
			if m.FS.Files[dir+"/"+pat] == nil {
				break
			}
		}
		return m.openFile(Lit(dir+"/"+pat), oRDWR|oCREATE|oEXCL, pos), true
	case "os.Remove", "os.RemoveAll":
		p := m.text(args[0])
		if m.fails("remove " + p) {
			return m.ioErr("io", "remove "+p), true
		}
		e := m.FS.remove(p)
		if name == "os.RemoveAll" {
			e = ""
		}
		return m.ioErr(e, "remove "+p), true
	case "os.Rename":
		a, b := m.text(args[0]), m.text(args[1])
		if m.fails("rename " + a) {
			return m.ioErr("io", "rename "+a), true
		}
		f := m.FS.Files[a]
		if f == nil {
			return m.ioErr("notexist", "rename "+a), true
		}
		if m.FS.Files[b] == nil {
			m.FS.Made[b] = true
		}
		m.FS.Files[b] = &File{Content: f.Content}
		delete(m.FS.Files, a)
		m.FS.touch(b, "replaced")
		m.FS.touch(a, "renamed")
		if !m.FS.Made[a] {
			m.FS.Gone[a] = true
		}
		return Nil, true
	case "os.Stat", "os.Lstat":
		p := m.text(args[0])
		if m.FS.Files[p] == nil {
			return Tuple{Nil, m.ioErr("notexist", "stat "+p)}, true
		}
		return Tuple{Iface{types.NewPointer(m.named("os", "fileStat")), m.obj("os", "fileStat", p)}, Nil}, true
	case "(*os.fileStat).Size":
		p, _ := ext[string](m, args[0], pos)
		if f := m.FS.Files[p]; f != nil {
			return int64(len(f.Content.Text(m.Assign))), true
		}
		return int64(0), true
	case "(*os.fileStat).Mode", "(*os.fileStat).Name", "(*os.fileStat).IsDir":
		return zero(fn.Signature.Results().At(0).Type()), true
	case "os.Chmod", "os.MkdirAll", "os.Mkdir":
		return Nil, true
	case "os.IsExist", "os.IsNotExist", "os.IsPermission":
		e, _ := errKind(args[0])
		return e.kind == map[string]string{"os.IsExist": "exist", "os.IsNotExist": "notexist"}[name], true
	case "os.Getenv":
		if m.Env > 0 {
			return Lit("env" + strconv.FormatInt(m.salt(), 10)), true
		}
		return Str{}, true
	case "os.LookupEnv":
		if m.Env > 0 {
			return Tuple{Lit("env" + strconv.FormatInt(m.salt(), 10)), true}, true
		}
		return Tuple{Str{}, false}, true
	case "os.Getpid", "os.Getppid", "os.Getuid", "os.Getgid", "os.Geteuid", "os.Getegid", "runtime.NumCPU", "runtime.NumGoroutine":
		return 4711 + m.salt(), true
	case "os.Hostname", "os.Getwd", "os.Executable", "os.UserHomeDir":
		return Tuple{Lit("/h" + strconv.FormatInt(m.salt(), 10)), Nil}, true
	case "os.TempDir":
		return Lit("/tmp"), true
	case "time.Now":
		return zero(fn.Signature.Results().At(0).Type()), true
	case "(time.Time).Format", "(time.Time).String", "(time.Duration).String", "(time.Month).String", "(time.Weekday).String":
		return Lit("time" + strconv.FormatInt(m.salt(), 10)), true
	case "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).Year", "(time.Time).YearDay", "(time.Time).Month", "(time.Time).Day", "(time.Time).Nanosecond", "time.Since", "(time.Time).Sub":
		return 1 + m.salt(), true
	case "(time.Time).UTC", "(time.Time).Local":
		return args[0], true
	case "math/rand.Seed":
		return nil, true
	case "math/rand.Int", "math/rand.Int63", "math/rand.Int31", "math/rand.Uint32", "math/rand.Uint64", "math/rand/v2.Int", "math/rand/v2.Uint32", "math/rand/v2.Uint64":
		return m.salt(), true
	case "math/rand.Intn", "math/rand.Int31n", "math/rand.Int63n", "math/rand/v2.IntN":
		if k, ok := args[0].(int64); ok && k > 0 {
			return m.salt() % k, true
		}
	case "(*os.File).Close":
		if isNil(args[0]) {
			return m.ioErr("io", "close"), true
		}
		h, _ := ext[*handle](m, args[0], pos)
		if h.closed {
			return m.ioErr("closed", "close "+h.name), true
		}
		h.closed = !h.std
		if !h.std && h.write && m.fails("close "+h.name) {
			return m.ioErr("io", "close "+h.name), true
		}
		return Nil, true
	case "(*os.File).Write", "(*os.File).WriteString":
		if isNil(args[0]) {
			return Tuple{int64(0), m.ioErr("io", "write")}, true
		}
		h, _ := ext[*handle](m, args[0], pos)
		s := m.str(args[1])
		if e := h.put(m, s); e != "" {
			return Tuple{int64(0), m.ioErr(e, "write "+h.name)}, true
		}
		return Tuple{int64(len(s.Text(m.Assign))), Nil}, true
	case "(*os.File).Sync":
		h, _ := ext[*handle](m, args[0], pos)
		if m.fails("sync " + h.name) {
			return m.ioErr("io", "sync "+h.name), true
		}
		return Nil, true
	case "(*os.File).Name":
		h, _ := ext[*handle](m, args[0], pos)
		return Lit(h.name), true
	case "(*os.File).Truncate":
		h, _ := ext[*handle](m, args[0], pos)
		if n(1) != 0 {
			m.undecided("truncation of a file to a length other than 0")
		}
		if m.fails("truncate " + h.name) {
			return m.ioErr("io", "truncate "+h.name), true
		}
		h.f.Content = Str{}
		m.FS.touch(h.name, "truncated")
		return Nil, true
	case "(*os.File).Seek":
		h, _ := ext[*handle](m, args[0], pos)
		if n(1) != 0 || n(2) != 0 {
			m.undecided("seeking elsewhere than to the start of a file")
		}
		h.data = h.f.Content
		h.off = 0
		return Tuple{int64(0), Nil}, true
	case "(*os.File).Stat":
		h, _ := ext[*handle](m, args[0], pos)
		return Tuple{Iface{types.NewPointer(m.named("os", "fileStat")), m.obj("os", "fileStat", h.name)}, Nil}, true
	case "(*os.File).Chmod":
		return Nil, true
	case "io.ReadAll", "io/ioutil.ReadAll":
		s, e := m.readAll(args[0], pos)
		return Tuple{Bytes{s}, e}, true
	case "io.Copy":
		s, e := m.readAll(args[1], pos)
		if isNil(e) {
			e = m.write(args[0], s, pos)
		}
		return Tuple{int64(len(s.Text(m.Assign))), e}, true
	case "io.WriteString":
		s := m.str(args[1])
		m.Emits = append(m.Emits, Emit{s, pos})
		return Tuple{int64(len(s.Text(m.Assign))), m.write(args[0], s, pos)}, true

	// log
	case "log.Fatal", "log.Fatalf", "log.Fatalln":
		panic(Exit{1})
	case "log.Print", "log.Printf", "log.Println", "log.SetFlags", "log.SetPrefix", "log.SetOutput":
		return void, true
	case "log.Panic", "log.Panicf", "log.Panicln":
		var s Str
		if name == "log.Panicf" {
			s = m.sprintf(m.str(args[0]), m.variadic(args[1]))
		} else {
			s = m.sprint(m.variadic(args[0]), false)
		}
		panic(&Panic{V: Iface{types.Typ[types.String], s}, Pos: pos, Text: s.Text(m.Assign)})

	// errors
	case "errors.New":
		return m.newErr(errExt{msg: m.str(args[0])}), true
	case "errors.Is":
		return m.errIs(args[0], args[1]), true
	case "errors.Unwrap":
		if e, ok := errKind(args[0]); ok && e.wrap != nil {
			return e.wrap, true
		}
		return Nil, true
	case "(*errors.errorString).Error":
		e, _ := ext[errExt](m, args[0], pos)
		return e.msg, true
	case "fmt.Errorf":
		as := m.variadic(args[1])
		e := errExt{msg: m.sprintf(m.str(args[0]), as)}
		if strings.Contains(m.text(args[0]), "%w") {
			for _, a := range as {
				if _, ok := errKind(a); ok {
					e.wrap = a
				}
			}
		}
		return m.newErr(e), true

	// fmt
	case "fmt.Sprintf":
		return m.sprintf(m.str(args[0]), m.variadic(args[1])), true
	case "fmt.Sprint", "fmt.Sprintln":
		return m.sprint(m.variadic(args[0]), name == "fmt.Sprintln"), true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		var s Str
		if name == "fmt.Fprintf" {
			s = m.sprintf(m.str(args[1]), m.variadic(args[2]))
		} else {
			s = m.sprint(m.variadic(args[1]), name == "fmt.Fprintln")
		}
		m.Emits = append(m.Emits, Emit{s, pos})
		e := m.write(args[0], s, pos)
		return Tuple{int64(len(s.Text(m.Assign))), e}, true
	case "fmt.Printf", "fmt.Print", "fmt.Println":
		return Tuple{int64(0), Nil}, true
	case "fmt.Appendf":
		return Bytes{Cat(m.str(args[0]), m.sprintf(m.str(args[1]), m.variadic(args[2])))}, true

	// buffers
	case "bufio.NewReader", "bufio.NewReaderSize":
		return m.obj("bufio", "Reader", &wrapR{args[0]}), true
	case "io.LimitReader":
		return Iface{types.NewPointer(m.named("io", "LimitedReader")), m.obj("io", "LimitedReader", &limitR{args[0], n(1)})}, true
	case "bufio.NewWriter":
		return m.obj("bufio", "Writer", &bufw{dst: args[0], size: 4096}), true
	case "bufio.NewWriterSize":
		return m.obj("bufio", "Writer", &bufw{dst: args[0], size: int(n(1))}), true
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		b, _ := ext[*bufw](m, args[0], pos)
		if b == nil {
			m.undecided("a bufio.Writer that was not made by NewWriter")
		}
		s := m.chars(args[1])
		if isNil(b.err) {
			b.buf = Cat(b.buf, s)
			b.n += len(s.Text(m.Assign))
			if b.n > b.size { // what exceeds the buffer is written through
				b.err = m.write(b.dst, b.buf, pos)
				b.buf, b.n = Str{}, 0
			}
		}
		e := b.err
		if e == nil {
			e = Nil
		}
		if name == "(*bufio.Writer).WriteByte" {
			return e, true
		}
		return Tuple{int64(len(s.Text(m.Assign))), e}, true
	case "(*bufio.Writer).Flush":
		b, _ := ext[*bufw](m, args[0], pos)
		if b == nil {
			m.rt(pos, "flush of a nil writer")
		}
		if isNil(b.err) && len(b.buf.P) > 0 {
			b.err = m.write(b.dst, b.buf, pos)
			b.buf, b.n = Str{}, 0
		}
		if b.err == nil {
			return Nil, true
		}
		return b.err, true
	case "(*bufio.Writer).Reset":
		_, a := ext[*bufw](m, args[0], pos)
		a.ext = &bufw{dst: args[1], size: 4096}
		return void, true
	case "(*bufio.Writer).Buffered":
		b, _ := ext[*bufw](m, args[0], pos)
		return int64(len(b.buf.Text(m.Assign))), true
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune",
		"(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		b, a := ext[bufT](m, args[0], pos)
		s := m.chars(args[1])
		a.ext = bufT{Cat(b.S, s), true}
		if strings.HasSuffix(name, "WriteByte") {
			return Nil, true
		}
		return Tuple{int64(len(s.Text(m.Assign))), Nil}, true
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		if isNil(args[0]) {
			return Lit("<nil>"), true
		}
		b, _ := ext[bufT](m, args[0], pos)
		return b.S, true
	case "(*bytes.Buffer).Bytes":
		b, _ := ext[bufT](m, args[0], pos)
		return Bytes{b.S}, true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		b, _ := ext[bufT](m, args[0], pos)
		return int64(len(b.S.Text(m.Assign))), true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		_, a := ext[bufT](m, args[0], pos)
		a.ext = bufT{}
		return void, true
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		b, a := ext[bufT](m, args[0], pos)
		a.ext = bufT{b.S, true}
		return void, true
	case "(*bytes.Buffer).Cap", "(*strings.Builder).Cap":
		b, _ := ext[bufT](m, args[0], pos)
		if !b.grown {
			return int64(0), true
		}
		return int64(len(b.S.Text(m.Assign)) + 64), true
	case "(*bytes.Buffer).Truncate":
		b, a := ext[bufT](m, args[0], pos)
		l := len(b.S.Text(m.Assign))
		if n(1) < 0 || int(n(1)) > l {
			m.rt(pos, "bytes.Buffer: truncation out of range")
		}
		r, ok := b.S.slice1(0, int(n(1)))
		if !ok {
			r = Lit(m.text(b.S)[:n(1)])
		}
		a.ext = bufT{r, true}
		return void, true

	// sort (any order that sort.Slice may produce is stable for distinct keys)
	case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
		i, _ := args[0].(Iface)
		sl, _ := i.V.(Slice)
		less := func(a, b int) bool {
			r, _ := m.apply(nil, args[1], []Val{int64(a), int64(b)}, pos).(bool)
			return r
		}
		sorted := true
		for a := 1; a < len(sl.c); a++ {
			for b := a; b > 0 && less(b, b-1); b-- {
				sorted = false
				if name != "sort.SliceIsSorted" {
					sl.c[b].v, sl.c[b-1].v = sl.c[b-1].v, sl.c[b].v
				}
			}
		}
		if name == "sort.SliceIsSorted" {
			return sorted, true
		}
		return void, true

	// sync
	case "(*sync.Once).Do":
		done, a := ext[bool](m, args[0], pos)
		if !done {
			a.ext = true
			m.apply(nil, args[1], nil, pos)
		}
		return void, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return void, true
	case "(*bytes.Buffer).WriteTo":
		b, a := ext[bufT](m, args[0], pos)
		a.ext = bufT{}
		return Tuple{int64(len(b.S.Text(m.Assign))), m.write(args[1], b.S, pos)}, true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		return m.obj("bytes", "Buffer", bufT{S: m.str(args[0])}), true

	// go/format, go/token, go/scanner
	case "go/format.Source":
		s := m.str(args[0])
		if m.fails("format") {
			return Tuple{Nil, m.newErr(errExt{kind: "format", msg: Lit("1:1: expected something else")})}, true
		}
		if _, err := format.Source([]byte(s.Text(m.Assign))); err != nil {
			return Tuple{Nil, m.newErr(errExt{kind: "format", msg: Lit(err.Error())})}, true
		}
		return Tuple{Bytes{s}, Nil}, true
	case "go/token.NewFileSet":
		return m.obj("go/token", "FileSet", "fileset"), true
	case "(*go/token.FileSet).AddFile":
		return m.obj("go/token", "File", &tfile{size: n(3)}), true
	case "(*go/token.FileSet).Base":
		return int64(1), true
	case "(*go/token.File).Size":
		f, _ := ext[*tfile](m, args[0], pos)
		return f.size, true
	case "(*go/token.FileSet).Position", "(*go/token.File).Position", "(*go/token.FileSet).PositionFor", "(*go/token.FileSet).File", "(*go/token.File).Offset",
		"(*go/token.File).Line", "(*go/token.File).Name", "(*go/token.File).LineCount":
		return zero(fn.Signature.Results().At(0).Type()), true
	case "(go/token.Position).String", "(*go/token.Position).String":
		return Lit("spec.x:1:1"), true
	case "(go/token.Token).String":
		return Lit(token.Token(n(0)).String()), true
	case "(go/token.Token).IsKeyword":
		return token.Token(n(0)).IsKeyword(), true
	case "(go/token.Token).IsLiteral":
		return token.Token(n(0)).IsLiteral(), true
	case "(go/token.Token).IsOperator":
		return token.Token(n(0)).IsOperator(), true
	case "(go/token.Token).Precedence":
		return int64(token.Token(n(0)).Precedence()), true
	case "go/token.Lookup":
		return int64(token.Lookup(m.text(args[0]))), true
	case "go/token.IsKeyword":
		return token.IsKeyword(m.text(args[0])), true
	case "(go/token.Pos).IsValid":
		return n(0) != 0, true
	case "(*go/scanner.Scanner).Init":
		f, _ := ext[*tfile](m, args[1], pos)
		if f == nil {
			m.rt(pos, "scanner initialised without a file")
		}
		src := m.str(args[2])
		if f.size != int64(len(src.Text(m.Assign))) {
			m.rt(pos, "file size (%d) does not match src len (%d)", f.size, len(src.Text(m.Assign)))
		}
		_, a := ext[*scan](m, args[0], pos)
		a.ext = &scan{toks: Tokens(src, m.Assign, scanner.Mode(n(4))), errh: args[3], base: 1}
		return void, true
	case "(*go/scanner.Scanner).Scan":
		s, a := ext[*scan](m, args[0], pos)
		if s == nil {
			m.rt(pos, "scanner not initialised")
		}
		t := s.toks[s.i]
		ns := *s
		if s.i+1 < len(s.toks) {
			ns.i++
		}
		a.ext = &ns
		for _, e := range t.errs {
			m.errorCount(a)
			if !isNil(s.errh) {
				m.apply(nil, s.errh, []Val{zero(m.named("go/token", "Position")), Lit(e)}, pos)
			}
		}
		return Tuple{s.base + int64(t.off), int64(t.tok), t.lit}, true

	// strings
	case "strings.ToUpper", "bytes.ToUpper":
		return m.reStr(args[0], func(s Str) Str { r, _ := s.mapCase("upper"); return r }), true
	case "strings.ToLower", "bytes.ToLower":
		return m.reStr(args[0], func(s Str) Str { r, _ := s.mapCase("lower"); return r }), true
	case "strings.Title":
		s := m.str(args[0])
		if f, ok := s.slice1(0, 1); ok && len(s.P) == 1 && s.P[0].A != nil {
			r, _ := s.slice1(1, -1)
			u, _ := f.mapCase("upper")
			return Cat(u, r), true
		}
		return Lit(strings.Title(m.text(s))), true
	case "strings.Join":
		var r []Str
		for i, s := range m.strs(args[0]) {
			if i > 0 {
				r = append(r, m.str(args[1]))
			}
			r = append(r, s)
		}
		return Cat(r...), true
	case "strings.Repeat":
		if n(1) < 0 {
			m.rt(pos, "strings: negative Repeat count")
		}
		var r []Str
		for i := int64(0); i < n(1); i++ {
			r = append(r, m.str(args[0]))
		}
		return Cat(r...), true
	case "strings.Clone":
		return args[0], true
	case "strings.Contains":
		if r, ok := contains(m.str(args[0]), m.str(args[1])); ok {
			return r, true
		}
	case "strings.EqualFold":
		return strings.EqualFold(m.text(args[0]), m.text(args[1])), true
	case "strings.TrimSpace":
		return m.trim(args[0], strings.TrimSpace), true
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix":
		c := m.text(args[1])
		f := map[string]func(string, string) string{"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft,
			"strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix}[name]
		return m.trim(args[0], func(s string) string { return f(s, c) }), true
	}
	if f, found := natives[name]; found {
		return m.native(f, args, fn), true
	}
	if strings.HasPrefix(name, "unsafe.") || strings.HasPrefix(name, "internal/bytealg.") {
		if f, found := natives["strings."+strings.TrimSuffix(fn.Name(), "String")]; found {
			return m.native(f, args, fn), true
		}
	}
	return nil, false
}

// trim keeps the template when trimming changes nothing, or only literal text
// at its ends.
func (m *Machine) trim(v Val, f func(string) string) Val {
	s := m.str(v)
	t := s.Text(m.Assign)
	r := f(t)
	if r == t {
		return s
	}
	i := strings.Index(t, r)
	if i >= 0 && len(s.P) > 0 {
		pre, suf := t[:i], t[i+len(r):]
		p := append([]Piece{}, s.P...)
		ok := true
		if pre != "" {
			ok = p[0].A == nil && strings.HasPrefix(p[0].Lit, pre)
			if ok {
				p[0].Lit = p[0].Lit[len(pre):]
			}
		}
		if n := len(p) - 1; ok && suf != "" {
			ok = p[n].A == nil && strings.HasSuffix(p[n].Lit, suf)
			if ok {
				p[n].Lit = p[n].Lit[:len(p[n].Lit)-len(suf)]
			}
		}
		if ok {
			var q []Str
			for _, x := range p {
				if x.A != nil || x.Lit != "" {
					q = append(q, Str{[]Piece{x}})
				}
			}
			return Cat(q...)
		}
	}
	return Lit(f(m.text(s)))
}

func (m *Machine) reStr(v Val, f func(Str) Str) Val {
	r := f(m.str(v))
	if _, ok := v.(Str); ok {
		return r
	}
	return Bytes{r}
}

func (m *Machine) chars(v Val) Str {
	if n, ok := v.(int64); ok {
		return Lit(string(rune(n)))
	}
	return m.str(v)
}

type bufw struct {
	size, n int
	dst     Val
	buf     Str
	err     Val
}

type bufT struct {
	S     Str
	grown bool
}

type tfile struct{ size int64 }

func (m *Machine) errorCount(a *Agg) {
	st, ok := m.named("go/scanner", "Scanner").Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "ErrorCount" {
			if k, ok := a.cells[i].v.(int64); ok {
				a.cells[i].v = k + 1
			}
		}
	}
}

func (m *Machine) openFile(name Val, flag int64, pos token.Pos) Val {
	h, e := m.open(m.text(name), flag, pos)
	if e != "" {
		return Tuple{Nil, m.ioErr(e, "open "+m.text(name))}
	}
	return Tuple{m.obj("os", "File", h), Nil}
}

func (m *Machine) readAll(r Val, pos token.Pos) (Str, Val) {
	i, ok := r.(Iface)
	if !ok {
		m.rt(pos, "invalid memory address or nil pointer dereference")
	}
	switch i.T.String() {
	case "*os.File":
		h, _ := ext[*handle](m, i.V, pos)
		if h.closed {
			return Str{}, m.ioErr("closed", "read "+h.name)
		}
		if m.fails("read " + h.name) {
			return Str{}, m.ioErr("io", "read "+h.name)
		}
		s := h.data
		h.data = Str{}
		return s, Nil
	case "*bytes.Buffer":
		b, a := ext[bufT](m, i.V, pos)
		a.ext = bufT{}
		return b.S, Nil
	}
	switch i.T.String() {
	case "*bufio.Reader":
		if w, _ := ext[*wrapR](m, i.V, pos); w != nil {
			return m.readAll(w.src, pos)
		}
	case "*io.LimitedReader":
		if l, _ := ext[*limitR](m, i.V, pos); l != nil {
			s, e := m.readAll(l.src, pos)
			text := s.Text(m.Assign)
			if int64(len(text)) <= l.n {
				l.n -= int64(len(text))
				return s, e
			}
			for _, x := range s.P {
				if x.A != nil {
					m.undecided("a limit inside a text with symbols")
				}
			}
			s = Lit(text[:max(l.n, 0)])
			l.n = 0
			return s, e // what is behind the limit is lost to this reader
		}
	}
	m.undecided("reading from %v", i.T)
	return Str{}, Nil
}

// natives are functions evaluated on texts.
var natives = map[string]any{
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.Count": strings.Count, "strings.Fields": strings.Fields, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Compare": strings.Compare,
	"strings.ToTitle": strings.ToTitle,
	"strconv.Itoa":    strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.ParseBool": strconv.ParseBool,
	"unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
}

func (m *Machine) native(f any, args []Val, fn *ssa.Function) Val {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	var in []reflect.Value
	for i, a := range args {
		t := ft.In(i)
		switch t.Kind() {
		case reflect.String:
			in = append(in, reflect.ValueOf(m.text(a)).Convert(t))
		case reflect.Slice:
			var ss []string
			for _, s := range m.strs(a) {
				ss = append(ss, m.text(s))
			}
			in = append(in, reflect.ValueOf(ss))
		default:
			in = append(in, reflect.ValueOf(a).Convert(t))
		}
	}
	out := fv.Call(in)
	var r Tuple
	for _, o := range out {
		switch o.Kind() {
		case reflect.String:
			r = append(r, Lit(o.String()))
		case reflect.Bool:
			r = append(r, o.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			r = append(r, o.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			r = append(r, int64(o.Uint()))
		case reflect.Slice:
			r = append(r, m.strSlice(o.Interface().([]string)))
		case reflect.Interface:
			if o.IsNil() {
				r = append(r, Nil)
			} else {
				r = append(r, m.newErr(errExt{msg: Lit(fmt.Sprint(o.Interface()))}))
			}
		default:
			m.undecided("result of %v", fn)
		}
	}
	if len(r) == 1 {
		return r[0]
	}
	return r
}

func identByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// contains decides strings.Contains whatever the texts of the atoms are.
func contains(s, sub Str) (res, ok bool) {
	p, k := sub.Const()
	if !k {
		return false, false
	}
	if t, k := s.Const(); k {
		return strings.Contains(t, p), true
	}
	other := false
	for i := 0; i < len(p); i++ {
		other = other || !identByte(p[i])
	}
	if !other {
		return false, false
	}
	for _, x := range s.P {
		if x.A == nil && strings.Contains(x.Lit, p) {
			return true, true
		}
	}
	for i, x := range s.P {
		if x.A != nil {
			continue
		}
		for j := 1; j < len(p); j++ {
			if i+1 < len(s.P) && strings.HasSuffix(x.Lit, p[:j]) || i > 0 && strings.HasPrefix(x.Lit, p[j:]) {
				return false, false // may go on within an atom
			}
		}
		if i > 0 && i+1 < len(s.P) && strings.Contains(p, x.Lit) {
			return false, false
		}
	}
	return false, true
}

// method finds a method by name.
func (m *Machine) method(t types.Type, name string) *ssa.Function {
	ms := m.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// wrapR is a bufio.Reader that nothing has been read from.
type wrapR struct{ src Val }

// limitR is an io.LimitedReader.
type limitR struct {
	src Val
	n   int64
}
