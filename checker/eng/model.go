package eng

import (
	"fmt"
	"go/types"
	"strings"
)

// model gives the effect of standard library calls the analyses need.
func (it *Interp) model(st *State, c *Call) ([]Outcome, bool) {
	if c.Invoke {
		switch c.Name {
		case "(io.Writer).Write":
			return one(func(st *State) (*Term, bool) {
				data, ok := st.SliceContent(c.Args[0])
				it.nonNil(st, c.Recv, c.Pos, "call on nil interface")
				res := c.Fresh(st)
				st.event(Event{Kind: "write", Name: c.Name, Fn: c.Obj, Recv: c.Recv, Args: c.Args, Res: res, Pos: c.Pos, In: c.In, Data: Written{data, ok}})
				return res, true
			}), true
		case "(error).Error":
			return one(func(st *State) (*Term, bool) {
				return OpT("errstr", types.Typ[types.String], c.Recv), true
			}), true
		}
		return nil, false
	}
	str := types.Typ[types.String]
	ev := func(st *State, res *Term) {
		st.event(Event{Kind: "call", Name: c.Name, Args: c.Args, Res: res, Pos: c.Pos, In: c.In})
	}
	switch c.Name {
	case "errors.New":
		return one(func(st *State) (*Term, bool) { return NonNil("error", c.RType), true }), true
	case "fmt.Errorf":
		return one(func(st *State) (*Term, bool) {
			e := NonNil("error", c.RType)
			return e, true
		}), true
	case "errors.Is", "errors.As", "errors.Unwrap":
		return one(func(st *State) (*Term, bool) { return c.Fresh(st), true }), true
	case "fmt.Sprintf":
		return one(func(st *State) (*Term, bool) { return it.sprintf(st, c, c.Args[0], c.Args[1]), true }), true
	case "fmt.Sprint", "fmt.Sprintln":
		return one(func(st *State) (*Term, bool) {
			es, ok := st.elements(c.Args[0], anyT)
			if !ok {
				return Sym("sprint", str), true
			}
			r := Str("")
			for i, e := range es {
				if i > 0 && c.Name == "fmt.Sprintln" {
					r = Cat(r, Str(" "))
				}
				// Sprint adds spaces between operands when neither is a string
				if i > 0 && c.Name == "fmt.Sprint" && !boxedString(e) && !boxedString(es[i-1]) {
					r = Cat(r, Str(" "))
				}
				r = Cat(r, it.fmtArg(st, 'v', e))
			}
			if c.Name == "fmt.Sprintln" {
				r = Cat(r, Str("\n"))
			}
			return r, true
		}), true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		return one(func(st *State) (*Term, bool) {
			var s *Term
			switch c.Name {
			case "fmt.Fprintf":
				s = it.sprintf(st, c, c.Args[1], c.Args[2])
			case "io.WriteString":
				s = c.Args[1]
			default:
				es, ok := st.elements(c.Args[1], anyT)
				s = Str("")
				if !ok {
					s = Sym("fprint", str)
				}
				for i, e := range es {
					if i > 0 && (c.Name == "fmt.Fprintln" || !boxedString(e) && !boxedString(es[i-1])) {
						s = Cat(s, Str(" "))
					}
					s = Cat(s, it.fmtArg(st, 'v', e))
				}
				if c.Name == "fmt.Fprintln" {
					s = Cat(s, Str("\n"))
				}
			}
			if st.builderWrite(c.Args[0], s) {
				return Op("tuple", StrLen(s), Nil), true
			}
			res := c.Fresh(st)
			st.event(Event{Kind: "print", Name: c.Name, Recv: c.Args[0], Args: []*Term{s}, Res: res, Pos: c.Pos, In: c.In})
			return res, true
		}), true
	case "fmt.Printf", "fmt.Println", "fmt.Print", "log.Printf", "log.Println", "log.Print",
		"(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print":
		return one(func(st *State) (*Term, bool) {
			res := c.Fresh(st)
			st.event(Event{Kind: "print", Name: c.Name, Args: c.Args, Res: res, Pos: c.Pos, In: c.In})
			return res, true
		}), true
	case "log.New", "log.Default":
		return one(func(st *State) (*Term, bool) { return NonNil("logger", c.RType), true }), true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "syscall.Exit":
		return one(func(st *State) (*Term, bool) {
			ev(st, nil)
			st.Exit = "exit"
			return nil, true
		}), true
	case "log.Panic", "log.Panicf", "log.Panicln":
		return one(func(st *State) (*Term, bool) {
			it.Panic(st, NonNil("panic", nil))
			return nil, true
		}), true
	case "io.ReadFull", "io.ReadAtLeast":
		return []Outcome{
			func(st *State) (*Term, bool) { // success
				r, _, n, _ := SliceParts(c.Args[1])
				if c.Name == "io.ReadAtLeast" {
					n = Sym("n", intT)
					st.Assume(Lt(n, c.Args[2]), false)
					st.Assume(Lt(Len(c.Args[1]), n), false)
				}
				if !r.IsNil() {
					st.Havoc(r)
				}
				res := Op("tuple", n, Nil)
				data, ok := st.SliceContent(c.Args[1])
				st.event(Event{Kind: "read", Name: c.Name, Recv: c.Args[0], Args: c.Args[1:], Res: res, Pos: c.Pos, In: c.In, Data: Written{data, ok}})
				return res, true
			},
			func(st *State) (*Term, bool) { // failure
				r, _, _, _ := SliceParts(c.Args[1])
				if !r.IsNil() {
					st.Havoc(r)
				}
				n := Sym("n", intT)
				st.Assume(Lt(n, Int(0)), false)
				res := Op("tuple", n, NonNil("readerr", nil))
				st.event(Event{Kind: "read", Name: c.Name, Recv: c.Args[0], Args: c.Args[1:], Res: res, Pos: c.Pos, In: c.In})
				return res, true
			},
		}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Mutex).TryLock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		return one(func(st *State) (*Term, bool) {
			res := c.Fresh(st)
			st.event(Event{Kind: "sync", Name: c.Name, Args: c.Args, Res: res, Pos: c.Pos, In: c.In})
			return res, true
		}), true
	case "(*sync.Pool).Get":
		return one(func(st *State) (*Term, bool) {
			res := Sym("pooled", c.RType)
			ev(st, res)
			return res, true
		}), true
	case "(*sync.Pool).Put":
		return one(func(st *State) (*Term, bool) { ev(st, nil); return nil, true }), true
	case "sync/atomic.AddUint32", "sync/atomic.AddInt32", "sync/atomic.AddUint64", "sync/atomic.AddInt64":
		return one(func(st *State) (*Term, bool) {
			v := st.Load(c.Args[0], c.RType)
			n := st.wrap(Add(st.Norm(v), c.Args[1]), c.RType)
			st.Store(c.Args[0], n, c.RType)
			ev(st, n)
			return n, true
		}), true
	case "(*sync/atomic.Uint32).Add", "(*sync/atomic.Uint64).Add", "(*sync/atomic.Int32).Add", "(*sync/atomic.Int64).Add":
		return one(func(st *State) (*Term, bool) {
			a := Field(c.Args[0], 7777, "v", c.RType)
			v := st.Load(a, c.RType)
			n := st.wrap(Add(st.Norm(v), c.Args[1]), c.RType)
			st.Store(a, n, c.RType)
			ev(st, n)
			return n, true
		}), true
	case "strings.ToUpper", "strings.Title", "strings.ToTitle":
		return one(func(st *State) (*Term, bool) { return Upper(c.Name, c.Args[0]), true }), true
	case "unicode.ToUpper", "unicode.ToTitle":
		return one(func(st *State) (*Term, bool) {
			x := c.Args[0]
			if n, ok := x.Int64(); ok {
				return Int(int64([]rune(strings.ToUpper(string(rune(n))))[0])), true
			}
			return OpT("toupper", c.RType, x), true
		}), true
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.Index", "strings.Count", "strings.EqualFold":
		return one(func(st *State) (*Term, bool) {
			a, ok1 := c.Args[0].StrVal()
			b, ok2 := c.Args[1].StrVal()
			if ok1 && ok2 {
				switch c.Name {
				case "strings.Contains":
					return Bool(strings.Contains(a, b)), true
				case "strings.HasPrefix":
					return Bool(strings.HasPrefix(a, b)), true
				case "strings.HasSuffix":
					return Bool(strings.HasSuffix(a, b)), true
				case "strings.Index":
					return Int(int64(strings.Index(a, b))), true
				case "strings.Count":
					return Int(int64(strings.Count(a, b))), true
				case "strings.EqualFold":
					return Bool(strings.EqualFold(a, b)), true
				}
			}
			if ok2 {
				if r := holeContains(c.Name, c.Args[0], b); r != nil {
					return r, true
				}
			}
			return OpN("str", c.Name, c.RType, c.Args...), true
		}), true
	case "strings.Repeat":
		return one(func(st *State) (*Term, bool) {
			n, ok := c.Args[1].Int64()
			if ok && n < 1000 {
				r := Str("")
				for i := int64(0); i < n; i++ {
					r = Cat(r, c.Args[0])
				}
				return r, true
			}
			return OpN("str", c.Name, str, c.Args...), true
		}), true
	case "strings.Join":
		return one(func(st *State) (*Term, bool) {
			es, ok := st.elements(c.Args[0], str)
			if !ok {
				return Sym("join", str), true
			}
			r := Str("")
			for i, e := range es {
				if i > 0 {
					r = Cat(r, c.Args[1])
				}
				r = Cat(r, e)
			}
			return r, true
		}), true
	case "strings.TrimSpace", "strings.ToLower", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ReplaceAll", "strings.TrimRight", "strings.TrimLeft", "strings.Trim":
		return one(func(st *State) (*Term, bool) {
			var vs []string
			for _, a := range c.Args {
				s, ok := a.StrVal()
				if !ok {
					return OpN("str", c.Name, str, c.Args...), true
				}
				vs = append(vs, s)
			}
			switch c.Name {
			case "strings.TrimSpace":
				return Str(strings.TrimSpace(vs[0])), true
			case "strings.ToLower":
				return Str(strings.ToLower(vs[0])), true
			case "strings.TrimPrefix":
				return Str(strings.TrimPrefix(vs[0], vs[1])), true
			case "strings.TrimSuffix":
				return Str(strings.TrimSuffix(vs[0], vs[1])), true
			case "strings.TrimRight":
				return Str(strings.TrimRight(vs[0], vs[1])), true
			case "strings.TrimLeft":
				return Str(strings.TrimLeft(vs[0], vs[1])), true
			case "strings.Trim":
				return Str(strings.Trim(vs[0], vs[1])), true
			}
			return Str(strings.ReplaceAll(vs[0], vs[1], vs[2])), true
		}), true
	case "strconv.Itoa":
		return one(func(st *State) (*Term, bool) { return it.fmtArg(st, 'd', Iface(intT, c.Args[0])), true }), true
	case "strconv.Quote":
		return one(func(st *State) (*Term, bool) {
			if s, ok := c.Args[0].StrVal(); ok {
				return Str(fmt.Sprintf("%q", s)), true
			}
			return OpN("str", c.Name, str, c.Args...), true
		}), true
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString", "(*bufio.Writer).WriteString":
		if c.Name == "(*bufio.Writer).WriteString" {
			break
		}
		return one(func(st *State) (*Term, bool) {
			st.bufAdd(c.Args[0], c.Args[1])
			return Op("tuple", StrLen(c.Args[1]), Nil), true
		}), true
	case "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteByte":
		return one(func(st *State) (*Term, bool) {
			x := c.Args[1]
			if n, ok := x.Int64(); ok {
				st.bufAdd(c.Args[0], Str(string([]byte{byte(n)})))
			} else {
				st.bufAdd(c.Args[0], OpT("strof", str, x))
			}
			return Nil, true
		}), true
	case "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteRune":
		return one(func(st *State) (*Term, bool) {
			x := c.Args[1]
			if n, ok := x.Int64(); ok {
				st.bufAdd(c.Args[0], Str(string(rune(n))))
			} else {
				st.bufAdd(c.Args[0], OpT("runestr", str, x))
			}
			return Op("tuple", Int(1), Nil), true
		}), true
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		return one(func(st *State) (*Term, bool) {
			st.bufAdd(c.Args[0], st.StringOfBytes(c.Args[1]))
			return Op("tuple", Len(c.Args[1]), Nil), true
		}), true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(func(st *State) (*Term, bool) { return st.bufGet(c.Args[0]), true }), true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(func(st *State) (*Term, bool) { return StrLen(st.bufGet(c.Args[0])), true }), true
	case "(*bytes.Buffer).Bytes":
		return one(func(st *State) (*Term, bool) { return st.BytesOfString(st.bufGet(c.Args[0])), true }), true
	case "(*bytes.Buffer).WriteTo":
		return one(func(st *State) (*Term, bool) {
			data, ok := st.SliceContent(st.BytesOfString(st.bufGet(c.Args[0])))
			it.nonNil(st, c.Args[1], c.Pos, "call on nil interface")
			res := c.Fresh(st)
			st.event(Event{Kind: "write", Name: c.Name, Recv: c.Args[1], Args: c.Args[:1], Res: res, Pos: c.Pos, In: c.In, Data: Written{data, ok}})
			a := bufKey(c.Args[0])
			st.writes = append(st.writes, a)
			st.mem[a] = Str("")
			return res, true
		}), true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(func(st *State) (*Term, bool) { return nil, true }), true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		return one(func(st *State) (*Term, bool) {
			a := bufKey(c.Args[0])
			st.writes = append(st.writes, a)
			st.mem[a] = Str("")
			return nil, true
		}), true
	case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader":
		if c.Name == "bytes.NewReader" {
			break
		}
		return one(func(st *State) (*Term, bool) {
			a := mk(Term{Op: "alloc", N: "buffer", K: freshID(), T: c.RType})
			s := c.Args[0]
			if c.Name == "bytes.NewBuffer" {
				s = st.StringOfBytes(s)
			}
			st.mem[bufKey(a)] = s
			return a, true
		}), true
	}
	return nil, false
}

// Written is the content passed to a Write.
type Written struct {
	Pieces []*Term
	OK     bool
}

func one(o Outcome) []Outcome { return []Outcome{o} }

var anyT types.Type = types.NewInterfaceType(nil, nil)

func bufKey(a *Term) *Term { return Field(a, 8888, "$content", nil) }

func (st *State) bufGet(a *Term) *Term {
	if v, ok := st.mem[bufKey(a)]; ok {
		return v
	}
	if known(Root(a)) && st.stampOf(a) == 0 {
		return Str("")
	}
	return OpT("bufcontent", types.Typ[types.String], a, Int(st.stampOf(a)))
}

func (st *State) bufAdd(a, s *Term) {
	k := bufKey(a)
	st.writes = append(st.writes, k)
	st.mem[k] = Cat(st.bufGet(a), s)
}

// builderWrite handles Fprintf to a buffer or builder.
func (st *State) builderWrite(w, s *Term) bool {
	if w.Op != "iface" {
		return false
	}
	switch w.Obj.(types.Type).String() {
	case "*bytes.Buffer", "*strings.Builder":
		st.bufAdd(w.Args[0], s)
		return true
	}
	return false
}

// Upper models the case functions on whole strings.
func Upper(name string, x *Term) *Term {
	if s, ok := x.StrVal(); ok {
		if name == "strings.Title" {
			return Str(strings.Title(s))
		}
		return Str(strings.ToUpper(s))
	}
	if name == "strings.Title" {
		if x.Op == "sym" {
			return OpT("cap", types.Typ[types.String], x)
		}
		return OpN("str", name, types.Typ[types.String], x)
	}
	if x.Op == "upper" {
		return x
	}
	return OpT("upper", types.Typ[types.String], x)
}

// holeContains decides substring tests on templates whose holes are
// identifiers or numbers (letters, digits and underscores only).
func holeContains(name string, x *Term, s string) *Term {
	if name != "strings.Contains" && name != "strings.HasPrefix" && name != "strings.HasSuffix" {
		return nil
	}
	word := func(r rune) bool {
		return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
	}
	var parts []*Term
	if x.Op == "cat" {
		parts = x.Args
	} else {
		parts = []*Term{x}
	}
	for _, p := range parts {
		if v, ok := p.StrVal(); ok {
			if name == "strings.Contains" && strings.Contains(v, s) {
				return True
			}
			continue
		}
		if !IsHole(p) {
			return nil
		}
	}
	switch name {
	case "strings.HasPrefix":
		if v, ok := parts[0].StrVal(); ok {
			if strings.HasPrefix(v, s) {
				return True
			}
			if len(v) >= len(s) || !strings.HasPrefix(s, v) {
				return False
			}
		}
		return nil
	case "strings.HasSuffix":
		if v, ok := parts[len(parts)-1].StrVal(); ok {
			if strings.HasSuffix(v, s) {
				return True
			}
			if len(v) >= len(s) {
				return False
			}
		}
		return nil
	}
	// could an occurrence overlap a hole? s must then have a word part
	// matching the hole; a string without word characters that is not in
	// the constant parts cannot occur (holes are not empty).
	anyWord := false
	for _, r := range s {
		if word(r) {
			anyWord = true
		}
	}
	if !anyWord {
		return False
	}
	// s = punct word punct: an occurrence needs "punct<hole>punct"
	i := strings.IndexFunc(s, word)
	j := strings.LastIndexFunc(s, word)
	if i > 0 && j < len(s)-1 {
		pre, post := s[:i], s[j+1:]
		for k, p := range parts {
			if !IsHole(p) {
				continue
			}
			before, after := "", ""
			if k > 0 {
				before, _ = parts[k-1].StrVal()
			}
			if k < len(parts)-1 {
				after, _ = parts[k+1].StrVal()
			}
			if strings.HasSuffix(before, pre) && strings.HasPrefix(after, post) {
				return nil
			}
		}
		return False
	}
	return nil
}

// IsHole reports whether p is an identifier or number placeholder.
func IsHole(p *Term) bool {
	if p.Op == "cap" {
		return IsHole(p.Args[0])
	}
	return p.Op == "sym" && strings.HasPrefix(p.N, "hole:")
}

func boxedString(e *Term) bool {
	if e.Op != "iface" {
		return false
	}
	b, ok := e.Obj.(types.Type).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (it *Interp) sprintf(st *State, c *Call, format, args *Term) *Term {
	str := types.Typ[types.String]
	f, ok := format.StrVal()
	if !ok {
		return Sym("sprintf", str)
	}
	es, ok := st.elements(args, anyT)
	if !ok {
		return Sym("sprintf", str)
	}
	r := Str("")
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			r = Cat(r, Str(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(f) {
			r = Cat(r, Str("%!(NOVERB)"))
			break
		}
		if f[i] == '%' {
			r = Cat(r, Str("%"))
			continue
		}
		idx := -1
		if f[i] == '[' {
			j := strings.IndexByte(f[i:], ']')
			if j > 0 {
				fmt.Sscanf(f[i+1:i+j], "%d", &idx)
				i += j + 1
			}
		}
		flags := ""
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			flags += string(f[i])
			i++
		}
		if i >= len(f) {
			break
		}
		if idx > 0 {
			ai = idx - 1
		}
		if ai >= len(es) {
			r = Cat(r, Str("%!"+string(f[i])+"(MISSING)"))
			continue
		}
		e := es[ai]
		ai++
		if flags != "" {
			r = Cat(r, OpN("fmtarg", flags+string(f[i]), str, e))
			continue
		}
		r = Cat(r, it.fmtArg(st, f[i], e))
	}
	if ai < len(es) {
		r = Cat(r, Str("%!(EXTRA)"))
	}
	return r
}

func (it *Interp) fmtArg(st *State, verb byte, e *Term) *Term {
	str := types.Typ[types.String]
	if e.Op == "iface" {
		dt := e.Obj.(types.Type)
		// types with their own formatting are not expanded
		hasMethod := false
		for _, m := range []string{"String", "Error", "Format", "GoString"} {
			if o, _, _ := types.LookupFieldOrMethod(dt, true, nil, m); o != nil {
				if _, ok := o.(*types.Func); ok {
					hasMethod = true
				}
			}
		}
		if b, ok := dt.Underlying().(*types.Basic); ok && !hasMethod {
			x := e.Args[0]
			switch {
			case b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v'):
				return x
			case b.Info()&types.IsString != 0 && verb == 'q':
				if s, ok := x.StrVal(); ok {
					return Str(fmt.Sprintf("%q", s))
				}
			case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				if n, ok := x.Int64(); ok {
					return Str(fmt.Sprint(n))
				}
			case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
				if v, ok := x.BoolVal(); ok {
					return Str(fmt.Sprint(v))
				}
			}
		}
	}
	return OpN("fmtarg", string(verb), str, e)
}
