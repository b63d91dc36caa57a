O='out.go'; SCN='scan.go'; MAIN='main.go'; Y='xdr.y'
R=open('/repo/out.go').read(); M=open('/repo/main.go').read(); SC=open('/repo/scan.go').read()
E={}
BODY=R[R.index('			if !c.arg.isVoid {\n				fmt.Fprintf(out, "var in'):R.index('			fmt.Fprintf(out, "return &out, nil")')]
E['h-in-if']=[(O,'''				fmt.Fprintf(out, "in.Xdr(args)\\n")
				fmt.Fprintf(out, "err = args.Error()\\n")
				fmt.Fprintf(out, "if err != nil { return }\\n")
''','''				fmt.Fprintf(out, "in.Xdr(args)\\n")
				fmt.Fprintf(out, "if err := args.Error(); err != nil { return nil, err }\\n")
''')]
E['h-one-line']=[(O,BODY,'''			arg := ""
			if !c.arg.isVoid {
				fmt.Fprintf(out, "var in %s\\n", c.arg.t.goType())
				fmt.Fprintf(out, "in.Xdr(args)\\n")
				fmt.Fprintf(out, "err = args.Error()\\n")
				fmt.Fprintf(out, "if err != nil { return }\\n")
				arg = "in"
			}
			if c.res.isVoid {
				fmt.Fprintf(out, "w.h.%s(%s)\\nvar out xdr.Void\\n", i(c.name), arg)
			} else {
				fmt.Fprintf(out, "out := w.h.%s(%s)\\n", i(c.name), arg)
			}
''')]
E['h-named-res']=[(O,'			fmt.Fprintf(out, "return &out, nil")\n','			fmt.Fprintf(out, "res = &out\\nreturn")\n')]
E['h-new']=[(O,'''				fmt.Fprintf(out, "var in %s\\n", c.arg.t.goType())
''','''				fmt.Fprintf(out, "in := new(%s)\\n", c.arg.t.goType())
'''),(O,'				fmt.Fprintf(out, "in")\n','				fmt.Fprintf(out, "*in")\n')]
E['regs-append']=[(O,R[R.index('		fmt.Fprintf(out, "return []xdr.ProcRegistration{\\n")\n'):R.index('func emitConst')],'''		fmt.Fprintf(out, "var regs []xdr.ProcRegistration\\n")
		for _, c := range v.calls {
			fmt.Fprintf(out, "regs = append(regs, xdr.ProcRegistration{Prog: %s, Vers: %s, Proc: %s, Handler: w.%s})\\n", i(d.name), i(v.name), i(c.name), i(c.name))
		}
		fmt.Fprintf(out, "return regs\\n}\\n")
	}
}

''')]
E['regs-closure']=[(O,'			fmt.Fprintf(out, "Handler: w.%s,\\n", i(c.name))\n','			fmt.Fprintf(out, "Handler: func(args *xdr.XdrState) (xdr.Xdrable, error) { return w.%s(args) },\\n", i(c.name))\n')]
E['prog-names']=[(O,'	for _, v := range d.vers {\n		fmt.Fprintf(tout','	for _, v := range d.vers {\n		base := i(d.name) + "_" + i(v.name)\n		fmt.Fprintf(tout'),
 (O,'''		fmt.Fprintf(out, "type %s_%s_handler interface {\\n", i(d.name), i(v.name))
''','''		fmt.Fprintf(out, "type %s_handler interface {\\n", base)
'''),(O,'''		fmt.Fprintf(out, "type %s_%s_handler_wrapper struct {\\n", i(d.name), i(v.name))
		fmt.Fprintf(out, "h %s_%s_handler\\n", i(d.name), i(v.name))
''','''		fmt.Fprintf(out, "type %s_handler_wrapper struct {\\nh %s_handler\\n", base, base)
''')]
E['const-last']=[(O,'''		fmt.Fprintf(tout, "const %s uint32 = %s\\n", i(v.name), v.id)

		for''','''		for'''),(O,'''		fmt.Fprintf(out, "type %s_%s_handler interface {\\n"''','''		fmt.Fprintf(tout, "const %s uint32 = %s\\n", i(v.name), v.id)

		fmt.Fprintf(out, "type %s_%s_handler interface {\\n"''')]
E['const-block']=[(O,'''	for _, v := range val {
		fmt.Fprintf(tout, "const %s %s = %s\\n", i(v.name), i(ident), i(v.val))
	}
''','''	if len(val) > 0 {
		fmt.Fprintf(tout, "const (\\n")
		for _, v := range val {
			fmt.Fprintf(tout, "%s %s = %s\\n", i(v.name), i(ident), i(v.val))
		}
		fmt.Fprintf(tout, ")\\n")
	}
''')]
E['const-conv']=[(O,'		fmt.Fprintf(tout, "const %s %s = %s\\n", i(v.name), i(ident), i(v.val))\n','		fmt.Fprintf(tout, "const %s = %s(%s)\\n", i(v.name), i(ident), i(v.val))\n')]
E['struct-shared']=[(O,'''	fmt.Fprintf(tout, "type %s struct {\\n", i(ident))
	for _, v := range val {
		switch v := v.(type) {
		case declName:
			fmt.Fprintf(tout, "  %s %s;\\n", i(v.n), v.t.goType())
		}
	}
	fmt.Fprintf(tout, "}\\n")
''','''	fmt.Fprintf(tout, "type %s %s\\n", i(ident), typeStruct{val}.goType())
''')]
E['ident-rune']=[(O,'''	switch ident {
	case "TRUE":
		return "true"
	case "FALSE":
		return "false"
	default:
		return strings.ToUpper(ident[:1]) + ident[1:]
	}
''','''	if b, ok := map[string]string{"TRUE": "true", "FALSE": "false"}[ident]; ok {
		return b
	}
	return strings.ToUpper(string(ident[0])) + ident[1:]
''')]
E['decl-if']=[(O,'''	switch v := d.(type) {
	case declName:
		return fmt.Sprintf("%s %s;", i(v.n), v.t.goType())
	}

	return ""
''','''	v, named := d.(declName)
	if !named {
		return ""
	}
	return i(v.n) + " " + v.t.goType() + ";"
''')]
E['loopvar-n']=[(O,'''	v := "i"
	for strings.Contains(valPtr, "["+v+"]") {
		v += "i"
	}
	return v
''','''	for n := 0; ; n++ {
		if v := fmt.Sprintf("i%d", n); !strings.Contains(valPtr, "["+v+"]") {
			return v
		}
	}
''')]
E['checknamed-sw']=[(O,'''	if _, ok := t.t.(typeIdent); !ok {
		panic(''','''	switch t.t.(type) {
	case typeIdent:
	default:
		panic(''')]
E['scan-punct']=[(SCN,SC[SC.index("	case token.ASSIGN:\n"):SC.index('	case token.INT:\n')],'''	case token.ASSIGN, token.SEMICOLON, token.COLON, token.LSS, token.GTR, token.LBRACK, token.RBRACK,
		token.LBRACE, token.RBRACE, token.COMMA, token.LPAREN, token.RPAREN, token.MUL:
		return int(tok.String()[0])

''')]
kw=SC[SC.index('		switch lit {\n'):SC.index('	case token.ASSIGN:')]
import re
pairs=re.findall(r'case "(\w+)":\s+return (KW\w+)',kw)
E['scan-kwmap']=[(SCN,kw,'		if kw, ok := keywords[lit]; ok {\n			return kw\n		}\n		lval.str = lit\n		return IDENT\n\n'),(SCN,'const eof = 0\n','const eof = 0\n\nvar keywords = map[string]int{\n'+''.join('	"%s": %s,\n'%p for p in pairs)+'}\n')]
E['scan-helper']=[(SCN,'''	pos, tok, lit := l.s.Scan()
	for tok == token.SEMICOLON && lit != ";" {
		// Inserted by the scanner at the end of a line (as in Go)
		pos, tok, lit = l.s.Scan()
	}
''','''	pos, tok, lit := l.next()
'''),(SCN,'func (l *lexer) Error(','''// next skips the semicolons that the scanner inserts at line ends.
func (l *lexer) next() (pos token.Pos, tok token.Token, lit string) {
	for {
		pos, tok, lit = l.s.Scan()
		if tok == token.SEMICOLON && lit == "\\n" {
			continue
		}
		return
	}
}

func (l *lexer) Error(''')]
E['main-usage']=[(MAIN,M[M.index('	if *inputFile == "" {'):M.index('	src, err')],'''	for _, f := range []struct{ val, msg string }{
		{*inputFile, "Must specify input file (-i)"},
		{*outputFile, "Must specify output file (-o)"},
	} {
		if f.val == "" {
			fmt.Fprintln(os.Stderr, f.msg)
			os.Exit(1)
		}
	}

''')]
E['main-tmp']=[(MAIN,'''	outTmp := *outputFile + ".tmp"
	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		panic(err)
	}
''','''	outTmp, outf := createTmp(*outputFile)
'''),(MAIN,'''		toutTmp = *typesFile + ".tmp"
		toutf, err = os.OpenFile(toutTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
		if err != nil {
			panic(err)
		}
''','''		toutTmp, toutf = createTmp(*typesFile)
'''),(MAIN,'func refmt(','''// createTmp creates the temporary file for an output.
func createTmp(name string) (string, *os.File) {
	tmp := name + ".tmp"
	f, err := os.OpenFile(tmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE, 0666)
	if err != nil {
		panic(err)
	}
	return tmp, f
}

func refmt(''')]
E['main-bytes']=[(MAIN,'''	fmt.Fprintf(out, "package %s\\n", *outputPackage)
	fmt.Fprintf(out, "import''','''	io.WriteString(out, "package "+*outputPackage+"\\n")
	fmt.Fprintf(out, "import''')]
E['y-recursion']=[(Y,'''structdecls: { $$ = nil } | structdecls decl ';'
  { $$ = append($1, $2) }
''','''structdecls:
  { $$ = []decl{} }
| structdecls onedecl
  { $$ = append($1, $2) }

onedecl: decl ';'
  { $$ = $1 }
'''),(Y,'%type <decl> decl\n','%type <decl> decl onedecl\n')]
E['y-default']=[(Y,'''unioncasesdef: unioncases
  { $$ = unionCasesDef{$1, nil} }
| unioncases KWDEFAULT ':' decl ';'
  { $$ = unionCasesDef{$1, $4} }
''','''unioncasesdef: unioncases maybedefault
  { $$ = unionCasesDef{cases: $1, def: $2} }

maybedefault:
  { $$ = nil }
| KWDEFAULT ':' decl ';'
  { $$ = $3 }
'''),(Y,'%type <decl> decl\n','%type <decl> decl maybedefault\n')]
E['y-unsig']=[(Y,'''maybeunsig: { $$ = false } | KWUNSIGNED { $$ = true }
''','''maybeunsig:
  { $$ = false }
| KWUNSIGNED
  { $$ = true }
'''),(Y,'''typespec: maybeunsig KWINT
  { $$ = typeInt{$1} }
''','''typespec: maybeunsig KWINT
  { $$ = typeInt{unsig: $1} }
''')]
GEN='C21 C22 C23 C24 C25 C30 C32 C33 C06 C11'
CHK={O:GEN,SCN:GEN,MAIN:GEN,Y:GEN}
