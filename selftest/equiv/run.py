# Rewrites of the emitting code that change no behaviour: every check has to
# stay quiet on each. Usage: python3 run.py [names] (CHK, CHECKS, P, W)
import subprocess,sys,os,shutil,concurrent.futures as cf
O='out.go'
A='''	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\\n", valPtr, t.t.goType())
	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\\n", idx, idx, idx)
	res += fmt.Sprintf("%s\\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
	res += fmt.Sprintf("}\\n")
'''
FIX='''	res += fmt.Sprintf("for %s := 0; %s < len(*(%s)); %s++ {\\n", idx, idx, valPtr, idx)
'''
MK=A.split('\n')[0]+'\n'
FOR=A.split('\n')[1]+'\n'
OPT=open('/repo/out.go').read(); a=OPT.index('	res += fmt.Sprintf("if xs.Encoding() {\\n")'); OPT=OPT[a:OPT.index('	return res',a)]
UN=open('/repo/out.go').read(); a=UN.index('	res += fmt.Sprintf("switch %s {\\n", switchName)'); UN=UN[a:UN.index('	return res',a)]
ST='''			res += v.t.goXdr(fmt.Sprintf("&((%s).%s)", valPtr, i(v.n)))
		}
	}
	return res
}

type typeUnion'''
E={
'guard':[(A,'	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\\n", valPtr, t.t.goType())\n	res += "if __arraysz != 0 {\\n"\n'+''.join(l+'\n' for l in A.split('\n')[1:-1])+'	res += "}\\n"\n')],
'range':[(FOR,'	res += fmt.Sprintf("for %s := range *(%s) {\\n", idx, valPtr)\n')],
'intloop':[(FOR,'	res += fmt.Sprintf("for %s := 0; %s < int(__arraysz); %s++ {\\n", idx, idx, idx)\n')],
'lenloop':[(FOR,'	res += fmt.Sprintf("for %s := 0; %s < len(*(%s)); %s++ {\\n", idx, idx, valPtr, idx)\n')],
'u32loop':[(FOR,'	res += fmt.Sprintf("for %s := uint32(0); %s < __arraysz; %s++ {\\n", idx, idx, idx)\n')],
'split':[(A,'''	el := t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx))
	res += fmt.Sprintf("if xs.Decoding() {\\n*(%s) = make([]%s, __arraysz)\\n", valPtr, t.t.goType())
	res += fmt.Sprintf("for %s := range *(%s) {\\n%s}\\n", idx, valPtr, el)
	res += fmt.Sprintf("} else {\\nfor %s := range *(%s) {\\n%s}\\n}\\n", idx, valPtr, el)
''')],
'elemptr':[(A,'''	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\\n", valPtr, t.t.goType())
	res += fmt.Sprintf("for %s := range *(%s) {\\n__e%s := &(*(%s))[%s]\\n", idx, valPtr, idx, valPtr, idx)
	res += t.t.goXdr("__e"+idx)
	res += "}\\n"
'''),('	v := "i"\n	for strings.Contains(valPtr, "["+v+"]") {','	v := "i"\n	for strings.Contains(valPtr, "["+v+"]") || strings.Contains(valPtr, "__e"+v) {')],
'locallist':[(A,'''	res += fmt.Sprintf("__l%s := *(%s)\\nif xs.Decoding() { __l%s = make([]%s, __arraysz); *(%s) = __l%s }\\n", idx, valPtr, idx, t.t.goType(), valPtr, idx)
	res += fmt.Sprintf("for %s := range __l%s {\\n%s}\\n", idx, idx, t.t.goXdr(fmt.Sprintf("&(__l%s[%s])", idx, idx)))
''')],
'fixrange':[(FIX,'	res += fmt.Sprintf("for %s := range *(%s) {\\n", idx, valPtr)\n')],
'opt-one':[(OPT,'''	res += "{\\n"
	res += fmt.Sprintf("opted := xs.Encoding() && *(%s) != nil\\n", valPtr)
	res += typeBool{}.goXdr("&opted")
	res += fmt.Sprintf("if xs.Decoding() {\\n*(%s) = nil\\nif opted { *(%s) = new(%s) }\\n}\\n", valPtr, valPtr, t.t.goType())
	res += fmt.Sprintf("if opted {\\n%s}\\n", t.t.goXdr(fmt.Sprintf("*(%s)", valPtr)))
	res += "}\\n"
''')],
'opt-else':[(OPT,OPT.replace('''	res += fmt.Sprintf("}\\n")

	res += fmt.Sprintf("if xs.Decoding() {\\n")
''','''	res += fmt.Sprintf("} else if xs.Decoding() {\\n")
'''))],
'caselist':[(UN,'''	res += fmt.Sprintf("switch %s {\\n", switchName)
	for _, c := range t.cases.cases {
		var names []string
		for _, cval := range c.cases {
			names = append(names, i(cval))
		}
		res += fmt.Sprintf("case %s:\\n", strings.Join(names, ", "))
		switch v := c.body.(type) {
		case declName:
			res += v.t.goXdr(fmt.Sprintf("&((%s).%s)", valPtr, i(v.n)))
		}
	}
	if t.cases.def != nil {
		res += "default:\\n"
		switch v := t.cases.def.(type) {
		case declName:
			res += v.t.goXdr(fmt.Sprintf("&((%s).%s)", valPtr, i(v.n)))
		}
	}
	res += "}\\n"
''')],
'ifchain':[(UN,'''	for _, c := range t.cases.cases {
		var conds []string
		for _, cval := range c.cases {
			conds = append(conds, fmt.Sprintf("%s == %s", switchName, i(cval)))
		}
		body := ""
		switch v := c.body.(type) {
		case declName:
			body = v.t.goXdr(fmt.Sprintf("&((%s).%s)", valPtr, i(v.n)))
		}
		res += fmt.Sprintf("if %s {\\n%s} else ", strings.Join(conds, " || "), body)
	}
	body := ""
	if t.cases.def != nil {
		switch v := t.cases.def.(type) {
		case declName:
			body = v.t.goXdr(fmt.Sprintf("&((%s).%s)", valPtr, i(v.n)))
		}
	}
	res += fmt.Sprintf("{\\n%s}\\n", body)
''')],
'fieldptr':[(ST,ST.replace('''res += v.t.goXdr(fmt.Sprintf("&((%s).%s)", valPtr, i(v.n)))''','''res += fmt.Sprintf("{\\n__f := &(%s).%s\\n%s}\\n", valPtr, i(v.n), v.t.goXdr("__f"))'''))],
'bail':[(ST,ST.replace('''i(v.n)))
''','''i(v.n))) + "if xs.Error() != nil { return }\\n"
''',1))],
'enumtmp':[('''	fmt.Fprintf(out, "%s", typeInt{*unsignedEnumFlag}.goXdr("v"))
''','''	fmt.Fprintf(out, "n := %s(*v)\\n%s*v = %s(n)\\n", t, typeInt{*unsignedEnumFlag}.goXdr("&n"), i(ident))
''')],
'earlyret':[('''" { xs.SetError(\\"array too large\\") } else {\\n"'''.replace('" {','%s) { ').replace('{  ','{ '),'')],
'fields':[('''	fmt.Fprintf(out, "%s", typeStruct{val}.goXdr("v"))
	fmt.Fprintf(out, "}\\n")
''','''	fmt.Fprintf(out, "v.xdrMembers(xs)\\n}\\n")
	fmt.Fprintf(out, "func (v *%s) xdrMembers(xs *xdr.XdrState) {\\n", i(ident))
	fmt.Fprintf(out, "%s", typeStruct{val}.goXdr("v"))
	fmt.Fprintf(out, "}\\n")
''')],
'selfcopy':[('''	fmt.Fprintf(out, "%s", typeStruct{val}.goXdr("v"))
''','''	fmt.Fprintf(out, "if v == nil { panic(\\"nil\\") }\\n%s", typeStruct{val}.goXdr("v"))
''')],
}
E['earlyret']=[('''{ xs.SetError(\\"array too large\\") } else {\\n", i(t.sz))
	}''','''{ xs.SetError(\\"array too large\\"); return }\\n", i(t.sz))
	}'''),('''	res += fmt.Sprintf("}\\n")
	if t.sz != "" {
		res += fmt.Sprintf("}\\n")
	}
''','''	res += fmt.Sprintf("}\\n")
''')]
CH=os.environ.get('CHECKS','C02 C03 C04 C05 C06 C07 C21 C22 C23 C24 C25 C30 C32 C33').split()
def one(n):
    d='/tmp/equiv-'+n
    shutil.rmtree(d,ignore_errors=True); subprocess.run(['cp','-a','/repo',d])
    for o,w in E[n]:
        f=O
        s=open(d+'/'+f).read()
        if s.count(o)!=1: return n,['EDIT %d: %r'%(s.count(o),o[:60])]
        open(d+'/'+f,'w').write(s.replace(o,w))
    r=subprocess.run(['go','build','./...'],cwd=d,capture_output=True,text=True)
    if r.returncode: return n,['BUILD '+r.stderr[:400]]
    res=[]
    for c in CH:
        r=subprocess.run(['timeout','300',os.environ.get('CHK','/tmp/chk'),'-id',c,'-repo',d,'-verif','/verif'],env=dict(os.environ,VERIF_DEBUG='1'),capture_output=True,text=True)
        if r.returncode:
            res.append(c+' rc=%d '%r.returncode+'\n   '.join(l[:int(os.environ.get('W','260'))] for l in r.stdout.split('\n') if 'KNOWN' not in l and 'VIOL' not in l)[:900])
    shutil.rmtree(d)
    return n,res
names=sys.argv[1:] or list(E)
with cf.ThreadPoolExecutor(int(os.environ.get('P','4'))) as ex:
    for n,r in ex.map(one,names):
        print(n,'quiet' if not r else 'ALARM',flush=True)
        for x in r: print('  ',x,flush=True)
