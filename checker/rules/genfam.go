package rules

import (
	"fmt"
	"strings"
)

// genFam is a family of definitions given to the generator together.
type genFam struct {
	name  string
	spec  string
	flags map[string]string
}

const genPrelude = `
const MAX = 6;
const big_max = 0x1F;
enum color { RED = 1, GREEN = 2, BLUE = 0x10 };
struct pt { int x; unsigned hyper y; };
union res switch (color c) { case RED: int code; case GREEN: pt where; default: void; };
typedef int num;
typedef unsigned hyper cookie;
typedef string name<255>;
typedef opaque handle<MAX>;
typedef opaque verf[8];
typedef int triple[3];
typedef pt pts<>;
typedef pt *maybe;
`

var genNamed = []string{"color", "pt", "res", "num", "cookie", "name", "handle", "verf", "triple", "pts", "maybe"}
var genPrim = []string{"int", "unsigned int", "hyper", "unsigned hyper", "bool"}

// forms of declarators around a type specifier; N is the name.
var genDecl = []string{"T N", "T N[3]", "T N[MAX]", "T N<>", "T N<5>", "T N<big_max>", "T *N"}
var genBytes = []string{"opaque N[5]", "opaque N[4]", "opaque N[MAX]", "opaque N<>", "opaque N<7>", "opaque N<MAX>", "string N<>", "string N<9>", "string N<big_max>"}

type genBuf struct {
	strings.Builder
	n int
}

func (b *genBuf) name(p string) string {
	b.n++
	return fmt.Sprintf("%s%d", p, b.n)
}

func declOf(form, t, name string) string {
	r := strings.Replace(form, "T", t, 1)
	if !strings.HasPrefix(form, "T") {
		r = form
	}
	i := strings.LastIndex(r, "N")
	if strings.Contains(r, "[MAX]") || strings.Contains(r, "<MAX>") {
		i = strings.LastIndex(strings.NewReplacer("MAX", "___").Replace(r), "N")
	}
	return r[:i] + name + r[i+1:]
}

// contexts puts a declaration into every place the language has for it.
func (b *genBuf) contexts(decl func(name string) string) {
	fmt.Fprintf(b, "typedef %s;\n", decl(b.name("t")))
	fmt.Fprintf(b, "struct %s { unsigned int first; %s; hyper last; };\n", b.name("s"), decl("field_a"))
	fmt.Fprintf(b, "union %s switch (int which) { case 1: bool flag; case 2: case 7: %s; case 3: void; };\n", b.name("u"), decl("arm_b"))
	fmt.Fprintf(b, "union %s switch (unsigned int sel) { case 0: void; case 4: %s; default: %s; };\n", b.name("d"), decl("only"), decl("Other"))
}

// genDecls: every declarator of every type specifier in every context.
func genDecls() genFam {
	b := &genBuf{}
	b.WriteString(genPrelude)
	for _, t := range append(append([]string{}, genPrim...), genNamed...) {
		for _, f := range genDecl {
			b.contexts(func(n string) string { return declOf(f, t, n) })
		}
	}
	for _, f := range genBytes {
		b.contexts(func(n string) string { return declOf(f, "", n) })
	}
	return genFam{name: "declarations", spec: b.String()}
}

func inlineStruct(d string) string { return "struct { int head; " + d + "; bool tail; }" }
func inlineUnion(d string) string {
	return "union switch (unsigned int tag) { case 0: " + d + "; case 1: void; case 2: int plain; }"
}
func inlineDefault(d string) string {
	return "union switch (bool tag) { case TRUE: opaque raw[3]; default: " + d + "; }"
}

// genNest: inline structs and unions within declarators, two levels.
func genNest() genFam {
	b := &genBuf{}
	b.WriteString(genPrelude)
	var inner []string
	for _, f := range []string{"T N", "T N[3]", "T N<5>", "T N<>", "T *N"} {
		inner = append(inner, declOf(f, "int", "inn"), declOf(f, "pt", "inn"))
	}
	for _, f := range []string{"opaque N[5]", "opaque N<MAX>", "string N<9>"} {
		inner = append(inner, declOf(f, "", "inn"))
	}
	for _, in := range inner {
		for _, wrap := range []func(string) string{inlineStruct, inlineUnion, inlineDefault} {
			for _, f := range []string{"T N", "T N[2]", "T N<4>", "T N<>", "T *N"} {
				b.contexts(func(n string) string { return declOf(f, wrap(in), n) })
			}
		}
	}
	return genFam{name: "nested", spec: b.String()}
}

// genMixed: one inline structure or union in every kind of declarator, and
// bounds that are not small.
func genMixed() genFam {
	b := &genBuf{}
	b.WriteString(genPrelude)
	b.WriteString("const HUGE = 0x7fffffff;\n")
	var inner []string
	for _, f := range []string{"T N", "T N[3]", "T N<HUGE>", "T N<>", "T *N"} {
		inner = append(inner, declOf(f, "pt", "inn"))
	}
	for i, in := range append(inner, "opaque inn<MAX>") {
		for j, wrap := range []func(string) string{inlineStruct, inlineUnion, inlineDefault} {
			for k, f := range []string{"T N[2]", "T N<100000>", "T N<>", "T *N"} {
				d := declOf(f, wrap(in), "field_a")
				switch (i + j + k) % 3 {
				case 0:
					fmt.Fprintf(b, "typedef %s;\n", declOf(f, wrap(in), b.name("t")))
				case 1:
					fmt.Fprintf(b, "struct %s { unsigned int first; %s; hyper last; };\n", b.name("s"), d)
				case 2:
					fmt.Fprintf(b, "union %s switch (int which) { case 1: bool flag; case 2: %s; default: void; };\n", b.name("u"), d)
				}
			}
		}
	}
	for _, t := range []string{"int", "hyper", "pt", "name", "maybe", "bool", "color", "res"} {
		for _, f := range []string{"T N<100000>", "T N<HUGE>", "T N<0xffffffff>"} {
			fmt.Fprintf(b, "typedef %s;\n", declOf(f, t, b.name("t")))
			fmt.Fprintf(b, "struct %s { int first; %s; %s; hyper last; };\n", b.name("s"), declOf(f, t, "a"), declOf("T N<>", t, "b"))
		}
	}
	return genFam{name: "mixed", spec: b.String()}
}

// genDeep: three and more levels of arrays and optionals.
func genDeep(depth int) genFam {
	b := &genBuf{}
	b.WriteString(genPrelude)
	forms := []string{"T N", "T N[2]", "T N<4>", "T N<>", "T *N"}
	var rec func(d int, t string)
	rec = func(d int, t string) {
		for i, f := range forms {
			x := declOf(f, t, "lvl"+fmt.Sprint(d))
			if d == depth {
				fmt.Fprintf(b, "typedef %s;\n", declOf(f, t, b.name("t")))
				continue
			}
			wrap := inlineStruct
			if (d+i)%3 == 2 {
				wrap = inlineUnion
			}
			rec(d+1, wrap(x))
		}
	}
	rec(1, "pt")
	return genFam{name: fmt.Sprintf("deep%d", depth), spec: b.String()}
}

// genUnions: discriminants, case lists and defaults.
func genUnions() genFam {
	b := &genBuf{}
	b.WriteString(genPrelude)
	b.WriteString("const first = 0;\nconst SECOND = 0x2;\nconst third_one = 012;\ntypedef bool yes;\ntypedef unsigned int sel;\ntypedef color colour;\n")
	disc := map[string][]string{
		"int": {"first", "SECOND", "third_one", "77", "0x20", "030"}, "unsigned int": {"first", "SECOND", "third_one", "77", "0xff", "4294967295"},
		"bool": {"TRUE", "FALSE"}, "yes": {"TRUE", "FALSE"}, "sel": {"first", "SECOND", "third_one", "1", "3", "9"}, "num": {"first", "1", "2", "3", "4", "5"},
		"color": {"RED", "GREEN", "BLUE"}, "hyper": {"first", "SECOND", "7", "8", "9"}, "unsigned hyper": {"first", "1", "0x7fffffffffffffff"}, "cookie": {"5", "6", "7"},
	}
	for _, d := range sortedKeys(disc) {
		vs := disc[d]
		cas := func(k int) string { return "case " + vs[k%len(vs)] + ": " }
		all := ""
		for k := range vs {
			all += cas(k)
		}
		n := func() string { return b.name("u") }
		fmt.Fprintf(b, "union %s switch (%s dd) { %sint aa; };\n", n(), d, cas(0))
		fmt.Fprintf(b, "union %s switch (%s dd) { %svoid; };\n", n(), d, cas(1))
		fmt.Fprintf(b, "union %s switch (%s dd) { %sint aa; default: void; };\n", n(), d, all)
		fmt.Fprintf(b, "union %s switch (%s dd) { %svoid; default: int aa; };\n", n(), d, all)
		if len(vs) > 2 {
			fmt.Fprintf(b, "union %s switch (%s dd) { %s%sstring aa<9>; %spt bb; };\n", n(), d, cas(0), cas(2), cas(1))
			fmt.Fprintf(b, "union %s switch (%s dd) { %svoid; %sint aa; %svoid; default: hyper bb; };\n", n(), d, cas(2), cas(1), cas(0))
		}
		fmt.Fprintf(b, "union %s switch (%s dd) { %sint aa; %sunsigned int bb; };\n", n(), d, cas(1), cas(0))
		fmt.Fprintf(b, "struct %s { int before; union switch (%s dd) { %sint aa; default: void; } uu; int after; };\n", b.name("s"), d, cas(0))
		fmt.Fprintf(b, "union %s switch (%s dd) { default: int aa; };\n", n(), d)
	}
	return genFam{name: "unions", spec: b.String()}
}

// genShapes: structures, recursion, order of definitions.
func genShapes() genFam {
	return genFam{name: "shapes", spec: genPrelude + `
struct empty { };
struct gaps { void; int a; void; int b; };
struct node { int v; node *next; };
struct tree { name label; tree *left; tree *right; opaque sum[4]; };
typedef later *laterp;
struct later { laterp more; hyper h; };
struct ping { int n; pong *other; };
struct pong { bool b; ping *other; };
union expr switch (int op) { case 0: int lit; case 1: struct { expr *l; expr *r; } bin; default: void; };
struct wide { int a; int b; int c; int d; int e; hyper f; hyper g; bool h; string i<>; opaque j<3>; opaque k[7]; color l; pt m; res n; triple o; };
struct lists { wide w<2>; res r[2]; name names<>; handle hs<4>; verf vs[3]; maybe ms<3>; pts many<2>; };
typedef struct { int i; struct { int i; struct { int i<3>; } ii<3>; } iii<3>; } deep<3>;
struct CamelCase { int camelCase; int CAMEL; int under_score; int d1g1t; int x; };
typedef CamelCase camelAlias;
typedef camelAlias again;
struct holder { pt pt; res *res; name name<2>; handle handle[2]; num MAX; pts Xdr_; struct { color color; } holder; };
union chooser switch (color color) { case RED: pt pt; case GREEN: cookie cookie; default: verf verf; };
struct uses { again a; camelAlias b<>; CamelCase c[2]; };
`}
}

// genRecArrays: types that contain arrays of themselves.
func genRecArrays() genFam {
	return genFam{name: "recursive-arrays", spec: genPrelude + `
struct rtree { int label; rtree kids<>; };
struct rbound { int label; rbound kids<2>; rbound *more; opaque data<>; };
union rexpr switch (int op) { case 0: int lit; case 1: rexpr args<MAX>; case 2: string name<>; default: void; };
`}
}

// genNames: names, constants and numbers in every spelling and position.
func genNames() genFam {
	return genFam{name: "names", spec: `
const A = 0;
const b = 1;
const Cc = 0x1f;
const d_d = 017;
const E9 = 4294967295;
const lower_case_name = 0xDEADBEEF;
const MixedCase = 00;
const z = 0XAB;
enum small { s_a = 0, S_B = b, sC = 2, s_d = 0x7fffffff, s_e = 010, s_f = Cc };
enum Other { oA = E9_, O_B = A };
const E9_ = 9;
enum more { s_a2 = 3, m_one = 1, M_TWO = 0x2 };
struct bounds { int f0[b]; int f1<Cc>; opaque f2[d_d]; opaque f3<lower_case_name>; string f4<E9>; int f5[m_one]; hyper f6<M_TWO>; string f7<s_a2>; opaque f8<0x20>; int f9[010]; };
typedef opaque t0[Cc];
typedef string t1<d_d>;
typedef bounds t2<M_TWO>;
union cases switch (int d) { case A: int a0; case b: case Cc: int a1; case d_d: void; case 0x30: int a2; case 0100: int a3; };
union ecases switch (small d) { case s_a: case S_B: int a0; case sC: hyper a1; case s_d: void; default: bool a2; };
union bcases switch (bool d) { case TRUE: int a0; case FALSE: void; };
struct inner { struct { int q<b>; } w[sz]; union switch (more d) { case m_one: int a; case M_TWO: void; } u; };
const sz = 2;
struct near { int ab; hyper aB; unsigned int a_b; bool ab_; int ab1; hyper ab10; opaque abc[2]; string a<>; near2 abcd; nea *aBC; int v; int xs; hyper xss; };
struct nea { int near; int ne; };
struct near2 { int near; hyper nea; };
union nEar switch (int ne) { case 1: int nea; case 2: hyper nEa; default: bool n_e; };
enum nearE { ne_a = 1, nea_ = 2, neA_ = 3, ne_A = 4 };
const near_c = 1;
const neaR_c = 2;
struct nears { int x<near_c>; int y<neaR_c>; opaque z[neA_]; };
enum dup { du_a = 4, du_b = 9, du_c = 4, du_d = Cc, du_e = Cc, du_f = du_a, du_g = 9 };
enum single { only_one = 1 };
program PROG_A { version Vers_one { void null_p(void) = 0; bounds Get(t0) = 1; t1 put_it(cases) = 0x2; } = 1; version vers_two { void nil_p(void) = 0; } = 0x10; } = 0x20000001;
program prog_b { version b_vers { t2 last_p(void) = 077; } = 4294967295; } = 536870913;
`}
}

// genProgs: program definitions.
func genProgs() []genFam {
	types := genPrelude + "struct extra { int e; };\n"
	var r []genFam
	add := func(n, s string) { r = append(r, genFam{name: n, spec: types + s}) }
	add("prog-none", "program P0 { } = 5;\nprogram P1 { version V1 { } = 1; } = 6;\n")
	add("prog-one", "program P { version V { void null_proc(void) = 0; } = 1; } = 100;\n")
	add("prog-mixed", `program P { version V { void none(void) = 0; pt get(void) = 1; void put(res) = 2; name swap(handle) = 3; maybe opt(triple) = 9; pts all(pt) = 4; color col(verf) = 5; cookie ck(num) = 0x10; } = 3; } = 400000;
`)
	add("prog-versions", `program FIRST { version F1 { void f1null(void) = 0; pt f1get(num) = 1; } = 1; version F2 { pt f2get(num) = 1; void f2null(void) = 0; extra f2x(pt) = 7; } = 2; version F9 { void f9put(extra) = 1; } = 9; } = 0x20000099;
program second { version s1 { void s1null(void) = 0; pt s1get(num) = 1; } = 1; } = 77;
`)
	add("prog-same", `program PING { version PING_ORIG { void ping_null(void) = 0; } = 1; version PING_BACK { void ping_null(void) = 0; num ping_back(num) = 1; } = 2; } = 1;
`)
	var many strings.Builder
	n := 0
	nm := func() string { n++; return fmt.Sprintf("many%d", n) }
	for i, vers := range []int{1, 24, 3} {
		fmt.Fprintf(&many, "program %s {", nm())
		for v := 0; v < vers; v++ {
			fmt.Fprintf(&many, " version %s {", nm())
			for q := 0; q < []int{40, 2, 12}[i]; q++ {
				fmt.Fprintf(&many, " %s %s(%s) = %d;", []string{"void", "pt", "num"}[(q+i)%3], nm(), []string{"void", "extra", "pt", "num"}[q%4], q*q)
			}
			fmt.Fprintf(&many, " } = %d;", v+1)
		}
		fmt.Fprintf(&many, " } = %d;\n", 300+i)
	}
	add("prog-many", many.String())
	return r
}

// genMany: lists of n elements, and the greatest bounds.
func genMany(n int) genFam {
	b := &genBuf{}
	b.WriteString("typedef int w1<4294967295>;\ntypedef opaque w2<4294967295>;\nstruct w3 { string s<4294967295>; pt a<0xffffffff>; unsigned hyper b<2147483648>; };\ntypedef bool w4<0>;\ntypedef opaque w5<0>;\ntypedef opaque w6[0];\ntypedef color w7[0];\ntypedef string w8<0>;\n")
	fmt.Fprintf(b, "struct many%d_s {", n)
	for i := 0; i < n; i++ {
		fmt.Fprintf(b, " %s;", declOf(genDecl[0], append(genPrim, genNamed...)[i%(len(genPrim)+len(genNamed))], b.name("m")))
	}
	fmt.Fprintf(b, " };\nunion many%d_u switch (int d) {", n)
	for i := 0; i < n; i++ {
		fmt.Fprintf(b, " case %d: %s;", i*i, declOf(genDecl[0], append(genNamed, genPrim...)[i%(len(genPrim)+len(genNamed))], b.name("a")))
	}
	fmt.Fprintf(b, " };\nunion many%d_c switch (unsigned int d) {", n)
	for i := 0; i < n; i++ {
		fmt.Fprintf(b, " case %d:", i+3)
	}
	fmt.Fprintf(b, " hyper h; default: void; };\nenum many%d_e {", n)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(b, " %s = %d", b.name("i"), 7*i)
	}
	b.WriteString(" };\n")
	return genFam{name: fmt.Sprintf("many-%d", n), spec: genPrelude + b.String()}
}

// genRejects: constructs without support; each must make the generator fail.
func genRejects() map[string]string {
	r := map[string]string{}
	for _, t := range []string{"float", "double", "quadruple", "enum { ONE = 1, TWO = 2 }"} {
		k := strings.Fields(t)[0]
		for i, f := range genDecl {
			b := &genBuf{}
			b.contexts(func(n string) string { return declOf(f, t, n) })
			for j, l := range strings.Split(strings.TrimSpace(b.String()), "\n") {
				r[fmt.Sprintf("%s-%d-%d", k, i, j)] = genPrelude + l + "\n"
			}
		}
		r[k+"-inner"] = genPrelude + "struct s { struct { int a; " + t + " b; } c; };\n"
		r[k+"-inner-array"] = genPrelude + "typedef struct { " + t + " b<>; } c<>;\n"
		r[k+"-inner-union"] = genPrelude + "typedef union switch (int d) { case 1: " + t + " b; } c;\n"
		r[k+"-inner-default"] = genPrelude + "typedef union switch (int d) { case 1: void; default: " + t + " b; } c;\n"
		r[k+"-optional"] = genPrelude + "struct s { struct { " + t + " x; } *p; };\n"
		r[k+"-disc"] = genPrelude + "union u switch (" + t + " d) { case 1: int a; };\n"
	}
	r["void-disc"] = genPrelude + "union u switch (void) { case 1: int a; };\n"
	return r
}

// genProcTypes: argument and result types other than names; the generator may
// refuse them.
func genProcTypes() map[string]string {
	r := map[string]string{}
	for _, t := range append(append([]string{}, genPrim...), "float", "double", "quadruple", "enum { ONE = 1 }", "struct { int a; }", "union switch (int d) { case 1: int a; }") {
		k := strings.Join(strings.Fields(t)[:1], "")
		if strings.HasPrefix(t, "unsigned") {
			k = strings.ReplaceAll(t, " ", "-")
		}
		r["proc-arg-"+k] = genPrelude + "program P { version V { void p(" + t + ") = 1; } = 1; } = 9;\n"
		r["proc-res-"+k] = genPrelude + "program P { version V { " + t + " p(void) = 1; } = 1; } = 9;\n"
	}
	r["proc-same-name-other-number"] = genPrelude + "program P { version V { void p(void) = 1; } = 1; version W { void p(void) = 2; } = 2; } = 9;\n"
	return r
}

const genConstType = `
const A = 1;
const b_b = 0x10;
const C3 = 012;
struct s { int a[A]; int b<b_b>; opaque c[C3]; opaque d<A>; string e<C3>; hyper f<5>; };
typedef int t0[C3];
typedef opaque t1<b_b>;
`

// The specifications that are renamed.
const genRenameTypes = `
const cmax = 6;
const ctwo = 2;
enum ecol { ered = 1, eblue = ctwo, egrey = 5, ecyan = 21, epink = eblue };
struct spt { int fx; unsigned hyper fy<cmax>; opaque fz[ctwo]; string fs<9>; ecol fc; spt *fn; struct { int ga[3]; } gb<4>; opaque go<>; string gs<>; opaque gp<7>; int gv<>; };
union ures switch (ecol uc) { case ered: int ucode; case eblue: spt uw; default: void; };
union ubool switch (bool ub) { case TRUE: int ut; case FALSE: void; };
union uint switch (int un) { case 3: case 4: case cmax: hyper uh; default: string us<cmax>; };
typedef int tnum;
typedef spt tarr[3];
typedef ures tvar<11>;
typedef spt *tptr;
typedef string tstr<cmax>;
typedef opaque topq[ctwo];
typedef bool tflag;
typedef tnum tref;
`

const genRenameProgPrelude = `
typedef int tnum;
struct spt { int fx; };
union ures switch (bool ub) { case TRUE: int ut; case FALSE: void; };
typedef spt *tptr;
`

const genRenameProgs = `
program pprog { version pv1 { void pnull(void) = 0; spt pget(tnum) = 1; } = 1; version pv2 { void pput(ures) = 7; tptr plist(void) = 8; } = 2; } = 100000;
program qprog { version qv { } = 3; } = 200000;
`

// genOdd: specifications with few or unusual definitions.
func genOdd() []genFam {
	ct := map[string]string{"const-type": "uint32"}
	return []genFam{
		{name: "only-const", spec: "const A = 1;\n"},
		{name: "only-enum", spec: "enum e { a = 1 };\n"},
		{name: "only-prog", spec: "program P { version V { void q(void) = 0; } = 1; } = 2;\n"},
		{name: "empty", spec: ""},
		{name: "only-struct", spec: "struct s { };\n"},
		{name: "empty-types", spec: "", flags: map[string]string{"t": typesFile}},
		{name: "only-enum-types", spec: "enum e { a = 1 };\n", flags: map[string]string{"t": typesFile}},
		{name: "collide-field-xdr", spec: "struct s { int xdr; };\n"},
		{name: "collide-field-case", spec: "struct s { int a; int A; };\n"},
		{name: "collide-type-case", spec: "const foo = 1;\ntypedef int Foo;\n"},
		{name: "consttype-enum-value", spec: "const A = 1;\nenum e { x = A };\n", flags: ct},
		{name: "consttype-case", spec: "const A = 1;\nunion u switch (int d) { case A: int x; };\n", flags: ct},
	}
}
