package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/HannesKimara/cddlc/environment"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// Want is a diagnostic that has to come out
type Want struct {
	Off  int
	Name string
	// Lines are acceptable line numbers to be named by the message, none if it need not name any
	Lines []int `json:",omitempty"`
	// Hi, if set, makes this some diagnostic between Off and Hi
	Hi int `json:",omitempty"`
}

// matchDiags compares the diagnostics with the wanted ones: the same places, each once, naming what they are about
func matchDiags(ds []diag, want []Want, what string) error {
	got := map[int][]diag{}
	for _, d := range ds {
		got[d.Start.Offset] = append(got[d.Start.Offset], d)
	}
	for _, w := range want {
		if w.Hi > 0 {
			n := 0
			for off := range got {
				if off >= w.Off && off <= w.Hi {
					delete(got, off)
					n++
				}
			}
			if n == 0 {
				return fmt.Errorf("%s between offsets %d and %d is not reported; reported:\n    %s", w.Name, w.Off, w.Hi, diagTexts(ds))
			}
			continue
		}
		l := got[w.Off]
		if len(l) == 0 {
			return fmt.Errorf("%s of %s at offset %d is not reported; reported:\n    %s", what, w.Name, w.Off, diagTexts(ds))
		}
		if len(l) > 1 {
			return fmt.Errorf("%s of %s at offset %d is reported %d times:\n    %s", what, w.Name, w.Off, len(l), diagTexts(ds))
		}
		if !strings.Contains(l[0].Msg, w.Name) {
			return fmt.Errorf("the report of %s at offset %d does not name it: %s", w.Name, w.Off, l[0].Text)
		}
		if len(w.Lines) > 0 {
			ok := false
			for _, n := range w.Lines {
				ok = ok || strings.Contains(l[0].Msg+" ", fmt.Sprintf("line %d,", n)) || strings.Contains(l[0].Msg+" ", fmt.Sprintf("line %d ", n))
			}
			if !ok {
				return fmt.Errorf("the report of %s at offset %d does not name line %v of the first definition: %s", w.Name, w.Off, w.Lines, l[0].Text)
			}
		}
		delete(got, w.Off)
	}
	for _, l := range got {
		return fmt.Errorf("reported without a cause: %s", diagTexts(l))
	}
	return nil
}

func eachNode(n *schema.Node, f func(n *schema.Node)) {
	f(n)
	for _, k := range n.Kids {
		eachNode(k, f)
	}
}

// uses lists the references in a laid out rule or file: names in operand position and keys before =>
func uses(file *schema.Node) (out []*schema.Node) {
	eachNode(file, func(n *schema.Node) {
		switch n.K {
		case "ident":
			out = append(out, n)
		case "entry":
			if n.S == "=>" && n.Key.K == "ident" {
				out = append(out, n.Key)
			}
		}
	})
	keep := out[:0]
	for _, n := range out {
		if !strings.HasPrefix(n.V, "$") {
			keep = append(keep, n)
		}
	}
	return keep
}

// ---------------------------------------------------------------- C09

// RefsCase is a schema and the unresolved references in it
type RefsCase struct {
	Src      Bytes
	Want     []Want
	Shuffled Bytes
	Want2    []Want
	// redefinitions and operand errors in either
	Redefs, Redefs2 []Want `json:",omitempty"`
}

func undefinedUses(file *schema.Node, undefined map[string]bool) []Want {
	out := []Want{}
	for _, u := range uses(file) {
		if undefined[u.V] {
			out = append(out, Want{Off: u.Start().Off, Name: u.V})
		}
	}
	return out
}

func shuffle(t *rapid.T, f *schema.Node) {
	for i := len(f.Kids) - 1; i > 0; i-- {
		j := pick(t, i+1)
		f.Kids[i], f.Kids[j] = f.Kids[j], f.Kids[i]
	}
}

// semFile draws a schema with references to names that no rule defines
func semFile(t *rapid.T, o schema.Opts, missing int) (*schema.Node, map[string]bool) {
	g := schema.NewGen(t, o)
	defined := g.Names
	undefined := map[string]bool{}
	for i := 0; i < missing; i++ {
		n := g.Name()
		if chance(t, 1, 3) { // close to a defined name
			base := sample(t, defined)
			n = sample(t, []string{base + "s", base + "-", strings.ToUpper(base), strings.ToLower(base), base[:len(base)-1], "x" + base})
		}
		if _, ok := g.Kinds[n]; ok || undefined[n] || n == "" || schema.IsKeyword(n) || n[0] == '$' || strings.IndexByte("0123456789-.", n[0]) >= 0 {
			continue
		}
		undefined[n] = true
		g.Names = append(g.Names, n, n, n)
		if chance(t, 1, 2) { // stands where a number or a pattern may stand, too
			g.Kinds[n] = sample(t, []schema.RuleKind{schema.KInt, schema.KInt, schema.KFloat, schema.KNum, schema.KText})
		}
	}
	f := &schema.Node{K: "file"}
	for _, name := range defined {
		f.Kids = append(f.Kids, g.Rule(name, "=", g.Value(g.Kinds[name])))
	}
	for i := pick(t, 2) * several(t, 0, 2, 4, 9, 20); i > 0; i-- { // redefinitions, which are reported as well
		c := []string{}
		for _, n := range defined {
			if g.Kinds[n] == schema.KType {
				c = append(c, n)
			}
		}
		if len(c) == 0 {
			break
		}
		f.Kids = append(f.Kids, g.Rule(sample(t, c), "=", g.Type(1)))
	}
	for i := several(t, 0, 2, 4, 8, 15, 40); i > 0; i-- { // extensions, also of names without a definition
		name := sample(t, g.Names)
		f.Kids = append(f.Kids, g.Rule(name, sample(t, []string{"/=", "//="}), g.Collection("group", 1)))
		delete(undefined, name)
	}
	if chance(t, 1, 4) { // operand errors that show when all rules are known
		f.Kids = append(f.Kids, g.Rule("zz-text", "=", schema.TextNode("5")), g.Rule("zz-range", "=",
			&schema.Node{K: "range", S: "..", Kids: []*schema.Node{schema.IntNode("1", 1), schema.Ident("zz-text")}}))
	}
	shuffle(t, f)
	f.Kids = g.Padded(f.Kids)
	g.FinishFile(f)
	return f, undefined
}

func genC09(t *rapid.T) RefsCase {
	o := schema.Default
	o.MaxRules = 5
	o = schema.Vary(t, o)
	f, undefined := semFile(t, o, sample(t, []int{0, 1, 2, 3, 5, 1, 2, 12}))
	c := RefsCase{}
	src, _ := schema.Spell(t, f)
	c.Src, c.Want = Bytes(src), undefinedUses(f, undefined)
	c.Redefs = append(expectDefs(f.Kids, map[string]*schema.Node{}), wrongRange(f)...)
	shuffle(t, f)
	src, _ = schema.Spell(t, f)
	c.Shuffled, c.Want2 = Bytes(src), undefinedUses(f, undefined)
	c.Redefs2 = append(expectDefs(f.Kids, map[string]*schema.Node{}), wrongRange(f)...)
	return c
}

// wrongRange finds the range with the wrong bound
func wrongRange(f *schema.Node) (out []Want) {
	for _, r := range f.Kids {
		if r.Key.V == "zz-range" {
			v := r.Kids[0]
			out = append(out, Want{Off: v.Start().Off, Hi: v.Last().Pos.Off, Name: "operand error"})
		}
	}
	return
}

func namesOf(ws []Want) string {
	out := []string{}
	for _, w := range ws {
		out = append(out, w.Name)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func checkC09(c RefsCase, o *core.Obs) error {
	o.Label("unresolved %d", min(len(c.Want), 5))
	o.NonTrivialIf(len(c.Want) > 0 && string(c.Src) != string(c.Shuffled))
	if namesOf(c.Want) != namesOf(c.Want2) {
		return fmt.Errorf("harness: different uses after reordering")
	}
	o.LabelIf(len(c.Redefs) > 0, "with other faults")
	_, ds := parse(c.Src)
	if err := matchDiags(ds, append(c.Want[:len(c.Want):len(c.Want)], c.Redefs...), "unresolved use"); err != nil {
		return err
	}
	_, ds = parse(c.Shuffled)
	if err := matchDiags(ds, append(c.Want2[:len(c.Want2):len(c.Want2)], c.Redefs2...), "unresolved use"); err != nil {
		return fmt.Errorf("after reordering the rules: %v", err)
	}
	return nil
}

// ---------------------------------------------------------------- C10

// Def is a definition the symbol table has to hold
type Def struct{ Name, Value string }

// DefsCase is a schema with redefinitions
type DefsCase struct {
	Src  Bytes
	Want []Want
	Defs []Def
	Ext  int // number of extensions
}

// manyOr is a number of assignments, in some cases a large one
func manyOr(t *rapid.T, n int) int {
	if chance(t, 1, 25) {
		return sample(t, []int{30, 60, 140, 300})
	}
	return n
}

// history draws a sequence of assignments; every name is assigned at least once
func history(t *rapid.T, g *schema.Gen, max int) []*schema.Node {
	rules := []*schema.Node{}
	first := map[string]bool{}
	add := func(name, op string) {
		v := g.Type(1)
		switch {
		case op == "=" && !first[name]:
			first[name] = true
			v = g.Value(g.Kinds[name])
		case op == "//=":
			v = g.Collection("group", 1)
		case op == "=" && chance(t, 1, 3):
			v = g.Value(g.Kinds[name])
		}
		rules = append(rules, g.Rule(name, op, v))
	}
	for i := between(t, 1, max); i > 0; i-- {
		add(sample(t, g.Names), sample(t, []string{"=", "=", "=", "=", "/=", "//="}))
	}
	for _, n := range g.Names {
		if !first[n] {
			add(n, "=")
		}
	}
	return rules
}

// expectDefs computes the redefinitions and the table
func expectDefs(rules []*schema.Node, firstDef map[string]*schema.Node) (want []Want) {
	for _, r := range rules {
		if r.S != "=" {
			continue
		}
		f := firstDef[r.Key.V]
		if f == nil {
			firstDef[r.Key.V] = r
			continue
		}
		want = append(want, Want{Off: r.Start().Off, Name: r.Key.V, Lines: []int{f.Start().Line, f.Kids[0].Start().Line}})
	}
	return
}

func genC10(t *rapid.T) DefsCase {
	o := schema.Default
	o.MaxRules, o.Depth = 4, 2
	o = schema.Vary(t, o)
	g := schema.NewGen(t, o)
	f := &schema.Node{K: "file", Kids: g.Padded(history(t, g, manyOr(t, 8)))}
	g.FinishFile(f)
	src, _ := schema.Spell(t, f)
	first := map[string]*schema.Node{}
	c := DefsCase{Src: Bytes(src), Want: expectDefs(f.Kids, first)}
	for _, r := range f.Kids {
		if first[r.Key.V] == r {
			c.Defs = append(c.Defs, Def{r.Key.V, schema.Canon(r.Kids[0], true)})
		}
	}
	for _, r := range f.Kids {
		if r.S != "=" {
			c.Ext++
		}
	}
	return c
}

func checkTable(env *environment.Environment, defs []Def) error {
	for _, d := range defs {
		v := env.Get(d.Name)
		if v == nil || !env.Exists(d.Name) {
			return fmt.Errorf("%s is not in the symbol table", d.Name)
		}
		// a keyed entry keeps comments that the table's value shares with the tree
		if got := schema.CanonAST(v, true); got != d.Value {
			return fmt.Errorf("the symbol table does not hold the first definition of %s\n  want %s\n  got  %s", d.Name, d.Value, got)
		}
	}
	return nil
}

func checkC10(c DefsCase, o *core.Obs) error {
	o.Label("redefinitions %d", min(len(c.Want), 5))
	o.Label("extensions %d", min(c.Ext, 3))
	o.NonTrivialIf(len(c.Want) > 0)
	env := environment.NewEnvironment()
	_, ds := parseEnv(c.Src, env)
	if err := matchDiags(ds, c.Want, "redefinition"); err != nil {
		return err
	}
	return checkTable(env, c.Defs)
}

// ---------------------------------------------------------------- C14

// operand kinds for the acceptance table
type operand struct {
	kind string // int float type text bool coll tag
	s    string
	defs []string // rules it needs
}

// OpCase is a schema with at most one wrongly used operator
type OpCase struct {
	Src    Bytes
	Accept bool
	Detail string
	Lo, Hi int // the expression
}

type opGen struct {
	t     *rapid.T
	names int
	defs  []string
}

func (g *opGen) name(kind, value string) string {
	last := ""
	links := between(g.t, 1, 3)
	if chance(g.t, 1, 40) {
		links = sample(g.t, []int{10, 33, 65, 100, 101, 150, 260, 520, 1030})
	}
	for i := links; i > 0; i-- { // a chain of names
		n := fmt.Sprintf("%s%d", sample(g.t, []string{"n", "lim", "k-", "m_", "n", "lim", "$s"}), g.names)
		g.names++
		if chance(g.t, 1, 40) {
			n += strings.Repeat("x", sample(g.t, []int{20, 28, 29, 30, 31, 60, 61, 62, 125, 252, 300}))
		}
		v := value
		if last != "" {
			v = last
		}
		g.defs = append(g.defs, n+" = "+v)
		last = n
	}
	return last
}

func (g *opGen) intLit() string { return schema.IntSpelling(g.t, uint64(pick(g.t, 500))) }
func (g *opGen) floatLit() string {
	return fmt.Sprintf("%d.%d", pick(g.t, 300), pick(g.t, 100))
}

var numTypes = []string{"uint", "int", "nint", "float", "float16", "float32", "float64"}
var otherTypes = []string{"bool", "tstr", "text", "bstr", "bytes", "nil", "null"}

// value draws something of a kind, directly or through a name
func (g *opGen) value(kind string) string {
	t := g.t
	switch kind {
	case "int":
		return g.intLit()
	case "float":
		return g.floatLit()
	case "numtype":
		return sample(t, numTypes)
	case "othertype":
		return sample(t, otherTypes)
	case "text":
		return sample(t, []string{`""`, `"a"`, `"5"`, `"1.5"`})
	case "bool":
		return sample(t, []string{"true", "false"})
	case "array":
		return sample(t, []string{"[]", "[int]", "[1]", "[* uint]"})
	case "map":
		return sample(t, []string{"{}", "{a: int}", "{1 => 5}"})
	}
	panic("harness: " + kind)
}

// draw returns the spelling of an operand of one of the kinds; kinds starting with @ go through a name
func (g *opGen) draw(kinds []string) (string, string) {
	k := sample(g.t, kinds)
	if k == "undefined" {
		return "never-defined", k
	}
	if k[0] == '@' {
		return g.name(k, g.value(k[1:])), k
	}
	return g.value(k), k
}

var rangeOperands = []string{"int", "float", "@int", "@float", "numtype", "othertype", "text", "bool", "array", "map", "@numtype", "@othertype", "@text", "@bool", "@array", "@map", "undefined"}

func (g *opGen) expr(bad bool) (src, detail string) {
	t := g.t
	for {
		var base, arg, bk, ak, op string
		ok := false
		switch pick(t, 5) {
		case 0, 1:
			op = sample(t, []string{"..", "..."})
			bk, ak = "", ""
			kinds := rangeOperands
			if chance(t, 1, 2) {
				kinds = rangeOperands[:4]
			}
			base, bk = g.draw(kinds)
			arg, ak = g.draw(kinds)
			num := func(k string) string {
				k = strings.TrimPrefix(k, "@")
				if k == "int" || k == "float" {
					return k
				}
				return ""
			}
			ok = num(bk) != "" && num(bk) == num(ak)
		case 2:
			op = ".size"
			bk = sample(t, []string{"sizable", "type", "literal", "coll"})
			switch bk {
			case "sizable":
				base, ok = sample(t, []string{"uint", "bstr", "tstr", "text"}), true
			case "type":
				base = sample(t, []string{"int", "nint", "float", "float16", "float32", "float64", "bool", "nil", "null"})
			case "literal":
				base = sample(t, []string{g.intLit(), g.floatLit(), `"a"`, "true", "false"})
			default:
				base = sample(t, []string{"[int]", "{a: int}", "#6.1(tstr)", "[]"})
			}
			arg, ak = g.draw([]string{"int", "@int"})
			if chance(t, 1, 4) {
				lo := pick(t, 10)
				arg = fmt.Sprintf("(%d..%d)", lo, lo+pick(t, 10))
			}
		case 3:
			op = ".regexp"
			bk = sample(t, []string{"textual", "type", "literal", "coll"})
			switch bk {
			case "textual":
				base, ok = sample(t, []string{"tstr", "text"}), true
			case "type":
				base = sample(t, []string{"int", "uint", "nint", "float", "float32", "bool", "bstr", "bytes", "nil", "null"})
			case "literal":
				base = sample(t, []string{g.intLit(), g.floatLit(), "true", "false"})
			default:
				base = sample(t, []string{"[int]", "{a: int}", "#6.1(tstr)", "[]"})
			}
			arg, ak = g.draw([]string{"text", "text", "@text", "int", "float", "bool", "numtype", "othertype", "array", "map"})
			ok = ok && (ak == "text" || ak == "@text")
		case 4:
			op = sample(t, schema.Cmps)
			base, bk = g.draw([]string{"numtype", "numtype", "@numtype", "@int", "@float", "othertype", "@othertype", "@text", "@bool", "@array", "@map", "text", "bool", "array", "map"})
			switch bk {
			case "numtype", "@numtype", "@int", "@float":
				ok = true
			}
			arg, ak = g.draw([]string{"int", "int", "float", "@int", "@float", "text", "bool", "othertype", "array", "map"})
			switch ak {
			case "int", "float", "@int", "@float":
			default:
				ok = false
			}
		}
		if ok == bad {
			continue
		}
		gap := func() string { return sample(t, []string{" ", " ", "\n", "\t "}) }
		return base + gap() + op + gap() + arg, bk + " " + op + " " + ak
	}
}

func genC14(single bool) func(t *rapid.T) OpCase {
	return func(t *rapid.T) OpCase {
		g := &opGen{t: t}
		n := between(t, 1, 3)
		badAt := -1
		if single || chance(t, 1, 2) {
			badAt = pick(t, n)
		}
		c := OpCase{Accept: badAt < 0}
		type rule struct {
			s      string
			lo, hi int
		}
		rules := []rule{}
		for i := 0; i < n; i++ {
			e, d := "", ""
			if i == badAt && chance(t, 1, 8) {
				e, d = sample(t, []string{g.floatLit() + "*2 int", g.floatLit() + "*" + " int", g.floatLit() + "*7 a: int"}), "float occurrence bound"
				e = "[" + e + "]"
			} else {
				e, d = g.expr(i == badAt)
			}
			if i == badAt || badAt < 0 {
				c.Detail = d
			}
			w := sample(t, []string{"%", "%", "[int, %]", "[%, int]", "{a: %}", "{b => %, c: int}", "bool / %", "% / bool", "[? %]", "[*%]", "(a: %)", "#6.9(%)", "[[{x: [%]}]]", "nil // %", "[2*3 k: %]"})
			if w == "[*%]" && e[0] >= '0' && e[0] <= '9' {
				w = "[* x: %]"
			}
			if w == "[[{x: [%]}]]" || w == "{b => %, c: int}" {
				w = strings.Replace(w, "b =>", "b:", 1)
			}
			lo := strings.Index(w, "%")
			head := fmt.Sprintf("r%d = ", i)
			rules = append(rules, rule{head + strings.Replace(w, "%", e, 1), len(head) + lo, len(head) + lo + len(e)})
			if i == badAt {
				rules[len(rules)-1].s += " " // marks it
			}
		}
		for _, d := range g.defs {
			rules = append(rules, rule{d, -1, -1})
		}
		for i := len(rules) - 1; i > 0; i-- {
			j := pick(t, i+1)
			rules[i], rules[j] = rules[j], rules[i]
		}
		var b strings.Builder
		for _, r := range rules {
			if strings.HasSuffix(r.s, " ") {
				c.Lo, c.Hi = b.Len()+r.lo, b.Len()+r.hi
			}
			b.WriteString(strings.TrimSpace(r.s) + sample(t, []string{"\n", "\n\n", " ; c\n", "\r\n"}))
		}
		c.Src = Bytes(b.String())
		return c
	}
}

func checkC14(c OpCase, o *core.Obs) error {
	o.Label("%s", c.Detail)
	o.LabelIf(c.Accept, "accept")
	o.LabelIf(!c.Accept, "reject")
	o.NonTrivialIf(len(c.Src) > 15)
	_, ds := parse(c.Src)
	if c.Accept {
		return noDiags(ds)
	}
	if len(ds) == 0 {
		return fmt.Errorf("%s is accepted", c.Detail)
	}
	return nil
}

func checkC30Operand(c OpCase, o *core.Obs) error {
	o.Label("%s", c.Detail)
	o.NonTrivialIf(c.Lo > 10 && c.Hi < len(c.Src)-5)
	_, ds := parse(c.Src)
	if len(ds) == 0 {
		return nil // C14 decides that
	}
	if err := checkDiags(c.Src, ds); err != nil {
		return err
	}
	if off := ds[0].Start.Offset; off < c.Lo || off >= c.Hi {
		return fmt.Errorf("%s stands at offsets %d to %d, but the first diagnostic points at %d: %s", c.Detail, c.Lo, c.Hi, off, ds[0].Text)
	}
	return nil
}

// NameCase is a valid schema with one name misused
type NameCase struct {
	Src  Bytes
	What string
	Want Want
}

func genC30Name(t *rapid.T) NameCase {
	o := schema.Default
	o.MaxRules, o.Extend = 5, false
	o = schema.Vary(t, o)
	for {
		g := schema.NewGen(t, o)
		f := g.File()
		if chance(t, 1, 2) {
			r := sample(t, f.Kids)
			i := pick(t, len(f.Kids)+1)
			f.Kids = append(f.Kids[:i:i], append([]*schema.Node{g.Rule(r.Key.V, "=", g.Type(2))}, f.Kids[i:]...)...)
			g.FinishFile(f)
			src, _ := schema.Spell(t, f)
			w := expectDefs(f.Kids, map[string]*schema.Node{})
			if len(w) != 1 {
				continue
			}
			// replacing the first definition may also make names unusable as bounds
			return NameCase{Bytes(src), "redefined name", w[0]}
		}
		us := uses(f)
		plain := us[:0]
		for _, u := range us {
			plain = append(plain, u)
		}
		if len(plain) == 0 {
			continue
		}
		u := sample(t, plain)
		u.V = "zz-" + u.V
		u.S = u.V
		src, _ := schema.Spell(t, f)
		return NameCase{Bytes(src), "undefined name", Want{Off: u.Start().Off, Name: u.V}}
	}
}

func checkC30Name(c NameCase, o *core.Obs) error {
	o.Label("%s", c.What)
	o.NonTrivialIf(c.Want.Off > 0)
	_, ds := parse(c.Src)
	if len(ds) == 0 {
		return nil // C09 and C10 decide that
	}
	if err := checkDiags(c.Src, ds); err != nil {
		return err
	}
	if ds[0].Start.Offset != c.Want.Off {
		return fmt.Errorf("%s %s stands at offset %d, but the first diagnostic points at %d: %s", c.What, c.Want.Name, c.Want.Off, ds[0].Start.Offset, ds[0].Text)
	}
	if !strings.Contains(ds[0].Msg, c.Want.Name) {
		return fmt.Errorf("%s %s is not named: %s", c.What, c.Want.Name, ds[0].Text)
	}
	return nil
}

// ---------------------------------------------------------------- C15

// Batch is what is fed at once
type Batch struct {
	Src    Bytes
	Faulty bool // does not parse; only the table is checked
	Want   []Want
	New    []Def // definitions made by this batch
}

// SessionCase is a schema fed in batches
type SessionCase struct {
	Batches []Batch
	Whole   Bytes // the concatenation of the proper batches
	Redefs  []Want
}

func genC15(t *rapid.T) SessionCase {
	o := schema.Default
	o.MaxRules, o.Depth, o.MinRules = 5, 2, 2
	o = schema.Vary(t, o)
	g := schema.NewGen(t, o)
	rules := g.Padded(history(t, g, manyOr(t, 10)))
	// the extensions and references may come before the definition
	known := map[string]bool{}
	first := map[string]*schema.Node{}
	c := SessionCase{}
	whole := []*schema.Node{}
	for len(rules) > 0 {
		if chance(t, 1, 4) { // a batch that does not parse
			c.Batches = append(c.Batches, Batch{Src: faultyBatch(t, g, first), Faulty: true})
			continue
		}
		n := between(t, 1, min(4, len(rules)))
		if len(rules) > 20 && chance(t, 1, 3) {
			n = between(t, 5, len(rules))
		}
		f := &schema.Node{K: "file", Kids: rules[:n:n]}
		rules = rules[n:]
		g.FinishFile(f)
		src, _ := schema.Spell(t, f)
		b := Batch{Src: Bytes(src)}
		b.Want = expectDefs(f.Kids, first)
		for _, r := range f.Kids {
			known[r.Key.V] = true
		}
		for _, r := range f.Kids {
			if first[r.Key.V] == r {
				b.New = append(b.New, Def{r.Key.V, schema.Canon(r.Kids[0], true)})
			}
		}
		undefined := map[string]bool{}
		for _, name := range g.Names {
			undefined[name] = !known[name]
		}
		b.Want = append(b.Want, undefinedUses(f, undefined)...)
		c.Batches = append(c.Batches, b)
		whole = append(whole, f.Kids...)
	}
	f := &schema.Node{K: "file", Kids: whole}
	src, _ := schema.Spell(t, f)
	c.Whole = Bytes(src)
	c.Redefs = expectDefs(whole, map[string]*schema.Node{})
	return c
}

// brokenRules are continuations of a name to rules that do not parse
var brokenRules = []string{"", " = ", " = [", " = [ int, ", " = { k: ", " = { k: int", " = ( int ", " = ]", " = int / ", " = & ", " = ~", " = tstr .size ", " = tstr .regexp 5", " = 1..1.5", " = 1..", " = #6.1( int ", " = ! int", " = ? ", " /= ", " //= ( int ", " int"}

// faultyBatch draws something that does not parse and leaves the names of the pool undefined that are not defined yet
func faultyBatch(t *rapid.T, g *schema.Gen, first map[string]*schema.Node) Bytes {
	name := "other" + fmt.Sprint(pick(t, 3))
	for _, n := range g.Names {
		if first[n] != nil && chance(t, 1, 2) {
			name = n
		}
	}
	if chance(t, 1, 3) { // a single rule that does not parse defines nothing, whatever its name
		return Bytes(sample(t, append(g.Names[:len(g.Names):len(g.Names)], name)) + sample(t, brokenRules))
	}
	switch pick(t, 8) {
	case 0:
		return Bytes(name + " = ")
	case 1:
		return Bytes(name)
	case 2:
		return Bytes(name + " = [int, ")
	case 3:
		return Bytes(name + " = ]")
	case 4:
		return Bytes("= int")
	case 5:
		return Bytes(name + " = \"open")
	case 6:
		return Bytes(name + " = 1..1.5")
	}
	return Bytes(name + " = int\n" + name + " = { a: ! }\n" + name + " = tstr")
}

func checkC15(c SessionCase, o *core.Obs) error {
	o.Label("batches %d", min(len(c.Batches), 6))
	env := environment.NewEnvironment()
	defs := []Def{}
	faulty, carried := 0, 0
	for i, b := range c.Batches {
		_, ds := parseEnv(b.Src, env)
		if b.Faulty {
			faulty++
			if len(ds) == 0 {
				return fmt.Errorf("batch %d (%q) is accepted", i, b.Src)
			}
		} else if err := matchDiags(ds, b.Want, "redefinition or unresolved use"); err != nil {
			return fmt.Errorf("batch %d (%q): %v", i, b.Src, err)
		}
		if len(defs) > 0 {
			carried++
		}
		defs = append(defs, b.New...)
		if err := checkTable(env, defs); err != nil {
			return fmt.Errorf("after batch %d (%q): %v", i, b.Src, err)
		}
	}
	o.LabelIf(faulty > 0, "with failing batches")
	o.NonTrivialIf(carried > 0)
	_, ds := parse(c.Whole)
	if err := matchDiags(ds, c.Redefs, "redefinition"); err != nil {
		return fmt.Errorf("all at once: %v", err)
	}
	return nil
}

func init() {
	core.Check("C09", "references", "schemas of up to 5 rules with up to 3 names nobody defines, sockets, keys and extensions, in two orders and layouts; non-trivial: an unresolved use, and two different texts", 12000, genC09, checkC09)
	core.Check("C10", "redefinitions", "sequences of up to 12 assignments (=, /=, //=) of up to 4 names; non-trivial: at least one redefinition", 15000, genC10, checkC10)
	core.Check("C14", "operands", "up to 3 operator expressions with operands of every kind, directly or through chains of names defined anywhere; non-trivial: 16 bytes of source or more", 40000, genC14(false), checkC14)
	core.Check("C15", "batches", "the assignments of a schema in batches over one symbol table, failing batches in between; non-trivial: a batch after a definition", 10000, genC15, checkC15)
	core.Check("C30", "wrong operand", "as for C14, with one wrong operand; non-trivial: well inside the source", 15000, genC14(true), checkC30Operand)
	core.Check("C30", "names", "valid schemas with one undefined or redefined name; non-trivial: not at the start", 10000, genC30Name, checkC30Name)
}
