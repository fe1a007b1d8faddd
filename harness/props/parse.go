package props

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// TreeCase is a valid source with the tree it spells, in canonical form
type TreeCase struct {
	Src  Bytes
	Want string
}

func treeLabels(o *core.Obs, want string, rule func(kinds map[string]int) bool) {
	k := kindsIn(want)
	for name := range k {
		o.Label("has %s", name)
	}
	o.NonTrivialIf(rule(k))
}

func manyKinds(n int) func(map[string]int) bool {
	return func(k map[string]int) bool { return len(k) >= n }
}

// structuralOpts is the default option set
func fullOpts(t *rapid.T) schema.Opts {
	return schema.Vary(t, schema.Default)
}

func genTree(pos bool) func(t *rapid.T) TreeCase {
	return func(t *rapid.T) TreeCase {
		f := schema.File(t, fullOpts(t))
		src, _ := schema.Spell(t, f)
		return TreeCase{Bytes(src), schema.Canon(f, pos)}
	}
}

func checkTree(pos bool, rule func(map[string]int) bool) func(c TreeCase, o *core.Obs) error {
	return func(c TreeCase, o *core.Obs) error {
		treeLabels(o, c.Want, rule)
		tree, ds := parse(c.Src)
		if err := noDiags(ds); err != nil {
			return err
		}
		if tree == nil {
			return fmt.Errorf("no tree")
		}
		if got := schema.CanonAST(tree, pos); got != c.Want {
			return fmt.Errorf("the tree is not what the source spells\n%s", firstDiff(c.Want, got))
		}
		return nil
	}
}

// ---------------------------------------------------------------- C31: ends

// EndCase is a valid schema with the places where its nodes end
type EndCase struct {
	Src  Bytes
	Ends []schema.Span
}

func genC31(t *rapid.T) EndCase {
	f := schema.File(t, fullOpts(t))
	src, _ := schema.Spell(t, f)
	return EndCase{Bytes(src), schema.Ends(f)}
}

func checkC31(c EndCase, o *core.Obs) error {
	kinds := map[string]bool{}
	for _, e := range c.Ends {
		kinds[e.K] = true
	}
	for k := range kinds {
		o.Label("has %s", k)
	}
	o.NonTrivialIf(len(kinds) >= 6)
	tree, ds := parse(c.Src)
	if err := noDiags(ds); err != nil {
		return err
	}
	got := schema.EndsAST(tree)
	if len(got) != len(c.Ends) {
		return fmt.Errorf("%d nodes instead of %d", len(got), len(c.Ends))
	}
	where := posTable(c.Src)
	for i, w := range c.Ends {
		g := got[i]
		if g.K != w.K {
			return fmt.Errorf("node %d is a %s instead of a %s", i, g.K, w.K)
		}
		if g.Pos.Off < w.Lo || g.Pos.Off > w.Hi {
			return fmt.Errorf("node %d, a %s, ends at offset %d, its text ends between %d and %d", i, w.K, g.Pos.Off, w.Lo, w.Hi)
		}
		if w.Loose {
			continue
		}
		if line, col := where(g.Pos.Off); line != g.Pos.Line || col != g.Pos.Col {
			return fmt.Errorf("node %d, a %s, ends at offset %d, which is line %d column %d, reported as line %d column %d", i, w.K, g.Pos.Off, line, col, g.Pos.Line, g.Pos.Col)
		}
	}
	return nil
}

func checkC31Diags(c SrcCase, o *core.Obs) error {
	_, ds := parse(c.Src)
	for _, d := range ds {
		o.NonTrivialIf(d.Start.Offset > 0)
		o.LabelIf(d.End.Offset > d.Start.Offset+1, "longer than a character")
		o.LabelIf(d.End.Line > d.Start.Line, "over several lines")
	}
	return checkDiags(c.Src, ds)
}

// ---------------------------------------------------------------- C05 and C30: faults

// FaultCase is a source with one fault
type FaultCase struct {
	Src    Bytes
	Kind   string
	Detail string
	// the fault is somewhere in these bytes
	Lo, Hi int
}

var faultOpts = schema.Opts{MaxRules: 4, MinRules: 1, Depth: 3, Width: 3, Controls: true, Comments: true, NoSemi: true}

func genFault(kinds []string, local bool) func(t *rapid.T) FaultCase {
	return func(t *rapid.T) FaultCase {
		kind := sample(t, kinds)
		for {
			o := faultOpts
			if chance(t, 1, 5) {
				o.Depth = 6
				o.Width = 2
			}
			f := schema.Inject(t, schema.File(t, schema.Vary(t, o)), kind)
			if f == nil || local && f.Detail == schema.ClosesEarly { // no place for this fault: take another one, that every schema has
				kind = sample(t, []string{"illegal-char", "stray-close", "no-assign", "no-value"})
				continue
			}
			src := schema.Layout(f.Toks, schema.LayoutStyle(t), sample(t, []string{"", "\n", " "}))
			lo, hi := f.Offsets(src)
			if local {
				switch kind {
				case "wrong-close", "double-comma", "too-large", "bad-number", "unknown-control": // the fault is exactly one token
					lo = f.Toks[f.At].Pos.Off
					hi = lo
				}
			}
			return FaultCase{Bytes(src), f.Kind, f.Detail, lo, hi}
		}
	}
}

// genIllFormed spells token sequences that no reading of the grammar allows
func genIllFormed(t *rapid.T) FaultCase {
	o := faultOpts
	o.NoSemi, o.MaxRules = true, 3
	toks, edits := schema.IllFormed(t, o)
	src := spread(t, toks)
	return FaultCase{Bytes(src), "ill-formed", edits, 1, len(src)}
}

// spread spells tokens with something between any two
func spread(t *rapid.T, toks []*schema.Tok) string {
	style := pick(t, 3)
	return schema.Layout(toks, func(i int, rule schema.GapRule, need bool) string {
		switch {
		case i == 0:
			return ""
		case rule == schema.OwnLn || rule == schema.NewLine:
			return "\n"
		case style == 2:
			return sample(t, []string{" ", "\n", "\r\n", "  ", "\t"})
		}
		return []string{" ", "\n"}[style]
	}, sample(t, []string{"", "\n", " "}))
}

func checkC05(c FaultCase, o *core.Obs) error {
	o.Label("fault %s", c.Kind)
	o.NonTrivialIf(c.Lo > 0 && len(c.Src) >= 4)
	_, ds := parse(c.Src)
	if len(ds) == 0 {
		return fmt.Errorf("%s (%s) between offsets %d and %d is accepted without a diagnostic", c.Kind, c.Detail, c.Lo, c.Hi)
	}
	return nil
}

// checkDiags verifies that diagnostics are usable
func checkDiags(src []byte, ds []diag) error {
	at := posTable(src)
	for i, d := range ds {
		s := d.Start
		line, col := at(s.Offset)
		if s.Offset < 0 || s.Offset > len(src) || s.Line != line || s.Column != col {
			return fmt.Errorf("diagnostic %d (%s) starts at %+v, but offset %d is line %d column %d of %d bytes", i, d.Text, s, s.Offset, line, col, len(src))
		}
		e := d.End
		if line, col = at(e.Offset); e.Offset > 0 && line != e.Line { // right behind a line
			line, col = at(e.Offset - 1)
			col++
		}
		if e.Offset < s.Offset || e.Offset > len(src)+1 || e.Line != line || e.Column != col {
			return fmt.Errorf("diagnostic %d (%s) ends at %+v, but starts at offset %d and offset %d is line %d column %d of %d bytes", i, d.Text, e, s.Offset, e.Offset, line, col, len(src))
		}
		name := fmt.Sprintf(" line %d, column %d ~ %d", s.Line, s.Column, e.Column)
		if e.Line != s.Line {
			name = fmt.Sprintf(" line %d, column %d to line %d, column %d", s.Line, s.Column, e.Line, e.Column)
		}
		if !strings.HasSuffix(d.Text, name) {
			return fmt.Errorf("diagnostic %d does not name its position%s: %s", i, name, d.Text)
		}
		if strings.TrimSpace(d.Msg) == "" {
			return fmt.Errorf("diagnostic %d has no message", i)
		}
	}
	return nil
}

func checkC30Fault(c FaultCase, o *core.Obs) error {
	o.Label("fault %s", c.Kind)
	o.NonTrivialIf(c.Lo > 0 && c.Hi < len(c.Src))
	_, ds := parse(c.Src)
	if len(ds) == 0 {
		return nil // C05 decides that
	}
	if err := checkDiags(c.Src, ds); err != nil {
		return err
	}
	if off := ds[0].Start.Offset; off < c.Lo || off > c.Hi {
		return fmt.Errorf("%s (%s) lies between offsets %d and %d, but the first diagnostic points at %d: %s", c.Kind, c.Detail, c.Lo, c.Hi, off, ds[0].Text)
	}
	return nil
}

// ---------------------------------------------------------------- C06: any input

// nodesOf lists the nodes of a tree, parents first, in source order; it fails on nodes it does not know
func nodesOf(n ast.Node) (out []ast.Node, err error) {
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		if err != nil {
			return
		}
		out = append(out, n)
		kids, e := childrenOf(n)
		if e != nil {
			err = e
			return
		}
		for _, k := range kids {
			visit(k)
		}
	}
	visit(n)
	return
}

func childrenOf(n ast.Node) ([]ast.Node, error) {
	out := []ast.Node{}
	add := func(k ast.Node) { out = append(out, k) }
	num := func(u *ast.UintLiteral) {
		if u != nil {
			add(u)
		}
	}
	cmt := func(c *ast.Comment) {
		if c != nil {
			add(c)
		}
	}
	switch v := n.(type) {
	case *ast.CDDL:
		for _, r := range v.Rules {
			add(r)
		}
	case *ast.CommentGroup:
		for _, c := range v.List {
			add(c)
		}
	case *ast.Rule:
		add(v.Name)
		add(v.Value)
		cmt(v.TrailingComment)
	case *ast.Entry:
		add(v.Name)
		add(v.Value)
		cmt(v.TrailingComment)
	case *ast.Array:
		for _, r := range v.Rules {
			add(r)
		}
	case *ast.Map:
		for _, r := range v.Rules {
			add(r)
		}
	case *ast.Group:
		for _, r := range v.Entries {
			add(r)
		}
	case *ast.TypeChoice:
		add(v.First)
		add(v.Second)
	case *ast.GroupChoice:
		add(v.First)
		add(v.Second)
	case *ast.Range:
		add(v.From)
		add(v.To)
	case *ast.SizeOperatorControl:
		add(v.Type)
		add(v.Size)
	case *ast.Regexp:
		add(v.Base)
		add(v.Regex)
	case *ast.Bits:
		add(v.Base)
		add(v.Contstraint)
	case *ast.ComparatorOpControl:
		add(v.Left)
		add(v.Right)
	case *ast.Optional:
		add(v.Item)
	case *ast.NMOccurrence:
		num(v.N)
		num(v.M)
		add(v.Item)
	case *ast.Tag:
		num(v.Major)
		num(v.TagNumber)
		if v.Item != nil {
			add(v.Item)
		}
	case *ast.Unwrap:
		add(v.Item)
	case *ast.Enumeration:
		add(v.Value)
	case *ast.Comment, *ast.Identifier, *ast.IntegerType, *ast.UintType, *ast.NegativeIntegerType, *ast.FloatType,
		*ast.TstrType, *ast.BytesType, *ast.BstrType, *ast.BooleanType, *ast.NullType, *ast.BooleanLiteral,
		*ast.IntegerLiteral, *ast.UintLiteral, *ast.FloatLiteral, *ast.TextLiteral:
	default:
		return nil, fmt.Errorf("unexpected node %T", n)
	}
	for _, k := range out {
		if k == nil {
			return nil, fmt.Errorf("%T has an empty part", n)
		}
	}
	return out, nil
}

type countVisitor struct{ n *int }

func (v countVisitor) Visit(n ast.Node) astutils.Visitor {
	if n != nil {
		*v.n++
	}
	return v
}

func checkC06(c SrcCase, o *core.Obs) error {
	src := append([]byte{}, c.Src...)
	prs := parser.NewParser(lexer.NewLexer(src))
	tree, errs := prs.ParseFile()
	if tree == nil {
		return fmt.Errorf("no tree")
	}
	ds := diagsOf(errs)
	// every failing rule, redefinition, deferred check and lexer error yields at most one each
	if limit := 4*len(src) + 10; len(ds) > limit {
		return fmt.Errorf("%d diagnostics for %d bytes", len(ds), len(src))
	}
	if err := checkDiags(c.Src, ds); err != nil {
		return err
	}
	if len(ds) <= 1000 { // the text of a list takes time quadratic in its length
		if err := checkList(errs, ds); err != nil {
			return err
		}
		if again := prs.Errors(); len(again) != len(errs) || again.String() != errs.String() {
			return fmt.Errorf("the parser keeps %d diagnostics, it returned %d", len(again), len(errs))
		}
	}
	o.LabelIf(len(ds) == 0, "accepted")
	o.LabelIf(len(ds) > 0, "diagnosed")
	o.LabelIf(!utf8.Valid(src), "invalid UTF-8")
	if len(ds) > 0 {
		o.NonTrivialIf(len(tree.Rules) > 0 || ds[0].Start.Offset > 0)
		return nil
	}
	nodes, err := nodesOf(tree)
	if err != nil {
		return err
	}
	o.NonTrivialIf(len(nodes) >= 6)
	// every node of an ordinary tree, a selection of the nodes of a huge one
	step := 1 + len(nodes)/400
	for i := 0; i < len(nodes); i += step {
		nodes[i].Start()
		nodes[i].End()
		if step == 1 || i == 0 || len(nodes)-i < 400 {
			astutils.Format(nodes[i])
		}
	}
	visited := 0
	astutils.Walk(countVisitor{&visited}, tree)
	if visited != len(nodes) {
		return fmt.Errorf("walk visits %d of %d nodes", visited, len(nodes))
	}
	b, err := json.Marshal(tree)
	if err != nil {
		return fmt.Errorf("the tree cannot be exported as JSON: %v", err)
	}
	if !json.Valid(b) {
		return fmt.Errorf("invalid JSON: %s", b)
	}
	_ = tree.String()
	return nil
}

// checkList: a list of diagnostics speaks for all of its members
func checkList(errs parser.ErrorList, ds []diag) error {
	if len(ds) == 0 {
		return nil
	}
	for _, text := range []string{errs.String(), errs.Error(), errs.Diagnostic()} {
		rest := text
		for i, d := range ds {
			k := strings.Index(rest, d.Msg)
			if k < 0 {
				return fmt.Errorf("diagnostic %d, %q, is missing in the text of the list: %s", i, d.Msg, clips(text, 2000))
			}
			rest = rest[k+len(d.Msg):]
		}
	}
	if s, e := errs.Start(), errs.End(); s != ds[0].Start || e != ds[len(ds)-1].End {
		return fmt.Errorf("the list reaches from %v to %v, its members from %v to %v", s, e, ds[0].Start, ds[len(ds)-1].End)
	}
	if len(errs.Collect()) != len(ds) {
		return fmt.Errorf("collecting %d diagnostics gives %d", len(ds), len(errs.Collect()))
	}
	return nil
}

// soup pieces for the parser: whole tokens of the language, so that the parser's decisions are reached
var parserPieces = []string{"a", "b", "c", "int", "uint", "tstr", "bstr", "float", "bool", "true", "null", "nil", "any", "bytes", "text", "5", "0", "1.5", "6.24", "0x1F", "\"t\"", "99999999999999999999",
	"=", "/=", "//=", "/", "//", ":", "=>", ",", "(", ")", "[", "]", "{", "}", "?", "*", "+", "~", "&", "#", "#6.1(", "..", "...", ".size", ".regexp", ".bits", ".lt", ".eq", ".cbor", ".within", ".foo", "$s", "$$g",
	";c\n", "\n", "-", "<", ">", ".", "!", "\"open", "a = ", "b: ", "\nb = ", "[", "(", "2*3", "1*", "*4 "}

func tokenSoup(t *rapid.T, max int) []byte {
	var b strings.Builder
	if chance(t, 2, 3) {
		b.WriteString("r = ")
	}
	for i := between(t, 0, max); i > 0; i-- {
		b.WriteString(sample(t, parserPieces))
		b.WriteString(sample(t, []string{" ", " ", " ", "", "\n"}))
	}
	return []byte(b.String())
}

// nested builds deeply nested sources, closed or not
func genNested(t *rapid.T) SrcCase {
	depth := sample(t, []int{10, 100, 300, 490, 999, 1700, 3000, 4900, 9700, 12000, 40000})
	open, end := "", ""
	for i := between(t, 1, 3); i > 0; i-- {
		k := pick(t, 9)
		open += []string{"[", "(", "{", "? ", "~", "&", "#6.1(", "a: ", "[1*2 "}[k]
		end = []string{"]", ")", "}", "", "", "", ")", "", "]"}[k] + end
	}
	src := "r = " + strings.Repeat(open, depth)
	switch pick(t, 3) {
	case 0:
		src += "int" + strings.Repeat(end, depth)
	case 1:
		src += "int"
	}
	if chance(t, 1, 4) {
		src = "r = " + strings.Repeat("int "+sample(t, []string{"/", "//", ".size", ".."})+" ", min(depth, 3000))
	}
	if chance(t, 1, 5) { // complete, and long chains within long chains
		chain := []string{" / 1", " // bool", " .bits uint"}
		src = "r = " + open + "bytes" + strings.Repeat(sample(t, chain), depth) + end + strings.Repeat(sample(t, chain), sample(t, []int{0, 3, 2000, 6000}))
	}
	return SrcCase{Bytes(src)}
}

// ---------------------------------------------------------------- C08: grouping

// operand spellings for the grouping check, by what they are
func genOperand(t *rapid.T, depth int) *schema.Node {
	g := &schema.Gen{T: t, O: schema.Opts{Depth: 1, Width: 2, Controls: true}, Names: []string{"a", "b", "cc"}, Kinds: map[string]schema.RuleKind{}}
	if depth > 0 && chance(t, 1, 3) {
		return parens(genExpr(t, depth-1))
	}
	switch pick(t, 9) {
	case 0:
		return schema.Prim(sample(t, schema.Prims))
	case 1:
		return schema.Ident(sample(t, g.Names))
	case 2:
		return g.Int()
	case 3:
		return schema.TextNode(sample(t, []string{"", "x", "y z"}))
	case 4:
		return schema.FloatNode(sample(t, []string{"1.5", "0.0", "10.25"}))
	case 5:
		if depth > 0 {
			return &schema.Node{K: "unwrap", S: "~", Kids: []*schema.Node{unaryOperand(t, depth-1)}}
		}
		return &schema.Node{K: "unwrap", S: "~", Kids: []*schema.Node{schema.Ident("a")}}
	case 6:
		if depth > 0 {
			return &schema.Node{K: "enum", S: "&", Kids: []*schema.Node{unaryOperand(t, depth-1)}}
		}
		return &schema.Node{K: "enum", S: "&", Kids: []*schema.Node{schema.Ident("b")}}
	case 7:
		return schema.Bool(sample(t, []string{"true", "false"}))
	}
	n := &schema.Node{K: sample(t, []string{"array", "map", "group"}), Kids: []*schema.Node{genExpr(t, depth-1)}}
	n.Commas = []bool{chance(t, 1, 5)}
	return n
}

func unaryOperand(t *rapid.T, depth int) *schema.Node {
	switch pick(t, 4) {
	case 0:
		return schema.Ident("a")
	case 1:
		return &schema.Node{K: "unwrap", S: "~", Kids: []*schema.Node{schema.Ident("b")}}
	case 2:
		return &schema.Node{K: "enum", S: "&", Kids: []*schema.Node{schema.Ident("cc")}}
	}
	return parens(genExpr(t, depth))
}

func parens(n *schema.Node) *schema.Node {
	return &schema.Node{K: "group", Kids: []*schema.Node{n}, Commas: []bool{false}}
}

func genControlled(t *rapid.T) *schema.Node {
	g := &schema.Gen{T: t, O: schema.Opts{Depth: 1, Width: 2, Controls: true}, Names: []string{"n5", "f5", "num"},
		Kinds: map[string]schema.RuleKind{"n5": schema.KInt, "f5": schema.KFloat, "num": schema.KNum}}
	return g.Controlled(1)
}

func genAlternative(t *rapid.T, depth int) *schema.Node {
	switch pick(t, 9) {
	case 6, 7:
		return genControlled(t)
	case 8: // the operand of a control operator may be anything
		return &schema.Node{K: "bits", S: ".bits", Kids: []*schema.Node{genOperand(t, depth), unaryOperand(t, depth-1)}}
	}
	return genOperand(t, depth)
}

func genChoice(t *rapid.T, depth int) *schema.Node {
	n := several(t, 1, 4, 5, 6, 8, 9, 12, 17)
	if n == 1 {
		return genAlternative(t, depth)
	}
	c := &schema.Node{K: "choice", S: "/"}
	for i := 0; i < n; i++ {
		c.Kids = append(c.Kids, genAlternative(t, depth))
	}
	return c
}

func genMember(t *rapid.T, depth int) *schema.Node {
	v := genChoice(t, depth)
	if chance(t, 1, 3) {
		v = &schema.Node{K: "entry", S: sample(t, []string{":", "=>"}), Key: schema.Ident(sample(t, []string{"a", "b"})), Kids: []*schema.Node{v}}
		if chance(t, 1, 4) {
			v.Key = schema.IntNode("7", 7)
		}
	}
	if chance(t, 1, 6) {
		v = &schema.Node{K: "opt", S: "?", Kids: []*schema.Node{v}}
	} else if chance(t, 1, 6) {
		v = &schema.Node{K: "occ", S: "*", V: "*", Lo: schema.UintNode("1", 1), Hi: schema.UintNode("3", 3), Kids: []*schema.Node{v}}
	}
	return v
}

func genExpr(t *rapid.T, depth int) *schema.Node {
	if depth < 0 {
		return genOperand(t, 0)
	}
	n := 1
	if chance(t, 1, 3) {
		n = several(t, 2, 3, 4, 5, 7, 9, 12)
	}
	if n == 1 {
		return genMember(t, depth)
	}
	c := &schema.Node{K: "gchoice", S: "//"}
	for i := 0; i < n; i++ {
		c.Kids = append(c.Kids, genMember(t, depth))
	}
	return c
}

const c08Prelude = "a = int\nb = tstr\ncc = bool\nn5 = 5\nf5 = 1.5\nnum = uint\n"

func genC08(t *rapid.T) TreeCase {
	f := &schema.Node{K: "file", Pre: [][]*schema.Node{nil, nil}}
	f.Kids = []*schema.Node{{K: "rule", S: "=", Key: schema.Ident("r"), Kids: []*schema.Node{genExpr(t, 2)}}}
	src, _ := schema.Spell(t, f)
	return TreeCase{Bytes(c08Prelude + src), schema.Canon(f.Kids[0], false)}
}

func checkC08(c TreeCase, o *core.Obs) error {
	k := kindsIn(c.Want)
	ops := 0
	for _, name := range []string{"choice", "gchoice", "range", "size", "regexp", "bits", "cmp", "entry", "unwrap", "enum", "opt", "occ"} {
		if k[name] > 0 {
			ops++
			o.Label("has %s", name)
		}
	}
	o.LabelIf(k["group"] > 0, "has parentheses")
	o.NonTrivialIf(ops >= 2)
	tree, ds := parse(c.Src)
	if err := noDiags(ds); err != nil {
		return err
	}
	rules := schema.Rules(tree)
	if len(rules) != 7 {
		return fmt.Errorf("%d rules instead of 7", len(rules))
	}
	if got := schema.CanonAST(rules[6], false); got != c.Want {
		return fmt.Errorf("grouped differently\n  want %s\n  got  %s", c.Want, got)
	}
	return nil
}

// combosC08 lists every operand spelling on each side of every pair of operators
func combosC08() []TreeCase {
	un := func(k, s string, n *schema.Node) *schema.Node {
		return &schema.Node{K: k, S: s, Kids: []*schema.Node{n}}
	}
	id := schema.Ident
	two := func(k, s string, x, y *schema.Node) *schema.Node {
		return &schema.Node{K: k, S: s, Kids: []*schema.Node{x, y}}
	}
	coll := func(k string, n ...*schema.Node) *schema.Node {
		return &schema.Node{K: k, Kids: n, Commas: make([]bool, len(n))}
	}
	operands := []func() *schema.Node{
		func() *schema.Node { return schema.Prim("int") }, func() *schema.Node { return id("a") },
		func() *schema.Node { return schema.IntNode("4", 4) }, func() *schema.Node { return schema.FloatNode("1.5") },
		func() *schema.Node { return schema.TextNode("t") }, func() *schema.Node { return schema.Bool("true") },
		func() *schema.Node { return un("unwrap", "~", id("a")) }, func() *schema.Node { return un("enum", "&", id("b")) },
		func() *schema.Node { return un("enum", "&", coll("group", two("choice", "/", id("a"), id("b")))) },
		func() *schema.Node { return coll("group", id("a")) }, func() *schema.Node { return coll("array", id("a")) }, func() *schema.Node { return coll("map") },
		func() *schema.Node { return &schema.Node{K: "tag", S: "#"} },
		func() *schema.Node {
			return &schema.Node{K: "tag", S: "#", Lo: schema.UintNode("6", 6), Hi: schema.UintNode("24", 24), Kids: []*schema.Node{id("a")}}
		},
		func() *schema.Node { return two("range", "..", schema.IntNode("1", 1), schema.IntNode("9", 9)) },
		func() *schema.Node { return two("range", "...", id("n5"), schema.IntNode("9", 9)) },
		func() *schema.Node { return two("range", "..", schema.FloatNode("0.5"), id("f5")) },
		func() *schema.Node { return two("size", ".size", schema.Prim("bstr"), schema.IntNode("4", 4)) },
		func() *schema.Node { return two("regexp", ".regexp", schema.Prim("tstr"), schema.TextNode("x")) },
		func() *schema.Node { return two("bits", ".bits", schema.Prim("uint"), id("a")) },
		func() *schema.Node { return two("bits", ".bits", un("unwrap", "~", id("a")), id("b")) },
		func() *schema.Node { return two("bits", ".bits", un("enum", "&", id("a")), coll("group", id("b"))) },
		func() *schema.Node { return two("cmp", ".lt", schema.Prim("uint"), schema.IntNode("4", 4)) },
		func() *schema.Node { return two("cmp", ".ge", id("num"), id("n5")) },
	}
	out := []TreeCase{}
	put := func(v *schema.Node) {
		f := &schema.Node{K: "file", Pre: [][]*schema.Node{nil, nil}}
		f.Kids = []*schema.Node{{K: "rule", S: "=", Key: id("r"), Kids: []*schema.Node{v}}}
		out = append(out, TreeCase{Bytes(c08Prelude + schema.Pretty(schema.Tokens(f))), schema.Canon(f.Kids[0], false)})
	}
	entry := func(sep string, v *schema.Node) *schema.Node {
		return &schema.Node{K: "entry", S: sep, Key: id("a"), Kids: []*schema.Node{v}}
	}
	for _, x := range operands {
		for _, y := range operands {
			put(two("choice", "/", x(), y()))
			put(two("gchoice", "//", x(), y()))
			put(coll("array", two("choice", "/", x(), y())))
			put(coll("map", entry(":", two("choice", "/", x(), y()))))
			put(coll("map", entry("=>", two("choice", "/", x(), y()))))
			put(coll("group", two("gchoice", "//", entry(":", x()), entry("=>", y()))))
			put(coll("group", un("opt", "?", two("choice", "/", x(), y()))))
			put(two("gchoice", "//", two("choice", "/", x(), y()), y()))
			put(two("gchoice", "//", x(), two("choice", "/", y(), x())))
			for _, z := range operands {
				put(&schema.Node{K: "choice", S: "/", Kids: []*schema.Node{x(), y(), z()}})
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- C11: layout and comments

// PairCase are two spellings of the same schema
type PairCase struct {
	A, B  Bytes
	Fault string
}

var linesAndColumns = regexp.MustCompile(`lines? \d+|column \d+|~ \d+`)

func stripTree(tree *ast.CDDL) string {
	out := []string{}
	for _, r := range schema.Rules(tree) {
		out = append(out, schema.CanonAST(r, false))
	}
	return stripComments(strings.Join(out, "\n"))
}

// stripComments removes ` ;"..."` outside of quoted text
func stripComments(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		quoted := func(j int) int { // end of the quoted string that starts at j
			for j++; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
			return j + 1
		}
		switch {
		case strings.HasPrefix(s[i:], " ;\""):
			i = quoted(i + 2)
		case s[i] == '"':
			j := quoted(i)
			b.WriteString(s[i:j])
			i = j
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String()
}

func stripDiags(ds []diag) string {
	out := []string{}
	for _, d := range ds {
		out = append(out, linesAndColumns.ReplaceAllString(d.Msg, "#"))
	}
	return strings.Join(out, "\n")
}

func checkC11(c PairCase, o *core.Obs) error {
	o.LabelIf(c.Fault != "", "with "+c.Fault)
	o.LabelIf(strings.Contains(string(c.B), ";"), "comments inserted")
	o.LabelIf(strings.Contains(string(c.B), "\r\n"), "CRLF")
	o.NonTrivialIf(string(c.A) != string(c.B) && len(c.A) >= 20)
	ta, da := parse(c.A)
	tb, db := parse(c.B)
	if a, b := stripDiags(da), stripDiags(db); a != b {
		return fmt.Errorf("diagnostics depend on the layout:\n  %s\n against\n  %s", a, b)
	}
	if a, b := stripTree(ta), stripTree(tb); a != b {
		return fmt.Errorf("the rules depend on the layout\n%s", firstDiff(a, b))
	}
	return nil
}

func stripped(n *schema.Node) {
	n.Cmt, n.Drop = nil, nil
	n.Pre = make([][]*schema.Node, len(n.Kids)+1)
	for _, k := range n.Kids {
		stripped(k)
	}
}

// genC11 spells a schema without comments and plainly, and the same one with comments under a drawn layout
func genC11(t *rapid.T) PairCase {
	o := schema.Vary(t, schema.Default)
	o.OmitCommas = false
	g := schema.NewGen(t, o)
	fault := ""
	switch pick(t, 4) {
	case 1: // undefined names
		fault = "undefined names"
		g.Names = append(g.Names, "zz-undefined", "zz.other")
		f := g.File()
		f.Kids = f.Kids[:len(f.Kids)-1]
		f.Pre = f.Pre[:len(f.Kids)+1]
		return spellTwice(t, f, fault)
	case 2:
		fault = "redefinitions"
		f := g.File()
		name := sample(t, g.Names)
		f.Kids = append(f.Kids, g.Rule(name, "=", g.Value(schema.KType)))
		g.FinishFile(f)
		return spellTwice(t, f, fault)
	case 3:
		fault = "operand type errors"
		g.O.Width = 2
		f := g.File()
		bad := &schema.Node{K: "range", S: "..", Kids: []*schema.Node{g.Int(), g.Float()}}
		if chance(t, 1, 2) {
			bad = &schema.Node{K: "size", S: ".size", Kids: []*schema.Node{schema.Prim("bool"), g.Int()}}
		}
		f.Kids = append(f.Kids, g.Rule("zz-bad", "=", bad))
		g.FinishFile(f)
		f.Kids[len(f.Kids)-1].Cmt = nil
		return spellTwice(t, f, fault)
	}
	return spellTwice(t, g.File(), fault)
}

func spellTwice(t *rapid.T, f *schema.Node, fault string) PairCase {
	b, _ := schema.Spell(t, f)
	stripped(f)
	a := schema.Pretty(schema.Tokens(f))
	return PairCase{Bytes(a), Bytes(b), fault}
}

// genC11Fault lays a structurally faulty token sequence out twice
func genC11Fault(t *rapid.T) PairCase {
	o := faultOpts
	o.Comments = false
	kind := sample(t, []string{"no-assign", "no-operand", "no-value", "no-name", "no-key", "no-open", "no-close", "wrong-close", "stray-close", "double-comma", "illegal-char"})
	for {
		f := schema.Inject(t, schema.File(t, schema.Vary(t, o)), kind)
		if f == nil {
			kind = "illegal-char"
			continue
		}
		a := schema.Layout(f.Toks, schema.LayoutStyle(t), "")
		b := schema.Layout(f.Toks, schema.LayoutStyle(t), "\n")
		return PairCase{Bytes(a), Bytes(b), kind}
	}
}

// ---------------------------------------------------------------- C13: literals

// LiteralCase is a literal in a context
type LiteralCase struct {
	Src  Bytes
	Want string // canonical tree of the last rule, empty if the literal has to be reported
	Ctx  string
}

func genC13(t *rapid.T) LiteralCase {
	type lit struct {
		spelling string
		value    string
		fits     bool
	}
	draw := func(max uint64, notations bool) lit {
		if chance(t, 1, 6) { // too large
			s := sample(t, []string{"18446744073709551616", "0x10000000000000000", "99999999999999999999", "0o2000000000000000000000", "0b10000000000000000000000000000000000000000000000000000000000000000", "340282366920938463463374607431768211456"})
			if max < 1<<64-1 && chance(t, 1, 2) {
				v := max + 1 + uint64(pick(t, 3))
				s = schema.IntSpelling(t, v)
				if !notations {
					s = fmt.Sprint(v)
				}
			}
			if !notations && (s[0] == '0') {
				s = "18446744073709551616"
			}
			return lit{s, "", false}
		}
		v := schema.UintValue(t, max)
		s := fmt.Sprint(v)
		if notations {
			s = schema.IntSpelling(t, v)
			if len(s) > 2 && s[0] == '0' && chance(t, 1, 6) { // with leading zeros
				s = s[:2] + strings.Repeat("0", sample(t, []int{1, 3, 16, 17, 33, 65, 130, 520, 4100})) + s[2:]
			}
		}
		return lit{s, fmt.Sprint(v), true}
	}
	const maxInt = 1<<63 - 1
	gl := func(s string) string { return sample(t, []string{"", " ", "\n", "\t"}) + s }
	switch k := pick(t, 9); k {
	case 0, 1: // value of a rule or an alternative
		l := draw(maxInt, true)
		src, want := "r ="+gl(l.spelling), fmt.Sprintf("(rule ident:r int:%s)", l.value)
		if k == 1 {
			src, want = "r = bool /"+gl(l.spelling)+gl("/ tstr"), fmt.Sprintf("(rule ident:r (choice type:bool int:%s type:tstr))", l.value)
		}
		if !l.fits {
			want = ""
		}
		return LiteralCase{Bytes(src), want, "integer"}
	case 2: // range
		a, b := draw(maxInt, true), draw(maxInt, true)
		op := sample(t, []string{"..", "..."})
		src, want := "r = "+a.spelling+gl(op)+gl(b.spelling), fmt.Sprintf("(rule ident:r (range:%s op int:%s int:%s))", op, a.value, b.value)
		if !a.fits || !b.fits {
			want = ""
		}
		return LiteralCase{Bytes(src), want, "range bound"}
	case 3: // size
		l := draw(maxInt, true)
		src, want := "r = bstr .size "+l.spelling, fmt.Sprintf("(rule ident:r (size:.size op type:bstr int:%s))", l.value)
		if !l.fits {
			want = ""
		}
		return LiteralCase{Bytes(src), want, "size"}
	case 4: // occurrence
		a, b := draw(maxInt, true), draw(1<<64-1, true)
		src, want := "r = ["+a.spelling+"*"+b.spelling+" int]", fmt.Sprintf("(rule ident:r (array (occ:* op uint:%s uint:%s type:int)))", a.value, b.value)
		if !a.fits || !b.fits {
			want = ""
		}
		return LiteralCase{Bytes(src), want, "occurrence bound"}
	case 5: // tag
		l := draw(1<<64-1, false)
		major := pick(t, 8)
		src, want := fmt.Sprintf("r = #%d.%s(int)", major, l.spelling), fmt.Sprintf("(rule ident:r (tag uint:%d uint:%s type:int))", major, l.value)
		if !l.fits {
			want = ""
		}
		return LiteralCase{Bytes(src), want, "tag number"}
	case 6: // key
		l := draw(maxInt, true)
		sep := sample(t, []string{":", "=>"})
		src, want := "r = {"+l.spelling+gl(sep)+" int}", fmt.Sprintf("(rule ident:r (map (entry op ident:%s type:int)))", l.value)
		if !l.fits {
			want = ""
		}
		return LiteralCase{Bytes(src), want, "member key"}
	case 7: // decimal
		if chance(t, 1, 10) {
			return LiteralCase{Bytes("r = " + strings.Repeat("9", between(t, 309, 400)) + ".0"), "", "decimal"}
		}
		g := &schema.Gen{T: t}
		f := g.Float()
		if chance(t, 1, 4) {
			f = schema.FloatNode(strings.Repeat(fmt.Sprint(between(t, 1, 9)), between(t, 20, 300)) + "." + fmt.Sprint(pick(t, 100000)))
		}
		if chance(t, 1, 6) {
			f = schema.FloatNode("0." + strings.Repeat("0", between(t, 20, 330)) + fmt.Sprint(between(t, 1, 99999)))
		}
		if chance(t, 1, 12) { // so long that only the first of the digits count
			f = schema.FloatNode(f.S + strings.Repeat(sample(t, []string{"0", "9", "5", "12", "499"}), sample(t, []int{20, 130, 520, 2100})))
		}
		return LiteralCase{Bytes("r =" + gl(f.S)), "(rule ident:r float:" + f.V + ")", "decimal"}
	}
	g := &schema.Gen{T: t}
	s := g.TextValue()
	if chance(t, 1, 3) {
		s = strings.NewReplacer("\"", "", "\n", "", "\r", "").Replace(rapid.String().Draw(t, ""))
	}
	if chance(t, 1, 6) {
		s += strings.Repeat(sample(t, []string{"a", "é", "漢", "\\", ";", " ", "ab ", "\U0001F600", "'"}), sample(t, []int{20, 62, 130, 260, 1030, 4100, 66000})) + g.TextValue()
	}
	return LiteralCase{Bytes("r = \"" + s + "\""), fmt.Sprintf("(rule ident:r text:%q)", s), "text"}
}

func checkC13(c LiteralCase, o *core.Obs) error {
	o.Label("%s", c.Ctx)
	o.LabelIf(c.Want == "", "does not fit")
	o.NonTrivialIf(len(c.Src) >= 12 || c.Want == "")
	tree, ds := parse(c.Src)
	if c.Want == "" {
		if len(ds) == 0 {
			return fmt.Errorf("a literal that does not fit is not reported; tree %s", schema.CanonAST(tree, false))
		}
		return nil
	}
	if err := noDiags(ds); err != nil {
		return err
	}
	rules := schema.Rules(tree)
	if len(rules) != 1 {
		return fmt.Errorf("%d rules", len(rules))
	}
	if got := schema.CanonAST(rules[0], false); got != c.Want {
		return fmt.Errorf("the value is not the written one\n  want %s\n  got  %s", c.Want, got)
	}
	return nil
}

var _ = environment.NewEnvironment
var _ = token.EOF

func init() {
	core.Check("C05", "faults", "valid schemas with one injected fault of 16 kinds, under drawn layouts; non-trivial: the fault is not at the very start", 20000, genFault(schema.FaultKinds, false), checkC05)
	core.Check("C05", "edits", "token sequences that no reading of the grammar allows: valid ones after up to 3 edits, and drawn ones, against a liberal recogniser; non-trivial: 4 bytes or more", 20000, genIllFormed, checkC05)
	core.Check("C30", "faults", "as for C05, the faults whose place is unambiguous; non-trivial: the fault is neither at the start nor at the end of the source", 15000,
		genFault([]string{"no-operand", "no-value", "no-key", "no-assign", "no-name", "wrong-close", "stray-close", "double-comma", "illegal-char", "unknown-control", "too-large", "bad-number", "unterminated-text", "stray-token"}, true), checkC30Fault)

	core.Check("C06", "bytes", "arbitrary bytes; non-trivial: accepted with 6 nodes or more, or diagnosed after the start of the source", 10000, func(t *rapid.T) SrcCase { return SrcCase{anyBytes(t, 30)} }, checkC06)
	core.Check("C06", "tokens", "random token sequences; same rule", 30000, func(t *rapid.T) SrcCase { return SrcCase{tokenSoup(t, 25)} }, checkC06)
	core.Check("C06", "mutated", "damaged valid schemas; same rule", 10000, func(t *rapid.T) SrcCase { return SrcCase{mutate(t, validSource(t, schema.Vary(t, smallOpts)))} }, checkC06)
	core.Check("C06", "stretched", "sources with long tokens, long gaps or many tokens, up to 200000 bytes; same rule", 200, func(t *rapid.T) SrcCase { return SrcCase{stretched(t)} }, checkC06)
	core.Check("C06", "nested", "nesting 10 to 40000 deep, closed, unclosed or cut off; same rule", 40, genNested, checkC06)
	core.Enum("C06", "deep", "sources that open a construct 1000000 times; every one is non-trivial", deepCases, checkDeep)

	core.Check("C07", "schema", "generated valid schemas of all constructs under drawn layouts against the tree they spell; non-trivial: 5 kinds of constructs or more", 15000, genTree(false), checkTree(false, manyKinds(5)))
	core.Check("C08", "random", "expressions over all operators, operand spellings and parentheses; non-trivial: two kinds of operators or more", 20000, genC08, checkC08)
	core.Enum("C08", "combinations", "all combinations of 24 operand spellings around / and //, keyed, optional and in collections, and all triples around /; same rule", combosC08, checkC08)
	core.Check("C11", "valid and semantic faults", "a schema spelled plainly against the same one with comments under a drawn layout; non-trivial: different texts of 20 bytes or more", 12000, genC11, checkC11)
	core.Check("C11", "syntax faults", "a faulty token sequence under two layouts; same rule", 6000, genC11Fault, checkC11)
	core.Check("C12", "schema", "generated valid schemas under drawn layouts against the positions of everything in them; non-trivial: 5 kinds of constructs or more", 15000, genTree(true), checkTree(true, manyKinds(5)))
	core.Check("C31", "schema", "generated valid schemas under drawn layouts against the end of every node; non-trivial: 6 kinds of nodes or more", 15000, genC31, checkC31)
	core.Check("C31", "diagnostics", "valid, faulty, damaged and arbitrary sources against the ends and texts of all diagnostics; non-trivial: a diagnostic that is not at the start", 15000, func(t *rapid.T) SrcCase {
		if chance(t, 1, 2) {
			return SrcCase{genFault(schema.FaultKinds, false)(t).Src}
		}
		return SrcCase{anySource(t)}
	}, checkC31Diags)
	core.Check("C13", "literals", "integers in all notations, decimals and text in every place a literal may stand, near and beyond the limits; non-trivial: 12 bytes of source or more, or a literal that does not fit", 30000, genC13, checkC13)
}
