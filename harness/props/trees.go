package props

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"sync"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// ---------------------------------------------------------------- C16

// results are everything tokenizing and parsing a source returns
type results struct {
	toks []ltok
	tree *ast.CDDL
	errs parser.ErrorList
}

func process(buf []byte) (*results, error) {
	r := &results{}
	toks, err := lexAll(buf)
	if err != nil {
		return nil, err
	}
	r.toks = toks
	r.tree, r.errs = parser.NewParser(lexer.NewLexer(buf)).ParseFile()
	return r, nil
}

func (r *results) render() string {
	var b strings.Builder
	for _, t := range r.toks {
		fmt.Fprintf(&b, "%d %+v %q\n", t.Tok, t.Pos, t.Lit)
	}
	b.WriteString(schema.CanonAST(r.tree, true) + "\n")
	for _, d := range diagsOf(r.errs) {
		fmt.Fprintf(&b, "%s | %s %+v %+v\n", d.Text, d.Msg, d.Start, d.End)
	}
	for _, n := range r.tree.Rules {
		b.WriteString(astutils.Format(n) + "\n")
	}
	return b.String()
}

// BufferCase is a source in a buffer with spare capacity
type BufferCase struct {
	Src   Bytes
	Spare Bytes // what lies behind the source in the same buffer
}

// anySource draws a valid, faulty or arbitrary source
func anySource(t *rapid.T) []byte {
	switch pick(t, 8) {
	case 0:
		return mutate(t, validSource(t, smallOpts))
	case 1:
		return tokenSoup(t, 20)
	case 2:
		return anyBytes(t, 25)
	case 3, 4:
		o := schema.Vary(t, schema.Default)
		f, _ := semFile(t, o, 3)
		f.Kids = append(f.Kids, f.Kids[pick(t, len(f.Kids))])
		f.Pre = nil
		src, _ := schema.Spell(t, f)
		return []byte(src)
	case 5:
		return []byte(genC14(true)(t).Src)
	}
	if chance(t, 1, 30) {
		return stretched(t)
	}
	return validSource(t, fullOpts(t))
}

func genC16(t *rapid.T) BufferCase {
	return BufferCase{anySource(t), anyBytes(t, 12)}
}

func checkC16(c BufferCase, o *core.Obs) error {
	plain := append(make([]byte, 0, len(c.Src)), c.Src...)
	r1, err := process(plain)
	if err != nil {
		return err
	}
	want := r1.render()
	o.LabelIf(len(r1.errs) > 0, "diagnosed")
	o.LabelIf(len(c.Spare) == 0, "no spare capacity")
	o.NonTrivialIf(len(r1.toks) > 5)

	whole := append(append([]byte{}, c.Src...), c.Spare...)
	keep := string(whole)
	r2, err := process(whole[:len(c.Src)])
	if err != nil {
		return err
	}
	if string(plain) != string(c.Src) || string(whole) != keep {
		return fmt.Errorf("the caller's buffer was modified\n  before %q\n  after  %q", keep, whole)
	}
	if got := r2.render(); got != want {
		return fmt.Errorf("the results depend on the buffer or the run\n%s", firstDiff(want, got))
	}
	for i := 0; i < 2; i++ {
		r3, err := process(plain)
		if err != nil {
			return err
		}
		if got := r3.render(); got != want {
			return fmt.Errorf("the results differ from run to run\n%s", firstDiff(want, got))
		}
	}
	for i := range whole {
		whole[i] = 'Z'
	}
	for i := range plain {
		plain[i] = '#'
	}
	if got := r2.render(); got != want {
		return fmt.Errorf("results already returned change with the buffer\n%s", firstDiff(want, got))
	}
	if got := r1.render(); got != want {
		return fmt.Errorf("results already returned change with the buffer\n%s", firstDiff(want, got))
	}
	return nil
}

// MixCase are sources processed at the same time
type MixCase struct {
	Srcs    []Bytes
	Workers int
	Rounds  int
}

func genC16Mix(t *rapid.T) MixCase {
	c := MixCase{Workers: several(t, 2, 8, 12, 20, 40), Rounds: between(t, 1, 3)}
	for i := several(t, 2, 6, 9, 20, 40); i > 0; i-- {
		c.Srcs = append(c.Srcs, anySource(t))
	}
	// not more work than the race detector gets done in a moment
	for work := func() (n int) {
		for _, s := range c.Srcs {
			n += (len(s) + 200) * c.Workers * c.Rounds
		}
		return
	}; work() > 400000; {
		switch {
		case c.Rounds > 1:
			c.Rounds--
		case c.Workers > 2:
			c.Workers = c.Workers/2 + 1
		case len(c.Srcs) > 1:
			c.Srcs = c.Srcs[1:]
		default:
			return c
		}
	}
	return c
}

func checkC16Mix(c MixCase, o *core.Obs) error {
	o.Label("workers %d", c.Workers)
	o.NonTrivialIf(len(c.Srcs) >= 3)
	// the concurrent runs come first, so that nothing is set up by a run before them
	got := make([][]string, c.Workers)
	errs := make([]error, c.Workers)
	var wg sync.WaitGroup
	start := make(chan bool)
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[w] = fmt.Errorf("panic in a concurrent run: %v", r)
				}
			}()
			<-start
			for k := 0; k < c.Rounds*len(c.Srcs); k++ {
				r, err := process(c.Srcs[(k+w)%len(c.Srcs)])
				if err != nil {
					errs[w] = err
					return
				}
				got[w] = append(got[w], r.render())
			}
		}(w)
	}
	close(start)
	wg.Wait()
	want := []string{}
	for _, s := range c.Srcs {
		r, err := process(s)
		if err != nil {
			return err
		}
		want = append(want, r.render())
	}
	for w := range got {
		if errs[w] != nil {
			return errs[w]
		}
		for k, g := range got[w] {
			if want[(k+w)%len(want)] != g {
				return fmt.Errorf("worker %d, source %d: a concurrent run differs from one alone\n%s", w, (k+w)%len(want), firstDiff(want[(k+w)%len(want)], g))
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C17

// WalkCase is a valid source, the node the walk starts at and the nodes not descended into (by position in the
// list of nodes, modulo)
type WalkCase struct {
	Src  Bytes
	Root int
	Skip []int
}

func genC17(t *rapid.T) WalkCase {
	c := WalkCase{Src: validSource(t, fullOpts(t))}
	if chance(t, 1, 3) {
		c.Root = pick(t, 40)
	}
	if chance(t, 1, 2) {
		for i := several(t, 1, 6, 20, 100); i > 0; i-- {
			c.Skip = append(c.Skip, pick(t, several(t, 60, 60, 600, 6000)))
		}
	}
	return c
}

type walkEvent struct {
	open bool
	node ast.Node // of a closing event: the node that is closed
}

type recorder struct {
	events *[]walkEvent
	skip   map[ast.Node]bool
	node   ast.Node // what this visitor was returned for
	parent map[ast.Node]ast.Node
}

func (r *recorder) Visit(n ast.Node) astutils.Visitor {
	if n == nil {
		*r.events = append(*r.events, walkEvent{false, r.node})
		return nil
	}
	*r.events = append(*r.events, walkEvent{true, n})
	r.parent[n] = r.node
	if r.skip[n] {
		return nil
	}
	return &recorder{r.events, r.skip, n, r.parent}
}

func describe(n ast.Node) string {
	if n == nil {
		return "nothing"
	}
	return fmt.Sprintf("%T at %d:%d", n, n.Start().Line, n.Start().Column)
}

func checkC17(c WalkCase, o *core.Obs) error {
	tree, ds := parse(c.Src)
	if err := noDiags(ds); err != nil {
		return err
	}
	all, err := nodesOf(tree)
	if err != nil {
		return err
	}
	root := all[c.Root%len(all)]
	rec := &recorder{&[]walkEvent{}, map[ast.Node]bool{}, nil, map[ast.Node]ast.Node{}}
	for _, i := range c.Skip {
		rec.skip[all[i%len(all)]] = true
	}
	want := []walkEvent{}
	parents := map[ast.Node]ast.Node{}
	var visit func(n, parent ast.Node) error
	visit = func(n, parent ast.Node) error {
		want = append(want, walkEvent{true, n})
		parents[n] = parent
		if rec.skip[n] {
			return nil
		}
		kids, err := childrenOf(n)
		if err != nil {
			return err
		}
		for _, k := range kids {
			if err := visit(k, n); err != nil {
				return err
			}
		}
		want = append(want, walkEvent{false, n})
		return nil
	}
	if err := visit(root, nil); err != nil {
		return err
	}
	o.Label("from %T", root)
	o.LabelIf(len(c.Skip) > 0, "declining")
	o.NonTrivialIf(len(want) >= 12)
	astutils.Walk(rec, root)
	got := *rec.events
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("event %d is missing: %v %s", i, want[i].open, describe(want[i].node))
		case i >= len(want):
			return fmt.Errorf("event %d is too much: %v %s", i, got[i].open, describe(got[i].node))
		case want[i].open != got[i].open || want[i].node != got[i].node:
			return fmt.Errorf("event %d: want open=%v %s, got open=%v %s", i, want[i].open, describe(want[i].node), got[i].open, describe(got[i].node))
		}
	}
	for n, p := range parents {
		if rec.parent[n] != p {
			return fmt.Errorf("%s is visited below %s instead of %s", describe(n), describe(rec.parent[n]), describe(p))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C18

var posBlock = regexp.MustCompile(`\{[^{}]*\}`)
var number = regexp.MustCompile(`\d+`)

// shown lists what the printed form of a node has to contain, in order
type shown struct {
	word      string
	kind      bool
	line, col int // if set, a position
}

func expectShown(n ast.Node, out *[]shown, counts map[string]int) {
	kind := func(k string) {
		*out = append(*out, shown{word: k, kind: true})
		counts[k]++
	}
	word := func(w string) { *out = append(*out, shown{word: w}) }
	pos := func(p token.Position) { *out = append(*out, shown{line: p.Line, col: p.Column}) }
	switch v := n.(type) {
	case *ast.Identifier:
		kind("Ident")
		word("'" + v.Name + "'")
		pos(v.Pos)
	case *ast.IntegerLiteral:
		kind("IntegerLiteral")
		word(fmt.Sprintf("'%d'", v.Literal))
		pos(v.Pos)
	case *ast.FloatLiteral:
		kind("FloatLiteral")
		word(fmt.Sprintf("'%f'", v.Literal))
		pos(v.Range.Start)
	case *ast.IntegerType:
		kind("IntegerType")
		word("'int'")
		pos(v.Pos)
	case *ast.FloatType:
		kind("FloatType")
		word("'" + v.Token.String() + "'")
		pos(v.Pos)
	case *ast.TypeChoice:
		kind("TypeChoice")
		pos(v.Pos)
		expectShown(v.First, out, counts)
		expectShown(v.Second, out, counts)
	case *ast.Enumeration:
		kind("Enumeration")
		pos(v.Pos)
		expectShown(v.Value, out, counts)
	case *ast.Group:
		kind("Group")
		pos(v.Pos)
		word(fmt.Sprint(len(v.Entries)))
	}
}

func isWordChar(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_'
}

// indexWord finds a whole word, or a quoted text
func indexWord(s, w string) int {
	for from := 0; ; {
		i := strings.Index(s[from:], w)
		if i < 0 {
			return -1
		}
		i += from
		end := i + len(w)
		if (i == 0 || !isWordChar(s[i-1]) || !isWordChar(w[0])) && (end == len(s) || !isWordChar(s[end]) || !isWordChar(w[len(w)-1])) {
			return i
		}
		from = i + 1
	}
}

func checkShown(text string, n ast.Node) error {
	want := []shown{}
	counts := map[string]int{}
	expectShown(n, &want, counts)
	at := 0
	for _, w := range want {
		if w.line == 0 {
			i := indexWord(text[at:], w.word)
			if i < 0 {
				return fmt.Errorf("%s does not show %s in its place (after offset %d):\n%s", describe(n), w.word, at, text)
			}
			at += i + len(w.word)
			continue
		}
		loc := posBlock.FindStringIndex(text[at:])
		if loc == nil {
			return fmt.Errorf("%s does not show a position in its place (after offset %d):\n%s", describe(n), at, text)
		}
		block := text[at+loc[0] : at+loc[1]]
		l, c := field(block, "line"), field(block, "column")
		if l != fmt.Sprint(w.line) || c != fmt.Sprint(w.col) {
			return fmt.Errorf("%s shows the position %s instead of line %d column %d:\n%s", describe(n), block, w.line, w.col, text)
		}
		at += loc[1]
	}
	for k, c := range counts {
		got := 0
		for rest := text; ; got++ {
			i := indexWord(rest, k)
			if i < 0 {
				break
			}
			rest = rest[i+len(k):]
		}
		// names are quoted, but may be spelled like a kind
		quoted := strings.Count(text, "'"+k+"'")
		if got-quoted != c {
			return fmt.Errorf("%s shows %d times %s instead of %d times:\n%s", describe(n), got-quoted, k, c, text)
		}
	}
	return nil
}

// field finds the number behind a label
func field(block, label string) string {
	i := strings.Index(strings.ToLower(block), label)
	if i < 0 {
		return ""
	}
	return number.FindString(block[i:])
}

// PrintCase is a valid source and an order in which nodes are printed
type PrintCase struct {
	Src   Bytes
	Order []int
}

// choiceHeavy draws schemas rich in what the printer shows
func genC18(t *rapid.T) PrintCase {
	c := PrintCase{}
	if chance(t, 1, 2) {
		o := fullOpts(t)
		o.Large = min(o.Large, 130) // every node is printed with all that it contains
		c.Src = validSource(t, o)
	} else {
		c.Src = genC08(t).Src
	}
	for i := pick(t, 6); i > 0; i-- {
		c.Order = append(c.Order, pick(t, 100))
	}
	return c
}

func checkC18(c PrintCase, o *core.Obs) error {
	tree, ds := parse(c.Src)
	if err := noDiags(ds); err != nil {
		return err
	}
	nodes, err := nodesOf(tree)
	if err != nil {
		return err
	}
	alone := []string{}
	kinds := map[string]bool{}
	for _, n := range nodes {
		s := astutils.Format(n)
		if s == "" {
			return fmt.Errorf("%s is printed as nothing", describe(n))
		}
		if err := checkShown(s, n); err != nil {
			return err
		}
		alone = append(alone, s)
		kinds[fmt.Sprintf("%T", n)] = true
	}
	for _, k := range []string{"Identifier", "IntegerLiteral", "FloatLiteral", "IntegerType", "FloatType", "TypeChoice", "Enumeration", "Group"} {
		o.LabelIf(kinds["*ast."+k], "shows "+k)
	}
	o.NonTrivialIf(len(nodes) >= 8)
	order := append([]int{}, c.Order...)
	for i := len(nodes) - 1; i >= 0; i-- {
		order = append(order, i)
	}
	for _, i := range order {
		i %= len(nodes)
		if s := astutils.Format(nodes[i]); s != alone[i] {
			return fmt.Errorf("%s is printed differently after other nodes\n%s", describe(nodes[i]), firstDiff(alone[i], s))
		}
	}
	return nil
}

// ---------------------------------------------------------------- C19

// TableOp is an operation on one of several symbol tables
type TableOp struct {
	Table int
	Op    string
	Name  string
	Count int `json:",omitempty"` // how many names are added by fill
}

func genC19(t *rapid.T) []TableOp {
	g := &schema.Gen{T: t, O: schema.Default}
	pool := []string{}
	for i := between(t, 1, 6); i > 0; i-- {
		switch pick(t, 4) {
		case 0:
			pool = append(pool, sample(t, []string{"", " ", "a", "A", "a ", "a-b", "a_b", "int", "$x", "é", "nil"}))
		case 1:
			if len(pool) > 0 { // close to another one
				pool = append(pool, pool[0]+sample(t, []string{"", "s", "-", "\x00"}), strings.ToUpper(pool[0]))
				break
			}
			fallthrough
		default:
			pool = append(pool, g.Name())
		}
	}
	tables := between(t, 1, 3)
	ops := []TableOp{}
	for i := between(t, 1, 40); i > 0; i-- {
		ops = append(ops, TableOp{pick(t, tables), sample(t, []string{"add", "add", "get", "exists"}), sample(t, pool), 0})
	}
	if chance(t, 1, 400) { // a large table
		at := pick(t, len(ops)+1)
		fill := TableOp{pick(t, tables), "fill", sample(t, pool), sample(t, []int{70, 140, 270, 530, 1030, 2060, 4110, 8200, 20000})}
		ops = append(ops[:at:at], append([]TableOp{fill}, ops[at:]...)...)
	}
	return ops
}

func checkC19(ops []TableOp, o *core.Obs) error {
	tables := map[int]*environment.Environment{}
	model := map[int]map[string]ast.Node{}
	values := []func(i int) ast.Node{
		func(i int) ast.Node { return &ast.Identifier{Name: fmt.Sprint(i)} },
		func(i int) ast.Node { return &ast.IntegerLiteral{Literal: int64(i)} },
		func(i int) ast.Node { return &ast.Map{} },
		func(i int) ast.Node { return &ast.TextLiteral{Literal: fmt.Sprint(i)} },
		func(i int) ast.Node { return nil }, // a name without a value is added all the same
		func(i int) ast.Node { return (*ast.Group)(nil) },
		func(i int) ast.Node { return &ast.BadNode{} },
		func(i int) ast.Node { return &ast.TypeChoice{} },
		func(i int) ast.Node { return &ast.Array{} },
		func(i int) ast.Node { return &ast.TstrType{} },
		func(i int) ast.Node { return &ast.Enumeration{} },
		func(i int) ast.Node { return &ast.Tag{} },
		func(i int) ast.Node { return &ast.Range{} },
		func(i int) ast.Node { return &ast.FloatLiteral{Literal: float64(i)} },
	}
	refused := 0
	names := map[string]bool{}
	filled := []string{} // names added by the hundred, looked at now and then
	stand := func(i int, op TableOp, n string) error {
		for k, e := range tables {
			v, ok := model[k][n]
			if e.Exists(n) != ok || ok && e.Get(n) != v || !ok && e.Get(n) != nil {
				return fmt.Errorf("after operation %d (%+v): %q in table %d is %v (exists %v) instead of %v (%v)", i, op, n, k, e.Get(n), e.Exists(n), v, ok)
			}
		}
		return nil
	}
	for i, op := range ops {
		names[op.Name] = true
		if tables[op.Table] == nil {
			tables[op.Table], model[op.Table] = environment.NewEnvironment(), map[string]ast.Node{}
		}
		e, m := tables[op.Table], model[op.Table]
		have, ok := m[op.Name]
		switch op.Op {
		case "add":
			v := values[i%len(values)](i)
			err := e.Add(op.Name, v)
			if ok != (err != nil) {
				return fmt.Errorf("operation %d: adding %q to table %d: error %v, but already there: %v", i, op.Name, op.Table, err, ok)
			}
			if err != nil && !errors.Is(err, environment.ErrSymbolExists) {
				return fmt.Errorf("operation %d: adding %q again to table %d: error %v", i, op.Name, op.Table, err)
			}
			if !ok {
				m[op.Name] = v
			} else {
				refused++
			}
		case "fill":
			for j := 0; j < op.Count; j++ {
				n := fmt.Sprintf("%s#%d", op.Name, j)
				v := &ast.IntegerLiteral{Literal: int64(j)}
				if err := e.Add(n, v); err != nil {
					return fmt.Errorf("operation %d: adding %q, name %d of the table: error %v", i, n, len(m), err)
				}
				m[n] = v
				filled = append(filled, n)
			}
		case "exists":
			if got := e.Exists(op.Name); got != ok {
				return fmt.Errorf("operation %d: %q exists in table %d: %v instead of %v", i, op.Name, op.Table, got, ok)
			}
		case "get":
			if got := e.Get(op.Name); got != have {
				return fmt.Errorf("operation %d: %q in table %d is %v instead of %v", i, op.Name, op.Table, got, have)
			}
		}
		// whatever was done, everything is still as in the model
		for n := range names {
			if err := stand(i, op, n); err != nil {
				return err
			}
		}
		for j := range filled {
			if j%97 == i%97 || i == len(ops)-1 || op.Op == "fill" {
				if err := stand(i, op, filled[j]); err != nil {
					return err
				}
			}
		}
	}
	o.LabelIf(len(filled) > 0, "large tables")
	o.Label("tables %d", len(tables))
	o.LabelIf(refused > 0, "with refused additions")
	o.NonTrivialIf(refused > 0 && len(ops) >= 5)
	return nil
}

func init() {
	core.Check("C16", "buffers", "valid, faulty and arbitrary sources in a buffer with something behind them, three times; non-trivial: 6 tokens or more", 8000, genC16, checkC16)
	core.Check("C16", "concurrent", "up to 6 sources processed by up to 8 goroutines against one after another, under the race detector; non-trivial: 3 sources or more", 300, genC16Mix, checkC16Mix)
	core.Check("C17", "walks", "valid schemas, walked from any node, declining some nodes; non-trivial: 12 events or more", 12000, genC17, checkC17)
	core.Check("C18", "printing", "all nodes of valid schemas, printed in two orders; non-trivial: 8 nodes or more", 8000, genC18, checkC18)
	core.Check("C19", "operations", "up to 40 operations on up to 3 tables against maps; non-trivial: 5 operations or more, one of them a refused addition", 20000, genC19, checkC19)
}
