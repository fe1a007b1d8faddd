package props

import (
	"bytes"
	"fmt"
	goast "go/ast"
	"go/constant"
	"go/format"
	goparser "go/parser"
	gotoken "go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// GenCase is a schema of the generator's subset with the declarations that have to come out
type GenCase struct {
	Src  Bytes
	Pkg  string
	Want []string
}

// names of the generator's subset: words of letters, perhaps ending in digits, joined by - and _
var goWords = []string{"type", "func", "range", "map", "package", "import", "select", "chan", "go", "defer", "interface", "struct", "var", "const", "return", "switch", "break", "string", "error", "byte", "len", "self", "main", "init", "fmt", "validators", "iota", "true-value", "nil-value", "append"}

type goGen struct {
	*schema.Gen
	used map[string]bool // camel-cased rule names
	// the rules a rule may refer to: types further back in a fixed order, so that there is no recursion
	types map[string]int
	order []string
	// members of a struct and nesting
	width, depth int
}

// camel is the Go spelling of a name
func camel(name string) string {
	out := ""
	for _, w := range strings.FieldsFunc(name, func(r rune) bool { return r == '-' || r == '_' }) {
		out += strings.ToUpper(w[:1]) + w[1:]
	}
	return out
}

func (g *goGen) word() string {
	t := g.T
	if chance(t, 1, 5) {
		return sample(t, goWords)
	}
	w := ""
	long := 1
	if g.O.Long {
		long = sample(t, []int{1, 1, 3, 20})
	}
	for i := between(t, 1, 6) * long; i > 0; i-- {
		w += string(rune('a' + pick(t, 26)))
	}
	switch pick(t, 8) {
	case 6:
		w = strings.ToUpper(w[:1]) + w[1:]
	case 7:
		w += strconv.Itoa(pick(t, 30))
	case 5: // a capital within
		w += string(rune('A'+pick(t, 26))) + string(rune('a'+pick(t, 26)))
	}
	return w
}

// goName draws a name whose Go spelling is not taken yet
func (g *goGen) goName(taken map[string]bool) string {
	for i := 0; ; i++ {
		n := g.word()
		for k := pick(g.T, 3); k > 0; k-- {
			n += sample(g.T, []string{"-", "_"}) + g.word()
		}
		if i > 5 {
			n += "-n" + strconv.Itoa(i)
		}
		c := camel(n)
		if taken[c] || schema.IsKeyword(n) || c == "Valid" || c == "Id" {
			continue
		}
		taken[c] = true
		return n
	}
}

var goPrims = map[string]string{"int": "int", "uint": "uint", "nint": "int", "tstr": "string", "text": "string", "bool": "bool", "bstr": "[]byte", "bytes": "[]byte",
	"float": "float64", "float16": "float32", "float32": "float32", "float64": "float64", "nil": "struct{}", "null": "struct{}"}

func (g *goGen) literal() (n *schema.Node, typ, val string) {
	switch pick(g.T, 5) {
	case 0, 1:
		n = g.Int()
		return n, "int", n.V
	case 2:
		n = g.Float()
		return n, "float64", n.V
	case 3:
		n = schema.Bool(sample(g.T, []string{"true", "false"}))
		return n, "bool", n.V
	}
	n = g.Text()
	if chance(g.T, 1, 4) {
		n = schema.TextNode(sample(g.T, []string{"say `hi`", "a\\b", "50%", "\\", "\\n", "tab\there", "$1", "//", "/*", "*/", "\u00e9\u6f22", "\u0007", "\ufeff", "'", "\\\\"}))
	}
	return n, "string", n.V
}

// typ draws a type and its Go counterpart; rank is the place of the rule in the order of references
func (g *goGen) typ(depth, rank int, top bool) (*schema.Node, string) {
	t := g.T
	refs := g.order[rank+1:]
	k := pick(t, 8)
	switch {
	case k <= 1 || k <= 4 && depth <= 0:
		p := sample(t, schema.Prims)
		return schema.Prim(p), goPrims[p]
	case k == 2 || k == 3:
		if len(refs) > 0 {
			n := sample(t, refs)
			return schema.Ident(n), camel(n)
		}
	case k == 4:
		if !top {
			n, typ, _ := g.literal()
			return n, typ
		}
	case k == 5:
		if chance(t, 1, 2) {
			p := sample(t, []string{"uint", "bstr", "tstr", "text"})
			size := g.Int()
			return &schema.Node{K: "size", S: ".size", Kids: []*schema.Node{schema.Prim(p), size}}, goPrims[p]
		}
	}
	if depth <= 0 {
		return schema.Prim("bool"), "bool"
	}
	return g.members(sample(t, []string{"array", "group"}), depth-1, rank)
}

func (g *goGen) members(kind string, depth, rank int) (*schema.Node, string) {
	t := g.T
	n := &schema.Node{K: kind}
	fields := []string{}
	if kind == "array" {
		fields = append(fields, "_ struct{} toarray")
	}
	taken := map[string]bool{}
	for i := pick(t, g.width+1); i > 0; i-- {
		var m *schema.Node
		field := ""
		refs := []string{}
		for _, r := range g.order[rank+1:] {
			if !taken[camel(r)] && camel(r) != "Valid" {
				refs = append(refs, r)
			}
		}
		if len(refs) > 0 && chance(t, 1, 3) {
			r := sample(t, refs)
			taken[camel(r)] = true
			m, field = schema.Ident(r), "embed "+camel(r)
		} else {
			name := g.goName(taken)
			v, typ := g.typ(depth, rank, false)
			m = &schema.Node{K: "entry", S: ":", Key: schema.Ident(name), Kids: []*schema.Node{v}}
			field = camel(name) + " " + typ
		}
		if chance(t, 1, 3) {
			m = &schema.Node{K: "opt", S: "?", Kids: []*schema.Node{m}}
			field += " omitempty"
		}
		n.Kids = append(n.Kids, m)
		fields = append(fields, field)
	}
	g.Finish(n)
	return n, "struct{" + strings.Join(fields, "; ") + "}"
}

func genCode(t *rapid.T) GenCase { return genCodeN(t, 6) }

func genCodeN(t *rapid.T, max int) GenCase {
	o := schema.Opts{Depth: 2, Width: 4, Comments: true, PlainNames: true}
	g := &goGen{Gen: &schema.Gen{T: t, O: o}, used: map[string]bool{}, width: 4, depth: 3}
	n := between(t, 1, max)
	switch pick(t, 30) {
	case 26:
		n = between(t, 15, 60)
	case 27:
		g.width, g.depth = 60, 1
	case 28:
		g.depth, n = 9, 1
	case 29:
		g.O.Long = true
	}
	type rule struct {
		name    string
		literal bool
		node    *schema.Node
		decls   []string
	}
	rules := []*rule{}
	for i := 0; i < n; i++ {
		r := &rule{name: g.goName(g.used), literal: chance(t, 1, 4)}
		if !r.literal {
			g.order = append(g.order, r.name)
		}
		rules = append(rules, r)
	}
	rank := 0
	f := &schema.Node{K: "file"}
	for _, r := range rules {
		var v *schema.Node
		if r.literal {
			var typ, val string
			v, typ, val = g.literal()
			r.decls = []string{"var " + camel(r.name) + " " + typ + " = " + val}
		} else {
			var typ string
			v, typ = g.typ(between(t, 0, g.depth), rank, true)
			size := ""
			if v.K == "size" {
				size = fmt.Sprintf(" size %s", v.Kids[1].V)
			}
			r.decls = []string{"type " + camel(r.name) + " " + typ, "func (*" + camel(r.name) + ") Valid() error" + size}
			rank++
		}
		r.node = g.Rule(r.name, "=", v)
	}
	// definitions in any order
	for i := n - 1; i > 0; i-- {
		j := pick(t, i+1)
		rules[i], rules[j] = rules[j], rules[i]
	}
	c := GenCase{Pkg: sample(t, []string{"dist", "schema", "x", "pkg_1"})}
	for _, r := range rules {
		f.Kids = append(f.Kids, r.node)
		c.Want = append(c.Want, r.decls...)
	}
	g.FinishFile(f)
	src, _ := schema.Spell(t, f)
	c.Src = Bytes(src)
	return c
}

// generate runs the generator as the command does
func generate(c GenCase) (string, error) {
	tree, ds := parse(c.Src)
	if err := noDiags(ds); err != nil {
		return "", err
	}
	gen := gogen.NewGenerator(c.Pkg)
	gen.Visit(tree)
	var b bytes.Buffer
	if err := gen.String(&b); err != nil {
		return "", fmt.Errorf("writing fails: %v", err)
	}
	var again bytes.Buffer
	if err := gen.String(&again); err != nil || again.String() != b.String() {
		return "", fmt.Errorf("writing again gives something else (%v): %s", err, firstDiff(b.String(), again.String()))
	}
	return b.String(), nil
}

func codeLabels(c GenCase, o *core.Obs) {
	all := strings.Join(c.Want, "\n")
	o.LabelIf(strings.Contains(all, "toarray"), "array")
	o.LabelIf(bytes.Contains(c.Src, []byte(".size")), "limited size")
	o.LabelIf(strings.Contains(all, "embed"), "embedded member")
	o.LabelIf(strings.Contains(all, "omitempty"), "optional member")
	o.LabelIf(strings.Contains(all, "var "), "literal rule")
	o.LabelIf(strings.Count(all, "struct{") > strings.Count(all, "\ntype ")+2, "nested")
	o.NonTrivialIf(strings.Contains(all, "struct{") && len(c.Want) >= 3)
}

type checked struct {
	text string
	file *goast.File
	pkg  *types.Package
	info *types.Info
}

func compile(text string) (*checked, error) {
	fset := gotoken.NewFileSet()
	file, err := goparser.ParseFile(fset, "gen.go", text, goparser.ParseComments|goparser.AllErrors)
	if err != nil {
		return nil, fmt.Errorf("the generated code does not parse: %v\n%s", err, text)
	}
	info := &types.Info{Types: map[goast.Expr]types.TypeAndValue{}, Defs: map[*goast.Ident]types.Object{}}
	conf := types.Config{Importer: onlyValidators{}}
	pkg, err := conf.Check(file.Name.Name, fset, []*goast.File{file}, info)
	if err != nil {
		return nil, fmt.Errorf("the generated code does not compile: %v\n%s", err, text)
	}
	return &checked{text, file, pkg, info}, nil
}

// onlyValidators imports the run-time package that generated code may use
type onlyValidators struct{}

func (onlyValidators) Import(path string) (*types.Package, error) {
	if path != gogen.VALIDATOR_PKG {
		return nil, fmt.Errorf("unexpected import of %s", path)
	}
	fset := gotoken.NewFileSet()
	file, err := goparser.ParseFile(fset, "validators.go", validatorsAPI, 0)
	if err != nil {
		return nil, err
	}
	return (&types.Config{}).Check(path, fset, []*goast.File{file}, nil)
}

const validatorsAPI = `package validators
func InExclusiveRange[T int | uint | float64](val, lower, upper T) bool { return false }
func InInclusiveRange[T int | uint | float64](val, lower, upper T) bool { return false }
func IsLessThan[T int | uint | float64](val, limit T) bool { return false }
func IsGreaterThan[T int | uint | float64](val, limit T) bool { return false }
func CheckSize(val interface{}, size uint) bool { return false }
func MustBool(out bool) {}
func MustNotErr(err error) {}
`

func value(tv constant.Value, typ types.Type) string {
	switch tv.Kind() {
	case constant.Int, constant.Float:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(tv)
			return schema.FloatValue(f)
		}
		return tv.ExactString()
	case constant.String:
		return fmt.Sprintf("%q", constant.StringVal(tv))
	}
	return tv.ExactString()
}

func checkC20(c GenCase, o *core.Obs) error {
	codeLabels(c, o)
	text, err := generate(c)
	if err != nil {
		return err
	}
	ch, err := compile(text)
	if err != nil {
		return err
	}
	if out, err := format.Source([]byte(text)); err != nil || string(out) != text {
		return fmt.Errorf("the generated code is not in gofmt form (%v)\n%s\n%s", err, firstDiff(string(out), text), text)
	}
	// literals
	got := vars(ch)
	for _, w := range c.Want {
		if !strings.HasPrefix(w, "var ") {
			continue
		}
		name := strings.Fields(w)[1]
		if got[name] != w {
			return fmt.Errorf("literal\n  want %s\n  got  %s\n%s", w, got[name], text)
		}
	}
	return nil
}

func vars(ch *checked) map[string]string {
	out := map[string]string{}
	for _, d := range ch.file.Decls {
		g, ok := d.(*goast.GenDecl)
		if !ok || g.Tok != gotoken.VAR && g.Tok != gotoken.CONST {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*goast.ValueSpec)
			for i, n := range v.Names {
				val := "?"
				typ := ch.info.Defs[n].Type()
				if i < len(v.Values) {
					if tv := ch.info.Types[v.Values[i]]; tv.Value != nil {
						val = value(tv.Value, typ)
					}
				}
				out[n.Name] = fmt.Sprintf("%s %s %s = %s", g.Tok, n.Name, typ, val)
			}
		}
	}
	return out
}

func typeText(t types.Type) string {
	switch v := t.(type) {
	case *types.Basic:
		return v.Name()
	case *types.Named:
		return v.Obj().Name()
	case *types.Slice:
		return "[]" + typeText(v.Elem())
	case *types.Pointer:
		return "*" + typeText(v.Elem())
	case *types.Struct:
		fields := []string{}
		for i := 0; i < v.NumFields(); i++ {
			f := v.Field(i)
			s := f.Name() + " " + typeText(f.Type())
			if f.Embedded() {
				s = "embed " + typeText(f.Type())
			}
			opts := strings.Split(reflect.StructTag(v.Tag(i)).Get("cbor"), ",")
			if opts[0] != "" {
				s += " as " + opts[0]
			}
			for _, o := range opts[1:] {
				s += " " + o
			}
			fields = append(fields, s)
		}
		return "struct{" + strings.Join(fields, "; ") + "}"
	}
	return fmt.Sprintf("%T %s", t, t)
}

// declarations lists what a generated file declares
func declarations(ch *checked) []string {
	out := []string{}
	vs := vars(ch)
	for _, d := range ch.file.Decls {
		switch v := d.(type) {
		case *goast.GenDecl:
			for _, s := range v.Specs {
				switch spec := s.(type) {
				case *goast.TypeSpec:
					alias := ""
					if spec.Assign.IsValid() {
						alias = "= "
					}
					out = append(out, "type "+spec.Name.Name+" "+alias+typeText(ch.info.Types[spec.Type].Type))
				case *goast.ValueSpec:
					for _, n := range spec.Names {
						out = append(out, vs[n.Name])
					}
				case *goast.ImportSpec:
					if spec.Path.Value != strconv.Quote(gogen.VALIDATOR_PKG) || spec.Name != nil {
						out = append(out, "import "+spec.Path.Value)
					}
				}
			}
		case *goast.FuncDecl:
			sig := ch.info.Defs[v.Name].Type().(*types.Signature)
			res := []string{}
			for i := 0; i < sig.Results().Len(); i++ {
				res = append(res, typeText(sig.Results().At(i).Type()))
			}
			s := "func " + v.Name.Name
			if sig.Recv() != nil {
				s = "func (" + typeText(sig.Recv().Type()) + ") " + v.Name.Name
			}
			sizes := "" // the limits handed to the validators
			goast.Inspect(v.Body, func(n goast.Node) bool {
				if call, ok := n.(*goast.CallExpr); ok {
					for _, a := range call.Args {
						if tv := ch.info.Types[a]; tv.Value != nil && tv.Value.Kind() == constant.Int {
							sizes += " size " + tv.Value.ExactString()
						}
					}
				}
				return true
			})
			out = append(out, fmt.Sprintf("%s(%s) %s%s", s, strings.Repeat("?", sig.Params().Len()), strings.Join(res, ", "), sizes))
		}
	}
	return out
}

func checkC21(c GenCase, o *core.Obs) error {
	codeLabels(c, o)
	text, err := generate(c)
	if err != nil {
		return err
	}
	ch, err := compile(text)
	if err != nil {
		return nil // C20 decides that
	}
	if ch.file.Name.Name != c.Pkg {
		return fmt.Errorf("package %s instead of %s", ch.file.Name.Name, c.Pkg)
	}
	got := declarations(ch)
	if g, w := strings.Join(got, "\n"), strings.Join(c.Want, "\n"); g != w {
		return fmt.Errorf("the declarations do not mirror the schema: %s\n%s", firstDiff(w, g), text)
	}
	return nil
}

// checkC20Any: whatever the generator does not refuse is Go
func checkC20Any(c SrcCase, o *core.Obs) error {
	tree, ds := parse(c.Src)
	if len(ds) > 0 {
		return nil // C04 decides that
	}
	rules := []string{}
	for _, r := range tree.Rules {
		if rule, ok := r.(*ast.Rule); ok {
			rules = append(rules, rule.Name.Name)
		}
	}
	gen := gogen.NewGenerator("dist")
	refused := func() (why string) {
		defer func() {
			if r := recover(); r != nil {
				why = fmt.Sprint("refused ", r)
			}
		}()
		gen.Visit(tree)
		return
	}()
	var b bytes.Buffer
	if refused == "" {
		if err := gen.String(&b); err != nil {
			refused = fmt.Sprint("refused ", err)
		}
	}
	if refused != "" {
		o.Label("refused")
		o.NonTrivialIf(len(c.Src) > 10)
		return nil
	}
	o.Label("generated")
	o.NonTrivialIf(len(rules) > 0)
	file, err := goparser.ParseFile(gotoken.NewFileSet(), "gen.go", b.Bytes(), goparser.ParseComments)
	if err != nil {
		return fmt.Errorf("the generated code does not parse: %v\n%s", err, b.String())
	}
	if out, err := format.Source(b.Bytes()); err != nil || string(out) != b.String() {
		return fmt.Errorf("the generated code is not in gofmt form (%v)\n%s\n%s", err, firstDiff(string(out), b.String()), b.String())
	}
	n := 0
	for _, d := range file.Decls {
		if g, ok := d.(*goast.GenDecl); ok && g.Tok != gotoken.IMPORT {
			n += len(g.Specs)
		}
	}
	if n != len(rules) {
		return fmt.Errorf("%d declarations for the %d rules %v\n%s", n, len(rules), rules, b.String())
	}
	return nil
}

var anyCodeOpts = schema.Opts{MaxRules: 2, MinRules: 1, Depth: 2, Width: 2, Controls: true, Comments: true, BareEntries: true, Extend: true}

func init() {
	core.Check("C20", "any schema", "valid schemas of all constructs: generation is refused, or yields Go with one declaration per rule; non-trivial: a rule that is generated, or a refused source of more than 10 bytes", 5000, func(t *rapid.T) SrcCase { return SrcCase{validSource(t, anyCodeOpts)} }, checkC20Any)
	core.Check("C20", "code", "schemas of up to 6 literals, types, arrays and groups with nested, optional and embedded members; non-trivial: three declarations or more, one of them a struct", 3000, genCode, checkC20)
	core.Check("C21", "declarations", "as for C20", 3000, genCode, checkC21)
}
