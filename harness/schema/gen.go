package schema

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Opts selects what generated schemas contain
type Opts struct {
	MaxRules    int  // 1..MaxRules rules
	MinRules    int  //
	Depth       int  // nesting
	Width       int  // members per collection, alternatives per choice
	Controls    bool // ranges and control operators
	Comments    bool
	OmitCommas  bool // sometimes leave out optional commas
	Extend      bool // /= and //= rules
	NoSemi      bool // no ';' inside text literals
	BareEntries bool // rules whose value is a keyed entry or carries an occurrence indicator
	PlainNames  bool // names are letters, digits, - and _ only
	Long        bool // some names, texts, comments and gaps are long
	Wrap        int  // types are nested up to that deep in collections, tags and prefixes
	Pad         int  // that many plain rules more
	Large       int  // a rule with a choice or collection of that many members
}

// Vary returns the options, or in some cases ones that make schemas large in one respect
func Vary(t *rapid.T, o Opts) Opts {
	switch Pick(t, 40) {
	case 33: // very many rules, or members
		switch Pick(t, 6) {
		case 2, 3:
			o.Large = From(t, []int{130, 300, 700, 1010, 1100, 2100, 4200})
		case 4, 5:
			o.Pad, o.MaxRules = From(t, []int{90, 260, 520, 1030, 2060}), max(o.MinRules, 3)
		}
	case 34: // deep and narrow
		o.Depth, o.Width, o.MaxRules = 10, 2, max(o.MinRules, 2)
	case 35:
		o.Long = true
	case 36: // many rules
		o.MinRules, o.MaxRules, o.Depth, o.Width = 20, 80, 1, 2
	case 37: // wide collections and long choices
		o.Width, o.Depth, o.MaxRules = 70, 1, max(o.MinRules, 2)
	case 38:
		o.Wrap, o.MaxRules = 60, max(o.MinRules, 2)
	case 39:
		o.Wrap, o.Long = 12, true
	}
	return o
}

// long stretches a piece of text in some cases
func (g *Gen) long(s, by string) string {
	if !g.O.Long || !g.chance(1, 4) {
		return s
	}
	if g.chance(1, 60) { // beyond 16 bits
		return s + strings.Repeat(by, 66000/len(by))
	}
	return s + strings.Repeat(by, g.between(1, 6)*From(g.T, []int{5, 11, 43, 100}))
}

// Default options: everything
var Default = Opts{MaxRules: 6, MinRules: 1, Depth: 3, Width: 4, Controls: true, Comments: true, OmitCommas: true, Extend: true, BareEntries: true}

// RuleKind is what is known about a name while generating
type RuleKind int

const (
	KType  RuleKind = iota
	KInt            // integer literal
	KFloat          // decimal literal
	KNum            // numeric type
	KText           // text literal
)

// Gen generates schemas; every choice is drawn from rapid
type Gen struct {
	T     *rapid.T
	O     Opts
	Names []string
	Kinds map[string]RuleKind
	// NoBounds keeps names out of places that need a number
	NoBounds bool
}

var intRanges = map[[2]int]*rapid.Generator[int]{}

func intRange(lo, hi int) *rapid.Generator[int] {
	k := [2]int{lo, hi}
	g := intRanges[k]
	if g == nil {
		g = rapid.IntRange(lo, hi)
		intRanges[k] = g
	}
	return g
}

// Pick draws 0..n-1
func Pick(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	return intRange(0, n-1).Draw(t, "")
}

// Range draws lo..hi
func Range(t *rapid.T, lo, hi int) int { return intRange(lo, hi).Draw(t, "") }

// Chance is true in n of m cases, and shrinks to false
func Chance(t *rapid.T, n, m int) bool { return Pick(t, m) >= m-n }

// From draws an element
func From[E any](t *rapid.T, s []E) E { return s[Pick(t, len(s))] }

func (g *Gen) pick(n int) int         { return Pick(g.T, n) }
func (g *Gen) chance(n, m int) bool   { return Chance(g.T, n, m) }
func (g *Gen) between(lo, hi int) int { return Range(g.T, lo, hi) }

// Keywords of the language
var Keywords = []string{"int", "uint", "nint", "float", "float16", "float32", "float64", "tstr", "text", "bytes", "bstr", "bool", "true", "false", "nil", "null", "any"}

var isKeyword = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range Keywords {
		m[k] = true
	}
	return m
}()

// IsKeyword tells whether the word is reserved
func IsKeyword(s string) bool { return isKeyword[s] }

var trickyNames = []string{"integer", "ints", "Int", "INT", "uints", "tstring", "texts", "tex", "boole", "trueish", "nulls", "nils", "floats", "float8", "float128", "bytestr", "anything", "in", "t", "nil-able", "int.x", "uint_8", "bstr-list", "_true", "@null", "x.size", "a.lt", "text_literal", "ILLEGAL", "IDENT", "EOF", "COMMENT", "a$", "x$y", "_$", "@$a", "a-$b", "a.$b"}

var nameStart = []byte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_@")
var nameBody = []byte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@$")

// Name draws a CDDL name that is no reserved word
func (g *Gen) Name() string {
	for {
		var n string
		switch g.pick(8) {
		case 6:
			n = From(g.T, trickyNames)
			if g.O.PlainNames && strings.ContainsAny(n, "@.$") {
				continue
			}
		case 7: // long
			parts := g.between(2, 4)
			for i := 0; i < parts; i++ {
				if i > 0 {
					n += From(g.T, []string{"-", "_", "."})
				}
				n += g.word(8)
			}
			if g.O.PlainNames {
				n = strings.ReplaceAll(n, ".", "-")
			}
		default:
			n = g.word(5)
		}
		if !g.O.PlainNames && g.chance(1, 12) { // a socket or a plug may be defined as well
			n = From(g.T, []string{"$", "$$"}) + n
		}
		if !isKeyword[n] {
			return n
		}
	}
}

func (g *Gen) word(max int) string {
	start, body := nameStart, nameBody
	if g.O.PlainNames {
		start, body = start[:52], body[:62]
	}
	n := g.between(1, max)
	b := make([]byte, n)
	if g.O.Long && g.chance(1, 4) {
		b = make([]byte, n*From(g.T, []int{5, 9, 33, 64}))
	}
	b[0] = From(g.T, start)
	for i := 1; i < len(b); i++ {
		if i >= 12 { // enough drawing
			b[i] = b[i%12]
			continue
		}
		b[i] = From(g.T, body)
	}
	return string(b)
}

// Ident makes an identifier node
func Ident(name string) *Node { return &Node{K: "ident", S: name, V: name} }

// Ref draws a reference to a defined name, or a socket
func (g *Gen) Ref() *Node {
	if len(g.Names) == 0 || g.chance(1, 10) {
		if g.chance(1, 6) { // the shortest ones
			return Ident(From(g.T, []string{"$", "$$"}))
		}
		return Ident(From(g.T, []string{"$", "$$"}) + g.word(4))
	}
	return Ident(From(g.T, g.Names))
}

func (g *Gen) namesOf(kinds ...RuleKind) []string {
	out := []string{}
	if g.NoBounds {
		return out
	}
	for _, n := range g.Names {
		for _, k := range kinds {
			if g.Kinds[n] == k {
				out = append(out, n)
			}
		}
	}
	return out
}

// IntSpelling spells a value in a drawn notation
func IntSpelling(t *rapid.T, v uint64) string {
	zeros := func() string {
		if !Chance(t, 1, 5) {
			return ""
		}
		return strings.Repeat("0", From(t, []int{1, 1, 2, 3, 17, 65}))
	}
	switch Pick(t, 6) {
	case 3:
		h := []byte(strconv.FormatUint(v, 16))
		switch Pick(t, 3) {
		case 1:
			h = bytes.ToUpper(h)
		case 2:
			h[0] = bytes.ToUpper(h[:1])[0]
		}
		return "0x" + zeros() + string(h)
	case 4:
		return "0o" + zeros() + strconv.FormatUint(v, 8)
	case 5:
		return "0b" + zeros() + strconv.FormatUint(v, 2)
	}
	return strconv.FormatUint(v, 10)
}

// UintValue draws a value up to max, with an eye on the borders
func UintValue(t *rapid.T, max uint64) uint64 {
	switch Pick(t, 8) {
	case 4:
		return uint64(Range(t, 10, 100000)) % (max/2 + 1)
	case 5:
		return max - uint64(Pick(t, 3))
	case 6: // around powers of two
		v := uint64(1)<<uint(Range(t, 4, 63)) + uint64(Pick(t, 3)) - 1
		if v > max {
			v = max
		}
		return v
	case 7:
		return rapid.Uint64Range(0, max).Draw(t, "")
	}
	return uint64(Pick(t, 10))
}

const maxInt64 = 1<<63 - 1

// Int draws an integer literal
func (g *Gen) Int() *Node {
	v := UintValue(g.T, maxInt64)
	return IntNode(IntSpelling(g.T, v), v)
}

// IntNode makes an integer literal
func IntNode(spelling string, v uint64) *Node {
	return &Node{K: "int", S: spelling, V: strconv.FormatUint(v, 10)}
}

// UintNode makes a bound or tag number
func UintNode(spelling string, v uint64) *Node {
	return &Node{K: "uint", S: spelling, V: strconv.FormatUint(v, 10)}
}

// Float draws a decimal literal
func (g *Gen) Float() *Node {
	whole := UintValue(g.T, maxInt64)
	digits := g.between(1, 4)
	if g.chance(1, 8) {
		digits = g.between(5, 25)
	}
	frac := ""
	for i := 0; i < digits; i++ {
		frac += string(rune('0' + g.pick(10)))
	}
	s := fmt.Sprint(whole)
	if g.chance(1, 10) { // very large or very small
		if g.chance(1, 2) {
			s += strings.Repeat("0", From(g.T, []int{2, 5, 19, 21, 22, 100, 280}))
		} else {
			s, frac = "0", strings.Repeat("0", From(g.T, []int{3, 4, 5, 6, 10, 21, 40, 280}))+"1"+frac
		}
	}
	return FloatNode(s + "." + frac)
}

// FloatNode makes a decimal literal. The value is computed exactly and rounded once.
func FloatNode(spelling string) *Node {
	r, ok := new(big.Rat).SetString(spelling)
	if !ok {
		panic("harness: float " + spelling)
	}
	f, _ := r.Float64()
	return &Node{K: "float", S: spelling, V: FloatValue(f)}
}

var textPieces = []string{"a", "b", " ", "0", "x-y", "{", "}", "[", "(", ")", ",", ":", "=", "//", "#6", "é", "漢", "\U0001F600", "\\", "\\n", "'", "%d", "%s", "`", "\t", ".size", "$", "<&>", "int", "\u2028", "\x7f", "\u0080"}

// TextValue draws the content of a text literal
func (g *Gen) TextValue() string {
	n := g.pick(6)
	s := ""
	for i := 0; i < n; i++ {
		if !g.O.NoSemi && g.chance(1, 15) {
			s += ";"
			continue
		}
		s += From(g.T, textPieces)
	}
	return g.long(s, From(g.T, textPieces))
}

// Text draws a text literal
func (g *Gen) Text() *Node { return TextNode(g.TextValue()) }

// TextNode makes a text literal
func TextNode(s string) *Node { return &Node{K: "text", S: s, V: fmt.Sprintf("%q", s)} }

// Prims are the type names the parser knows
var Prims = []string{"int", "uint", "tstr", "text", "bool", "bstr", "bytes", "nint", "float", "float16", "float32", "float64", "nil", "null"}

// Prim makes a type name node
func Prim(s string) *Node { return &Node{K: "prim", S: s, V: s} }

// Bool makes a boolean literal
func Bool(s string) *Node { return &Node{K: "bool", S: s, V: s} }

// T2 draws an operand: something that needs no parentheses next to any operator
func (g *Gen) T2(depth int) *Node {
	n := 12
	if depth <= 0 {
		n = 7
	}
	switch g.pick(n) {
	case 0, 1:
		return Prim(From(g.T, Prims))
	case 2, 3:
		return g.Ref()
	case 4:
		return g.Int()
	case 5:
		return g.Text()
	case 6:
		switch g.pick(4) {
		case 0:
			return g.Float()
		case 1:
			return Bool(From(g.T, []string{"true", "false"}))
		case 2:
			return &Node{K: "unwrap", S: "~", Kids: []*Node{g.Ref()}}
		default:
			return g.Tag(0)
		}
	case 7:
		return g.Collection("map", depth-1)
	case 8:
		return g.Collection("array", depth-1)
	case 9:
		return g.Collection("group", depth-1)
	case 10:
		switch g.pick(3) {
		case 0:
			return &Node{K: "unwrap", S: "~", Kids: []*Node{From(g.T, []*Node{g.Ref(), g.Collection("group", depth-1)})}}
		case 1:
			return &Node{K: "enum", S: "&", Kids: []*Node{g.Ref()}}
		}
		return &Node{K: "enum", S: "&", Kids: []*Node{g.Collection("group", depth-1)}}
	default:
		return g.Tag(depth)
	}
}

// Tag draws #, #1, #1.2 or #6.24(type)
func (g *Gen) Tag(depth int) *Node {
	n := &Node{K: "tag", S: "#"}
	kind := g.pick(6)
	if kind == 0 {
		return n
	}
	v := uint64(g.pick(8))
	n.Lo = UintNode(fmt.Sprint(v), v)
	if kind == 1 {
		return n
	}
	if kind != 5 { // #6(type) leaves the tag number open
		num := UintValue(g.T, 1<<64-1)
		n.Hi = UintNode(fmt.Sprint(num), num)
	}
	if kind == 2 && depth > 0 || depth <= 0 {
		return n
	}
	n.Kids = []*Node{g.Type(depth - 1)}
	n.Spaced = g.chance(1, 4)
	n.Pre = [][]*Node{nil, nil}
	if g.O.Comments && g.chance(1, 10) {
		n.Pre[1] = g.comments()
	}
	return n
}

// Cmps are the comparison operators
var Cmps = []string{".lt", ".le", ".gt", ".ge", ".eq", ".ne"}

// Controlled draws a range or a type under a control operator
func (g *Gen) Controlled(depth int) *Node {
	switch g.pick(8) {
	case 0, 1, 2:
		return g.RangeNode()
	case 3, 4:
		return &Node{K: "size", S: ".size", Kids: []*Node{Prim(From(g.T, []string{"uint", "bstr", "tstr", "text"})), g.sizeArg()}}
	case 5:
		arg := g.Text()
		if g.chance(1, 4) {
			arg = g.Ref()
		}
		return &Node{K: "regexp", S: ".regexp", Kids: []*Node{Prim(From(g.T, []string{"tstr", "text"})), arg}}
	case 6:
		return &Node{K: "bits", S: ".bits", Kids: []*Node{g.bitsBase(), g.Ref()}}
	}
	base := Prim(From(g.T, []string{"uint", "int", "nint", "float", "float16", "float32", "float64"}))
	if c := g.namesOf(KInt, KFloat, KNum); len(c) > 0 && g.chance(1, 4) {
		base = Ident(From(g.T, c))
	}
	arg := g.Int()
	switch g.pick(4) {
	case 2:
		arg = g.Float()
	case 3:
		arg = g.Ref()
	}
	return &Node{K: "cmp", S: From(g.T, Cmps), Kids: []*Node{base, arg}}
}

func (g *Gen) bitsBase() *Node {
	switch g.pick(6) {
	case 3:
		return g.Ref()
	case 4:
		return &Node{K: "unwrap", S: "~", Kids: []*Node{g.Ref()}}
	case 5:
		return &Node{K: "enum", S: "&", Kids: []*Node{g.Ref()}}
	}
	return Prim(From(g.T, []string{"uint", "bstr", "bytes"}))
}

func (g *Gen) sizeArg() *Node {
	switch g.pick(4) {
	case 2:
		if c := g.namesOf(KInt); len(c) > 0 {
			return Ident(From(g.T, c))
		}
	case 3:
		return &Node{K: "group", Kids: []*Node{g.RangeNode()}, Commas: []bool{false}}
	}
	return g.Int()
}

// RangeNode draws a valid range
func (g *Gen) RangeNode() *Node {
	bound := func(float bool) *Node {
		kind := KInt
		if float {
			kind = KFloat
		}
		if c := g.namesOf(kind); len(c) > 0 && g.chance(1, 3) {
			return Ident(From(g.T, c))
		}
		if float {
			return g.Float()
		}
		return g.Int()
	}
	float := g.chance(1, 3)
	return &Node{K: "range", S: From(g.T, []string{"..", "..."}), Kids: []*Node{bound(float), bound(float)}}
}

// Type1 draws an alternative of a type choice
func (g *Gen) Type1(depth int) *Node {
	if g.O.Controls && g.chance(1, 4) {
		return g.Controlled(depth)
	}
	return g.T2(depth)
}

// Type draws a type, possibly a choice
func (g *Gen) Type(depth int) *Node {
	if !g.chance(1, 4) {
		return g.Type1(depth)
	}
	n := &Node{K: "choice", S: "/"}
	for i := g.between(2, g.O.Width); i > 0; i-- {
		n.Kids = append(n.Kids, g.Type1(depth-1))
	}
	return n
}

// Item draws a member: an entry with optional occurrence indicator and key
func (g *Gen) Item(depth int) *Node {
	return g.occurrence(g.keyed(depth))
}

func (g *Gen) keyed(depth int) *Node {
	if !g.chance(1, 2) {
		return g.Type(depth)
	}
	e := &Node{K: "entry", S: From(g.T, []string{":", ":", ":", "=>"})}
	switch {
	case g.chance(1, 6):
		e.Key = g.Int()
	case e.S == ":":
		e.Key = Ident(g.Name())
	default:
		e.Key = g.Ref()
	}
	e.Kids = []*Node{g.Type(depth)}
	return e
}

func (g *Gen) occurrence(item *Node) *Node {
	if !g.chance(1, 3) {
		return item
	}
	switch g.pick(5) {
	case 0, 1:
		return &Node{K: "opt", S: "?", Kids: []*Node{item}}
	case 2:
		if StartsWithNumber(item) {
			return item
		}
		return &Node{K: "occ", S: "+", V: "+", Lo: UintNode("", 1), Kids: []*Node{item}}
	}
	n := &Node{K: "occ", S: "*", V: "*", Lo: UintNode("", 0), Kids: []*Node{item}}
	if g.chance(1, 2) {
		v := UintValue(g.T, maxInt64)
		n.Lo = UintNode(IntSpelling(g.T, v), v)
	}
	if g.chance(1, 2) || StartsWithNumber(item) {
		v := UintValue(g.T, 1<<64-1)
		n.Hi = UintNode(IntSpelling(g.T, v), v)
	}
	return n
}

// StartsWithNumber tells whether the first token is an integer literal
func StartsWithNumber(n *Node) bool {
	switch n.K {
	case "int":
		return true
	case "entry":
		return n.Key.K == "int"
	case "occ":
		return n.Lo.S != ""
	case "choice", "gchoice", "range", "size", "regexp", "bits", "cmp":
		return StartsWithNumber(n.Kids[0])
	}
	return false
}

// GroupItem draws a member or a group choice of members
func (g *Gen) GroupItem(depth int) *Node {
	if !g.chance(1, 8) {
		return g.Item(depth)
	}
	n := &Node{K: "gchoice", S: "//"}
	for i := g.between(2, g.O.Width); i > 0; i-- {
		n.Kids = append(n.Kids, g.Item(depth-1))
	}
	return n
}

// Collection draws a group, map or array
func (g *Gen) Collection(kind string, depth int) *Node {
	n := &Node{K: kind}
	w := g.pick(g.O.Width + 1)
	for i := 0; i < w; i++ {
		n.Kids = append(n.Kids, g.GroupItem(depth))
	}
	g.Finish(n)
	return n
}

// Finish decides the commas and comments of a collection
func (g *Gen) Finish(n *Node) {
	w := len(n.Kids)
	n.Commas = make([]bool, w)
	n.Drop = make([]*Node, w)
	n.Pre = make([][]*Node, w+1)
	for i := range n.Kids {
		switch {
		case i < w-1:
			n.Commas[i] = true
			if g.O.OmitCommas && canOmitComma(n.Kids[i], n.Kids[i+1]) && g.chance(1, 6) {
				n.Commas[i] = false
			}
		default:
			n.Commas[i] = g.chance(1, 6)
		}
	}
	if !g.O.Comments {
		return
	}
	for i := range n.Kids {
		if g.chance(1, 12) {
			n.Pre[i] = g.comments()
		}
		if g.chance(1, 12) {
			if e := KeyedEntry(n.Kids[i]); e != nil {
				e.Cmt = g.comment()
			} else if n.Kids[i].K != "gchoice" {
				n.Drop[i] = g.comment()
			}
		}
	}
	if g.chance(1, 12) {
		n.Pre[w] = g.comments()
	}
}

// canOmitComma is conservative: the next member has to start with a word, text or opening bracket that cannot
// continue the member before it
func canOmitComma(prev, next *Node) bool {
	for last := prev; ; last = last.Kids[len(last.Kids)-1] {
		if last.K == "tag" && last.Lo == nil {
			return false // a bare # takes what follows for its number
		}
		if last.K == "map" || last.K == "array" || last.K == "group" || last.K == "tag" || len(last.Kids) == 0 {
			break
		}
	}
	for next.K == "choice" || next.K == "gchoice" || next.K == "range" || next.K == "size" || next.K == "regexp" || next.K == "bits" || next.K == "cmp" {
		next = next.Kids[0]
	}
	switch next.K {
	case "ident", "prim", "bool", "text", "map", "array":
		return true
	case "entry":
		return next.Key.K == "ident"
	case "opt":
		return true
	}
	return false
}

var commentPieces = []string{"a", " ", "b", "note", "; ", "=", "int", "[", "}", "é", ":", "// x", "'", "\t"}

func (g *Gen) comment() *Node {
	s := ""
	for i := g.pick(4); i > 0; i-- {
		s += From(g.T, commentPieces)
	}
	if g.O.Long {
		s = g.long(s, From(g.T, commentPieces))
	}
	return &Node{K: "comment", S: s}
}

func (g *Gen) comments() []*Node {
	out := []*Node{}
	n := g.between(1, 2)
	if g.chance(1, 10) {
		n = From(g.T, []int{3, 4, 5, 6, 9, 12, 20, 34})
	}
	for ; n > 0; n-- {
		out = append(out, g.comment())
	}
	return out
}

// NewGen declares n rule names with drawn kinds
func NewGen(t *rapid.T, o Opts) *Gen {
	g := &Gen{T: t, O: o, Kinds: map[string]RuleKind{}}
	n := Range(t, o.MinRules, o.MaxRules)
	for len(g.Names) < n {
		name := g.Name()
		if _, ok := g.Kinds[name]; ok {
			name += "-" + strconv.Itoa(len(g.Names))
			if _, ok := g.Kinds[name]; ok {
				continue
			}
		}
		k := KType
		if o.Controls && g.chance(1, 3) {
			k = From(t, []RuleKind{KInt, KFloat, KNum, KText})
		}
		g.Names = append(g.Names, name)
		g.Kinds[name] = k
	}
	return g
}

// Value draws the value of a rule of the kind
func (g *Gen) Value(k RuleKind) *Node {
	switch k {
	case KInt:
		return g.Int()
	case KFloat:
		return g.Float()
	case KNum:
		return Prim(From(g.T, []string{"uint", "int", "nint", "float", "float32"}))
	case KText:
		return g.Text()
	}
	if g.O.BareEntries && g.chance(1, 10) {
		return g.GroupItem(g.O.Depth)
	}
	if g.O.Wrap > 0 {
		return g.wrap(g.Type(1), g.between(1, g.O.Wrap))
	}
	return g.Type(g.O.Depth)
}

// wrap nests a type
func (g *Gen) wrap(n *Node, times int) *Node {
	for ; times > 0; times-- {
		c := &Node{K: From(g.T, []string{"array", "map", "group"})}
		switch g.pick(8) {
		case 5:
			n = &Node{K: "tag", S: "#", Lo: UintNode("6", 6), Hi: UintNode("1", 1), Kids: []*Node{n}}
			continue
		case 6, 7:
			c.K = "group"
		case 3:
			n = &Node{K: "entry", S: ":", Key: Ident(g.Name()), Kids: []*Node{n}}
		case 4:
			n = &Node{K: "choice", S: "/", Kids: []*Node{n, g.T2(0)}}
			if n.Kids[0].K == "choice" {
				n.Kids = append(append([]*Node{}, n.Kids[0].Kids...), n.Kids[1])
			}
		}
		c.Kids = []*Node{g.occurrence(n)}
		if g.chance(1, 3) {
			c.Kids = append(c.Kids, g.Item(0))
		}
		g.Finish(c)
		n = c
		if c.K == "group" && g.chance(1, 2) {
			n = &Node{K: From(g.T, []string{"unwrap", "enum"}), Kids: []*Node{c}}
			n.S = map[string]string{"unwrap": "~", "enum": "&"}[n.K]
		}
	}
	return n
}

// Rule draws a rule
func (g *Gen) Rule(name, assign string, value *Node) *Node {
	r := &Node{K: "rule", S: assign, Key: Ident(name), Kids: []*Node{value}}
	if g.O.Comments && g.chance(1, 5) && value.K != "gchoice" && KeyedEntry(value) == nil {
		r.Cmt = g.comment()
	}
	return r
}

// File draws a whole valid schema
func (g *Gen) File() *Node {
	f := &Node{K: "file"}
	for _, name := range g.Names {
		f.Kids = append(f.Kids, g.Rule(name, "=", g.Value(g.Kinds[name])))
		if g.O.Extend && g.Kinds[name] == KType && g.chance(1, 8) {
			if g.chance(1, 2) {
				f.Kids = append(f.Kids, g.Rule(name, "/=", g.Type(g.O.Depth)))
			} else {
				f.Kids = append(f.Kids, g.Rule(name, "//=", g.Collection("group", g.O.Depth-1)))
			}
		}
	}
	if g.O.Large > 0 {
		at := g.pick(len(f.Kids) + 1)
		f.Kids = append(f.Kids[:at:at], append([]*Node{g.Rule("the-large", "=", g.large(g.O.Large))}, f.Kids[at:]...)...)
	}
	f.Kids = g.Padded(f.Kids)
	g.FinishFile(f)
	return f
}

// large makes something of many members, which repeat some drawn ones
func (g *Gen) large(n int) *Node {
	k := From(g.T, []string{"choice", "choice", "gchoice", "array", "map", "group", "bits", "nest"})
	if k == "bits" {
		v := g.bitsBase()
		for ; n > 0; n-- {
			v = &Node{K: "bits", S: ".bits", Kids: []*Node{v, Prim("uint")}}
		}
		return v
	}
	if k == "nest" { // as deep as one may expect
		return g.wrap(g.Type(1), min(n, 300))
	}
	pool := []*Node{}
	for i := 0; i < 8; i++ {
		switch k {
		case "choice":
			pool = append(pool, g.Type1(0))
		case "gchoice":
			pool = append(pool, g.Item(0))
		default:
			pool = append(pool, g.GroupItem(0))
		}
	}
	v := &Node{K: k, S: map[string]string{"choice": "/", "gchoice": "//"}[k]}
	for i := 0; i < n; i++ {
		v.Kids = append(v.Kids, pool[i*(i+3)%len(pool)].Copy())
	}
	if k != "choice" && k != "gchoice" {
		v.Commas, v.Drop, v.Pre = make([]bool, n), make([]*Node, n), make([][]*Node, n+1)
		for i := range v.Commas {
			v.Commas[i] = true
		}
		v.Commas[n-1] = g.chance(1, 6)
	}
	return v
}

// Copy copies a node that is not laid out yet
func (n *Node) Copy() *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.Key, c.Lo, c.Hi, c.Cmt = n.Key.Copy(), n.Lo.Copy(), n.Hi.Copy(), n.Cmt.Copy()
	c.Kids, c.Pre, c.Drop = nil, nil, nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Copy())
	}
	for _, p := range n.Pre {
		list := []*Node{}
		for _, k := range p {
			list = append(list, k.Copy())
		}
		c.Pre = append(c.Pre, list)
	}
	for _, k := range n.Drop {
		c.Drop = append(c.Drop, k.Copy())
	}
	return &c
}

// Padded adds plain rules somewhere
func (g *Gen) Padded(rules []*Node) []*Node {
	if g.O.Pad == 0 {
		return rules
	}
	at := g.pick(len(rules) + 1)
	out := append([]*Node{}, rules[:at]...)
	for i := 0; i < g.O.Pad; i++ {
		name := "pad-" + strconv.Itoa(i)
		if _, ok := g.Kinds[name]; !ok {
			out = append(out, &Node{K: "rule", S: "=", Key: Ident(name), Kids: []*Node{Prim(Prims[i%len(Prims)])}})
		}
	}
	return append(out, rules[at:]...)
}

// FinishFile decides the comments between the rules
func (g *Gen) FinishFile(f *Node) {
	f.Pre = make([][]*Node, len(f.Kids)+1)
	if g.O.Comments {
		for i := range f.Pre {
			if g.chance(1, 6) {
				f.Pre[i] = g.comments()
			}
		}
	}
}

// File draws a valid schema
func File(t *rapid.T, o Opts) *Node { return NewGen(t, o).File() }

var (
	gapsAny   = []string{"", " ", " ", " ", "\n", "\t", "\r\n", "  ", "\n\n", " \t", "\n\t", "\r\n\r\n  ", " \n ", "\r"}
	gapsSpace = []string{" ", " ", "\n", "\t", "\r\n", "  ", "\n\n", " \t", "\r\n\t"}
	gapsSame  = []string{"", " ", "\t", "  "}
	gapsNew   = []string{"\n", "\n", "\r\n", "\n\n", "\n  ", "\n\t", "\r\n\r\n"}
)

// LayoutStyle draws how tokens are separated
func LayoutStyle(t *rapid.T) func(i int, rule GapRule, need bool) string {
	f := layoutStyle(t)
	if !Chance(t, 1, 40) {
		return f
	}
	times := From(t, []int{3, 30, 70, 130, 300}) // some gaps are long
	return func(i int, rule GapRule, need bool) string {
		s := f(i, rule, need)
		if Chance(t, 1, 10) {
			s = strings.Repeat(s, times)
		}
		return s
	}
}

func layoutStyle(t *rapid.T) func(i int, rule GapRule, need bool) string {
	style := Pick(t, 5) // 0: single blanks, 1: as tight as possible, 2: wild, 3 and 4: one kind of line end
	if style >= 3 {
		nl := []string{"\n", "\r\n"}[style-3]
		often := Chance(t, 1, 2) // every token on a line of its own, or some
		return func(i int, rule GapRule, need bool) string {
			switch {
			case rule == Glue || i == 0:
				return ""
			case rule == SameLn:
				return " "
			case rule == OwnLn || rule == NewLine || often || Chance(t, 1, 4):
				return nl
			case need:
				return " "
			}
			return From(t, []string{"", " "})
		}
	}
	return func(i int, rule GapRule, need bool) string {
		switch rule {
		case Glue:
			return ""
		case SameLn:
			return From(t, gapsSame)
		case OwnLn, NewLine:
			if style == 2 {
				return From(t, gapsNew)
			}
			return "\n"
		}
		switch style {
		case 1:
			if need {
				return " "
			}
			return ""
		case 2:
			if need {
				return From(t, gapsSpace)
			}
			return From(t, gapsAny)
		}
		if i == 0 {
			return ""
		}
		return " "
	}
}

// Pretty is a layout with every rule on a line of its own
func Pretty(toks []*Tok) string {
	return Layout(toks, func(i int, rule GapRule, need bool) string {
		switch {
		case rule == Glue || i == 0:
			return ""
		case rule == OwnLn || rule == NewLine || toks[i].Role == RRuleName:
			return "\n"
		}
		return " "
	}, "\n")
}

// Spell lays the file out and returns the source
func Spell(t *rapid.T, file *Node) (string, []*Tok) {
	toks := Tokens(file)
	tail := From(t, []string{"", "\n", " ", "\r\n", "\n\n"})
	if tail == " " && len(toks) > 0 && toks[len(toks)-1].Class == Comment {
		tail = "" // it would belong to the comment
	}
	src := Layout(toks, LayoutStyle(t), tail)
	return src, toks
}
