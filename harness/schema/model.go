// Package schema is the reference model of the CDDL dialect: it generates schemas as trees, spells them as token
// sequences under arbitrary layouts, and knows the tree, the positions and the diagnostics that have to come out.
// It shares no code with the implementation.
package schema

import (
	"fmt"
	"strings"
)

// Pos is a position in a source: line and column count from one, the offset from zero
type Pos struct{ Line, Col, Off int }

func (p Pos) String() string { return fmt.Sprintf("%d:%d:%d", p.Line, p.Col, p.Off) }

// Class tells how a token's text joins with its neighbours
type Class int

const (
	Word    Class = iota // identifiers and reserved words
	Number               // numeric literals
	Text                 // "text"
	Ctrl                 // .size, .lt, ...
	Punct                // everything else
	Comment              // ; up to the end of the line
)

// Role tells what a token is for, used to inject faults
type Role int

const (
	RNone Role = iota
	RRuleName
	RAssign
	ROpen
	RClose
	RComma
	RBinOp
	RPrefix
	RKey
	RColon
	ROccur
	RRef
	RLit
	RType
)

// GapRule restricts what may stand before a token
type GapRule int

const (
	Any     GapRule = iota
	Glue            // nothing
	SameLn          // no newline
	OwnLn           // at least one newline, unless at the start of the source
	NewLine         // as OwnLn, for readability only
)

// Tok is a token of the generated source
type Tok struct {
	S     string // text as it stands in the source
	Class Class
	Role  Role
	Gap   GapRule
	Node  *Node
	// after layout
	Before string
	Pos    Pos
}

// Node is a node of the reference tree
type Node struct {
	K    string // kind
	S    string // spelling of a leaf, of an operator, or text of a comment
	V    string // value of a leaf as it has to appear in the tree
	Kids []*Node
	Key  *Node // of an entry
	Lo   *Node // of an occurrence, a tag's major
	Hi   *Node // of an occurrence, a tag's number
	Cmt  *Node // trailing comment

	// commas[i] tells whether kid i of a collection is followed by a comma
	Commas []bool
	// Pre[i] are comments before kid i of a collection (or rule i of a file), the last element those before the end
	Pre [][]*Node
	// Drop[i] is a comment at the end of kid i's line which the tree does not keep
	Drop []*Node

	// Spaced allows blanks between the head of a tag and its content
	Spaced bool

	first, last *Tok   // span
	op          []*Tok // operators of choices, otherwise the single operator
	virtual     *Tok   // position of an implied bound
	offset      int    // of a node inside its token (tag number)
}

// Leaf kinds: prim bool int float text ident
// Others: unwrap enum tag group map array entry opt occ choice gchoice range size regexp bits cmp rule comment comments file

// Start is the position of the node's first character
func (n *Node) Start() Pos { return n.first.Pos }

// First is the first token of the node, after Tokens
func (n *Node) First() *Tok { return n.first }

// Last is the last token of the node, after Tokens
func (n *Node) Last() *Tok { return n.last }

// Op is the i-th operator token
func (n *Node) Op(i int) *Tok { return n.op[i] }

type spell struct{ toks []*Tok }

func (s *spell) add(n *Node, text string, c Class, r Role, g GapRule) *Tok {
	t := &Tok{S: text, Class: c, Role: r, Gap: g, Node: n}
	s.toks = append(s.toks, t)
	return t
}

// Tokens spells the file as a token sequence
func Tokens(file *Node) []*Tok {
	s := &spell{}
	s.node(file)
	return s.toks
}

func (s *spell) comment(c *Node, g GapRule) {
	t := s.add(c, ";"+c.S, Comment, RNone, g)
	c.first, c.last = t, t
}

func (s *spell) collection(n *Node, open, end string) {
	s.add(n, open, Punct, ROpen, Any)
	for i, k := range n.Kids {
		for _, c := range n.pre(i) {
			s.comment(c, c.gap())
		}
		s.node(k)
		if i < len(n.Commas) && n.Commas[i] {
			s.add(n, ",", Punct, RComma, Any)
		}
		if e := KeyedEntry(k); e != nil && e.Cmt != nil {
			s.comment(e.Cmt, SameLn)
		} else if i < len(n.Drop) && n.Drop[i] != nil {
			s.comment(n.Drop[i], SameLn)
		}
	}
	for _, c := range n.pre(len(n.Kids)) {
		s.comment(c, c.gap())
	}
	s.add(n, end, Punct, RClose, Any)
}

func (n *Node) pre(i int) []*Node {
	if i < len(n.Pre) {
		return n.Pre[i]
	}
	return nil
}

// tagGap is what may stand between the head of a tag and its content
func (n *Node) tagGap() GapRule {
	if n.Spaced {
		return Any
	}
	return Glue
}

func (n *Node) gap() GapRule { return OwnLn }

// KeyedEntry returns the keyed entry an item of a collection consists of, behind its occurrence indicator
func KeyedEntry(n *Node) *Node {
	switch n.K {
	case "entry":
		return n
	case "opt", "occ":
		return KeyedEntry(n.Kids[0])
	}
	return nil
}

func (s *spell) node(n *Node) {
	start := len(s.toks)
	switch n.K {
	case "prim", "bool":
		s.add(n, n.S, Word, RType, Any)
	case "int", "float":
		s.add(n, n.S, Number, RLit, Any)
	case "text":
		s.add(n, "\""+n.S+"\"", Text, RLit, Any)
	case "ident":
		s.add(n, n.S, Word, RRef, Any)
	case "unwrap":
		n.op = []*Tok{s.add(n, "~", Punct, RPrefix, Any)}
		s.node(n.Kids[0])
	case "enum":
		n.op = []*Tok{s.add(n, "&", Punct, RPrefix, Any)}
		s.node(n.Kids[0])
	case "tag":
		n.op = []*Tok{s.add(n, "#", Punct, RPrefix, Any)}
		if n.Lo != nil {
			text := n.Lo.S
			if n.Hi != nil {
				text += "." + n.Hi.S
			}
			t := s.add(n.Lo, text, Number, RLit, Glue)
			n.Lo.first, n.Lo.last = t, t
			if n.Hi != nil {
				n.Hi.first, n.Hi.last, n.Hi.offset = t, t, len(n.Lo.S)+1
			}
		}
		if len(n.Kids) > 0 {
			s.add(n, "(", Punct, ROpen, n.tagGap())
			for _, c := range n.pre(0) {
				s.comment(c, c.gap())
			}
			s.node(n.Kids[0])
			for _, c := range n.pre(1) {
				s.comment(c, c.gap())
			}
			s.add(n, ")", Punct, RClose, Any)
		}
	case "group":
		s.collection(n, "(", ")")
	case "map":
		s.collection(n, "{", "}")
	case "array":
		s.collection(n, "[", "]")
	case "entry":
		t := s.add(n.Key, n.Key.S, wordOrNumber(n.Key), RKey, Any)
		n.Key.first, n.Key.last = t, t
		n.op = []*Tok{s.add(n, n.S, Punct, RColon, Any)}
		s.node(n.Kids[0])
	case "opt":
		n.op = []*Tok{s.add(n, "?", Punct, ROccur, Any)}
		s.node(n.Kids[0])
	case "occ":
		g := Any
		if n.Lo.S != "" {
			t := s.add(n.Lo, n.Lo.S, Number, RLit, Any)
			n.Lo.first, n.Lo.last = t, t
			g = Glue
		}
		op := s.add(n, n.S, Punct, ROccur, g)
		n.op = []*Tok{op}
		if n.Lo.S == "" {
			n.Lo.first, n.Lo.last = op, op
		}
		if n.Hi != nil {
			t := s.add(n.Hi, n.Hi.S, Number, RLit, Glue)
			n.Hi.first, n.Hi.last = t, t
		}
		s.node(n.Kids[0])
	case "choice", "gchoice":
		n.op = nil
		for i, k := range n.Kids {
			if i > 0 {
				n.op = append(n.op, s.add(n, n.S, Punct, RBinOp, Any))
			}
			s.node(k)
		}
	case "range", "size", "regexp", "bits", "cmp":
		s.node(n.Kids[0])
		c := Ctrl
		if n.K == "range" {
			c = Punct
		}
		n.op = []*Tok{s.add(n, n.S, c, RBinOp, Any)}
		s.node(n.Kids[1])
	case "rule":
		t := s.add(n.Key, n.Key.S, Word, RRuleName, Any)
		n.Key.first, n.Key.last = t, t
		n.op = []*Tok{s.add(n, n.S, Punct, RAssign, Any)}
		s.node(n.Kids[0])
		if n.Cmt != nil {
			s.comment(n.Cmt, SameLn)
		}
	case "file":
		for i, r := range n.Kids {
			for _, c := range n.pre(i) {
				s.comment(c, OwnLn)
			}
			s.node(r)
		}
		for _, c := range n.pre(len(n.Kids)) {
			s.comment(c, OwnLn)
		}
	default:
		panic("harness: kind " + n.K)
	}
	if len(s.toks) > start {
		n.first, n.last = s.toks[start], s.toks[len(s.toks)-1]
	}
}

func wordOrNumber(n *Node) Class {
	if n.K == "int" {
		return Number
	}
	return Word
}

func isWordByte(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || strings.IndexByte("@_$-.", b) >= 0
}

func isAlnum(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

// NeedSpace tells whether two tokens would read differently when nothing stands between them
func NeedSpace(a, b *Tok) bool {
	if a.S == "" || b.S == "" {
		return false
	}
	for _, s := range []string{a.S, b.S} {
		if s == "." || s == "-" { // stray
			return true
		}
	}
	switch a.Class {
	case Word:
		return isWordByte(b.S[0])
	case Number:
		if b.Class == Punct && b.S[0] == '.' { // .. and ... after a number
			return false
		}
		return isAlnum(b.S[0]) || b.S[0] == '.'
	case Ctrl:
		return isAlnum(b.S[0])
	case Comment:
		return true
	case Punct:
		two := a.S[len(a.S)-1:] + b.S[:1]
		switch {
		case strings.Contains("//=>/=...", two) && two != "..":
			return true
		case a.S[len(a.S)-1] == '.' && (b.S[0] == '.' || isAlnum(b.S[0]) && a.S == "."):
			return true
		}
	}
	return false
}

// Layout places the tokens: gap chooses the text before a token, given what is allowed. It returns the source.
func Layout(toks []*Tok, gap func(i int, rule GapRule, needSpace bool) string, tail string) string {
	var b strings.Builder
	line, lineStart := 1, 0
	put := func(s string) {
		for i := 0; i < len(s); i++ {
			if s[i] == '\n' {
				line++
				lineStart = b.Len() + i + 1
			}
		}
		b.WriteString(s)
	}
	for i, t := range toks {
		rule, need := t.Gap, false
		if i > 0 {
			prev := toks[i-1]
			need = NeedSpace(prev, t)
			if prev.Class == Comment {
				rule = NewLine
			}
		} else {
			if rule == OwnLn || rule == SameLn {
				rule = Any
			}
		}
		t.Before = gap(i, rule, need)
		put(t.Before)
		t.Pos = Pos{line, b.Len() - lineStart + 1, b.Len()}
		put(t.S)
	}
	put(tail)
	return b.String()
}
