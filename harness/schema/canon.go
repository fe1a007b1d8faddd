package schema

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
)

// Canon writes the reference tree in canonical form. With positions every node carries its start and every
// operator its own position.
func Canon(n *Node, pos bool) string {
	var b strings.Builder
	canon(&b, n, pos)
	return b.String()
}

func at(pos bool, p Pos) string {
	if !pos {
		return ""
	}
	return "@" + p.String()
}

func canonKids(b *strings.Builder, kids []*Node, pos bool) {
	for _, k := range kids {
		b.WriteString(" ")
		canon(b, k, pos)
	}
}

func comment(b *strings.Builder, c *Node, pos bool) {
	if c != nil {
		fmt.Fprintf(b, " ;%q%s", strings.TrimRight(c.S, "\r"), at(pos, c.Start()))
	}
}

func canon(b *strings.Builder, n *Node, pos bool) {
	opAt := func(i int) string { return at(pos, n.op[i].Pos) }
	switch n.K {
	case "prim":
		b.WriteString("type:" + n.V + at(pos, n.Start()))
	case "bool", "int", "float", "text", "ident":
		fmt.Fprintf(b, "%s:%s%s", n.K, n.V, at(pos, n.Start()))
	case "uint": // bounds and tags
		p := n.first.Pos
		p.Col += n.offset
		p.Off += n.offset
		fmt.Fprintf(b, "uint:%s%s", n.V, at(pos, p))
	case "unwrap", "enum", "group", "map", "array":
		fmt.Fprintf(b, "(%s%s", n.K, at(pos, n.Start()))
		canonKids(b, n.Kids, pos)
		b.WriteString(")")
	case "tag":
		fmt.Fprintf(b, "(tag%s", at(pos, n.Start()))
		for _, k := range []*Node{n.Lo, n.Hi} {
			if k != nil {
				canonKids(b, []*Node{k}, pos)
			} else {
				b.WriteString(" -")
			}
		}
		canonKids(b, n.Kids, pos)
		b.WriteString(")")
	case "entry":
		fmt.Fprintf(b, "(entry%s op%s ident:%s%s", at(pos, n.Start()), opAt(0), n.Key.V, at(pos, n.Key.Start()))
		canonKids(b, n.Kids, pos)
		comment(b, n.Cmt, pos)
		b.WriteString(")")
	case "opt":
		fmt.Fprintf(b, "(opt%s", at(pos, n.Start()))
		canonKids(b, n.Kids, pos)
		b.WriteString(")")
	case "occ":
		fmt.Fprintf(b, "(occ:%s%s op%s ", n.V, at(pos, n.Start()), opAt(0))
		canon(b, n.Lo, pos)
		if n.Hi != nil {
			canonKids(b, []*Node{n.Hi}, pos)
		} else {
			b.WriteString(" -")
		}
		canonKids(b, n.Kids, pos)
		b.WriteString(")")
	case "choice", "gchoice":
		fmt.Fprintf(b, "(%s%s", n.K, at(pos, n.Start()))
		for i, k := range n.Kids {
			if i > 0 && pos {
				b.WriteString(" op" + opAt(i-1))
			}
			canonKids(b, []*Node{k}, pos)
		}
		b.WriteString(")")
	case "range", "size", "regexp", "bits", "cmp":
		fmt.Fprintf(b, "(%s:%s%s op%s", n.K, n.S, at(pos, n.Start()), opAt(0))
		canonKids(b, n.Kids, pos)
		b.WriteString(")")
	case "rule":
		fmt.Fprintf(b, "(rule%s ident:%s%s", at(pos, n.Start()), n.Key.V, at(pos, n.Key.Start()))
		canonKids(b, n.Kids, pos)
		comment(b, n.Cmt, pos)
		b.WriteString(")")
	case "comment":
		comment(b, n, pos)
	case "file":
		b.WriteString("(file")
		for i := 0; i <= len(n.Kids); i++ {
			pre := n.pre(i)
			if len(pre) > 0 {
				b.WriteString("\n  (comments")
				for _, c := range pre {
					comment(b, c, pos)
				}
				b.WriteString(")")
			}
			if i < len(n.Kids) {
				b.WriteString("\n  ")
				canon(b, n.Kids[i], pos)
			}
		}
		b.WriteString(")")
	default:
		panic("harness: kind " + n.K)
	}
}

// FromToken converts the implementation's position
func FromToken(p token.Position) Pos { return Pos{p.Line, p.Column, p.Offset} }

// CanonAST writes the implementation's tree in the same form
func CanonAST(n ast.Node, pos bool) string {
	var b strings.Builder
	canonAST(&b, n, pos)
	return b.String()
}

func tat(pos bool, p token.Position) string { return at(pos, FromToken(p)) }

func astComment(b *strings.Builder, c *ast.Comment, pos bool) {
	if c != nil {
		fmt.Fprintf(b, " ;%q%s", strings.TrimRight(c.Text, "\r"), tat(pos, c.Start()))
	}
}

func isNilNode(n ast.Node) bool {
	switch v := n.(type) {
	case nil:
		return true
	case *ast.UintLiteral:
		return v == nil
	case *ast.Identifier:
		return v == nil
	case *ast.TstrType:
		return v == nil
	}
	return false
}

func astKids(b *strings.Builder, pos bool, kids ...ast.Node) {
	for _, k := range kids {
		b.WriteString(" ")
		if isNilNode(k) {
			b.WriteString("-")
			continue
		}
		canonAST(b, k, pos)
	}
}

func flatten(n ast.Node, tok token.Token, pos bool, alts *[]ast.Node, ops *[]token.Position) {
	first, second, t, p, ok := asChoice(n)
	if !ok || t != tok {
		*alts = append(*alts, n)
		return
	}
	flatten(first, tok, pos, alts, ops)
	*ops = append(*ops, p)
	flatten(second, tok, pos, alts, ops)
}

func asChoice(n ast.Node) (first, second ast.Node, tok token.Token, p token.Position, ok bool) {
	switch v := n.(type) {
	case *ast.TypeChoice:
		return v.First, v.Second, v.Token, v.Pos, true
	case *ast.GroupChoice:
		return v.First, v.Second, token.GROUP_CHOICE, v.Pos, true
	}
	return
}

func canonAST(b *strings.Builder, n ast.Node, pos bool) {
	start := func() string { return tat(pos, n.Start()) }
	leaf := func(k, v string) { b.WriteString(k + ":" + v + start()) }
	if t, want := kindToken(n); t != want {
		fmt.Fprintf(b, "!%s!", t)
	}
	switch v := n.(type) {
	case *ast.IntegerType:
		leaf("type", "int")
	case *ast.UintType:
		leaf("type", "uint")
	case *ast.NegativeIntegerType:
		leaf("type", "nint")
	case *ast.FloatType:
		leaf("type", v.Token.String())
	case *ast.TstrType:
		leaf("type", v.Token.String())
	case *ast.BytesType:
		leaf("type", "bytes")
	case *ast.BstrType:
		leaf("type", "bstr")
	case *ast.BooleanType:
		leaf("type", "bool")
	case *ast.NullType:
		leaf("type", v.Token.String())
	case *ast.BooleanLiteral:
		leaf("bool", fmt.Sprint(v.Bool))
	case *ast.IntegerLiteral:
		leaf("int", fmt.Sprint(v.Literal))
	case *ast.UintLiteral:
		leaf("uint", fmt.Sprint(v.Literal))
	case *ast.FloatLiteral:
		leaf("float", FloatValue(v.Literal))
	case *ast.TextLiteral:
		leaf("text", fmt.Sprintf("%q", v.Literal))
	case *ast.Identifier:
		plug := strings.HasPrefix(v.Name, "$$")
		if v.IsPlug() != plug || v.IsSocket() != (!plug && strings.HasPrefix(v.Name, "$")) {
			fmt.Fprintf(b, "!socket %t plug %t!", v.IsSocket(), v.IsPlug())
		}
		leaf("ident", v.Name)
	case *ast.Unwrap:
		b.WriteString("(unwrap" + start())
		astKids(b, pos, v.Item)
		b.WriteString(")")
	case *ast.Enumeration:
		b.WriteString("(enum" + start())
		astKids(b, pos, v.Value)
		b.WriteString(")")
	case *ast.Group:
		b.WriteString("(group" + start())
		for _, e := range v.Entries {
			astKids(b, pos, e)
		}
		b.WriteString(")")
	case *ast.Map:
		b.WriteString("(map" + start())
		for _, e := range v.Rules {
			astKids(b, pos, e)
		}
		b.WriteString(")")
	case *ast.Array:
		b.WriteString("(array" + start())
		for _, e := range v.Rules {
			astKids(b, pos, e)
		}
		b.WriteString(")")
	case *ast.Tag:
		b.WriteString("(tag" + start())
		astKids(b, pos, v.Major, v.TagNumber)
		if !isNilNode(v.Item) {
			astKids(b, pos, v.Item)
		}
		b.WriteString(")")
	case *ast.Entry:
		b.WriteString("(entry" + start() + " op" + tat(pos, v.Pos))
		astKids(b, pos, v.Name, v.Value)
		astComment(b, v.TrailingComment, pos)
		b.WriteString(")")
	case *ast.Optional:
		b.WriteString("(opt" + start())
		astKids(b, pos, v.Item)
		b.WriteString(")")
	case *ast.NMOccurrence:
		b.WriteString("(occ:" + v.Token.String() + start() + " op" + tat(pos, v.Pos))
		astKids(b, pos, v.N, v.M, v.Item)
		b.WriteString(")")
	case *ast.TypeChoice, *ast.GroupChoice:
		_, _, tok, _, _ := asChoice(n)
		k := "choice"
		switch tok {
		case token.TYPE_CHOICE:
		case token.GROUP_CHOICE:
			k = "gchoice"
		default:
			k = "choice?" + tok.String()
		}
		var alts []ast.Node
		var ops []token.Position
		flatten(n, tok, pos, &alts, &ops)
		b.WriteString("(" + k + start())
		for i, a := range alts {
			if i > 0 && pos {
				b.WriteString(" op" + tat(pos, ops[i-1]))
			}
			astKids(b, pos, a)
		}
		b.WriteString(")")
	case *ast.Range:
		b.WriteString("(range:" + v.Token.String() + start() + " op" + tat(pos, v.Pos))
		astKids(b, pos, v.From, v.To)
		b.WriteString(")")
	case *ast.SizeOperatorControl:
		b.WriteString("(size:" + v.Token.String() + start() + " op" + tat(pos, v.Pos))
		astKids(b, pos, v.Type, v.Size)
		b.WriteString(")")
	case *ast.Regexp:
		b.WriteString("(regexp:" + v.Token.String() + start() + " op" + tat(pos, v.Pos))
		astKids(b, pos, v.Base, v.Regex)
		b.WriteString(")")
	case *ast.Bits:
		b.WriteString("(bits:" + v.Token.String() + start() + " op" + tat(pos, v.Pos))
		astKids(b, pos, v.Base, v.Contstraint)
		b.WriteString(")")
	case *ast.ComparatorOpControl:
		b.WriteString("(cmp:" + v.Token.String())
		if v.Operator != v.Token.String() {
			b.WriteString("!" + v.Operator)
		}
		b.WriteString(start() + " op" + tat(pos, v.Pos))
		astKids(b, pos, v.Left, v.Right)
		b.WriteString(")")
	case *ast.Rule:
		b.WriteString("(rule" + start())
		astKids(b, pos, v.Name, v.Value)
		astComment(b, v.TrailingComment, pos)
		b.WriteString(")")
	case *ast.Comment:
		b.WriteString("(comments")
		astComment(b, v, pos)
		b.WriteString(")")
	case *ast.CommentGroup:
		b.WriteString("(comments")
		for _, c := range v.List {
			astComment(b, c, pos)
		}
		rest := v.String()
		for _, c := range v.List {
			i := strings.Index(rest, c.Text)
			if i < 0 || i > 0 && rest[i-1] != '\n' && rest[i-1] != ' ' && rest[i-1] != ';' {
				b.WriteString("!string:" + strconv.Quote(v.String()) + "!")
				break
			}
			rest = rest[i+len(c.Text):]
		}
		b.WriteString(")")
	case *ast.BadNode:
		b.WriteString("(bad)")
	case *ast.CDDL:
		b.WriteString("(file")
		for _, r := range v.Rules {
			b.WriteString("\n  ")
			canonAST(b, r, pos)
		}
		b.WriteString(")")
	default:
		fmt.Fprintf(b, "(?%T)", n)
	}
}

// FloatValue writes a float so that different values are spelled differently
func FloatValue(f float64) string { return fmt.Sprintf("%x", f) }

// Rules strips the top-level comments from a tree
func Rules(n *ast.CDDL) []*ast.Rule {
	out := []*ast.Rule{}
	for _, r := range n.Rules {
		if v, ok := r.(*ast.Rule); ok {
			out = append(out, v)
		}
	}
	return out
}

// kindToken is the token a node carries and the one it has to carry
func kindToken(n ast.Node) (got, want token.Token) {
	switch v := n.(type) {
	case *ast.IntegerType:
		return v.Token, token.INT
	case *ast.UintType:
		return v.Token, token.UINT
	case *ast.NegativeIntegerType:
		return v.Token, token.NINT
	case *ast.BooleanType:
		return v.Token, token.BOOL
	case *ast.BytesType:
		return v.Token, token.BYTES
	case *ast.BstrType:
		return v.Token, token.BSTR
	case *ast.IntegerLiteral:
		return v.Token, token.INT
	case *ast.FloatLiteral:
		return v.Token, token.FLOAT
	case *ast.TextLiteral:
		return v.Token, token.TEXT_LITERAL
	case *ast.Tag:
		return v.Token, token.HASH
	case *ast.Unwrap:
		return v.Token, token.UNWRAP
	case *ast.Enumeration:
		return v.Token, token.AMPERSAND
	case *ast.Optional:
		return v.Token, token.OPTIONAL
	case *ast.GroupChoice:
		return v.Token, token.GROUP_CHOICE
	}
	return
}
