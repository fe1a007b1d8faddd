package schema

import (
	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
)

// Span tells where a node may say that it ends
type Span struct {
	K      string
	Lo, Hi int  // offsets, both included
	Loose  bool // behind a tag's content: only the offset is known
}

// Ends lists the nodes of a file, parents first, with the places where they may end: at the last character or right
// behind it, for collections from the end of the last member to the closing delimiter.
func Ends(n *Node) []Span {
	var out []Span
	endsOf(n, &out)
	return out
}

func tokenSpan(k string, t *Tok) Span {
	hi := t.Pos.Off + len(t.S)
	return Span{K: k, Lo: hi - 1, Hi: hi}
}

func endsOf(n *Node, out *[]Span) Span {
	at := len(*out)
	if n.K != "file" {
		*out = append(*out, Span{})
	}
	set := func(s Span) Span {
		if n.K == "file" {
			return s
		}
		(*out)[at] = s
		return s
	}
	comment := func(c *Node) {
		if c != nil {
			*out = append(*out, tokenSpan("comment", c.last))
		}
	}
	kids := func() (last Span) {
		for _, k := range n.Kids {
			last = endsOf(k, out)
		}
		return
	}
	switch n.K {
	case "prim", "bool", "int", "float", "ident", "text":
		return set(tokenSpan(n.K, n.last))
	case "uint": // bounds and tag numbers
		start := n.first.Pos.Off + n.offset
		size := len(n.S)
		if size == 0 { // implied
			size = 1
		}
		s := Span{K: n.K, Lo: start + size - 1, Hi: start + size}
		return set(s)
	case "group", "map", "array":
		s := kids()
		if len(n.Kids) == 0 {
			s.Lo = n.first.Pos.Off
		}
		s.K, s.Hi = n.K, n.last.Pos.Off+1
		return set(s)
	case "tag":
		s := Span{K: "tag", Lo: n.first.Pos.Off, Hi: n.first.Pos.Off + 1}
		for _, k := range []*Node{n.Lo, n.Hi} {
			if k != nil {
				s = endsOf(k, out)
			}
		}
		if len(n.Kids) > 0 {
			s = kids()
			s.Hi, s.Loose = n.last.Pos.Off+1, true
		}
		s.K = "tag"
		return set(s)
	case "entry", "rule":
		*out = append(*out, tokenSpan("ident", n.Key.last))
		s := kids()
		comment(n.Cmt)
		s.K = n.K
		return set(s)
	case "occ":
		endsOf(n.Lo, out)
		if n.Hi != nil {
			endsOf(n.Hi, out)
		}
		s := kids()
		s.K = n.K
		return set(s)
	case "file":
		var s Span
		for i := 0; i <= len(n.Kids); i++ {
			if pre := n.pre(i); len(pre) > 0 {
				s = tokenSpan("comments", pre[len(pre)-1].last)
				*out = append(*out, s)
				for _, c := range pre {
					comment(c)
				}
			}
			if i < len(n.Kids) {
				s = endsOf(n.Kids[i], out)
			}
		}
		s.K = "file"
		*out = append(*out, s)
		return s
	}
	s := kids() // unwrap enum opt choice gchoice range size regexp bits cmp
	s.K = n.K
	return set(s)
}

// End is a node's kind and its end
type End struct {
	K   string
	Pos Pos
}

// EndsAST lists the ends the implementation's nodes report, in the order of Ends
func EndsAST(n ast.Node) []End {
	var out []End
	endsAST(n, &out)
	return out
}

func endsAST(n ast.Node, out *[]End) {
	kids := func(ns ...ast.Node) {
		for _, k := range ns {
			if !isNilNode(k) {
				endsAST(k, out)
			}
		}
	}
	comment := func(c *ast.Comment) {
		if c != nil {
			*out = append(*out, End{"comment", FromToken(c.End())})
		}
	}
	put := func(k string) { *out = append(*out, End{k, FromToken(n.End())}) }
	switch v := n.(type) {
	case *ast.IntegerType, *ast.UintType, *ast.NegativeIntegerType, *ast.FloatType, *ast.TstrType, *ast.BytesType, *ast.BstrType,
		*ast.BooleanType, *ast.NullType:
		put("prim")
	case *ast.BooleanLiteral:
		put("bool")
	case *ast.IntegerLiteral:
		put("int")
	case *ast.UintLiteral:
		put("uint")
	case *ast.FloatLiteral:
		put("float")
	case *ast.TextLiteral:
		put("text")
	case *ast.Identifier:
		put("ident")
	case *ast.Unwrap:
		put("unwrap")
		kids(v.Item)
	case *ast.Enumeration:
		put("enum")
		kids(v.Value)
	case *ast.Group:
		put("group")
		for _, e := range v.Entries {
			kids(e)
		}
	case *ast.Map:
		put("map")
		for _, e := range v.Rules {
			kids(e)
		}
	case *ast.Array:
		put("array")
		for _, e := range v.Rules {
			kids(e)
		}
	case *ast.Tag:
		put("tag")
		kids(v.Major, v.TagNumber)
		if !isNilNode(v.Item) {
			kids(v.Item)
		}
	case *ast.Entry:
		put("entry")
		kids(v.Name, v.Value)
		comment(v.TrailingComment)
	case *ast.Optional:
		put("opt")
		kids(v.Item)
	case *ast.NMOccurrence:
		put("occ")
		kids(v.N, v.M, v.Item)
	case *ast.TypeChoice, *ast.GroupChoice:
		_, _, tok, _, _ := asChoice(n)
		k := "choice"
		if tok == token.GROUP_CHOICE {
			k = "gchoice"
		}
		var alts []ast.Node
		var ops []token.Position
		flatten(n, tok, true, &alts, &ops)
		put(k)
		kids(alts...)
	case *ast.Range:
		put("range")
		kids(v.From, v.To)
	case *ast.SizeOperatorControl:
		put("size")
		kids(v.Type, v.Size)
	case *ast.Regexp:
		put("regexp")
		kids(v.Base, v.Regex)
	case *ast.Bits:
		put("bits")
		kids(v.Base, v.Contstraint)
	case *ast.ComparatorOpControl:
		put("cmp")
		kids(v.Left, v.Right)
	case *ast.Rule:
		put("rule")
		kids(v.Name, v.Value)
		comment(v.TrailingComment)
	case *ast.Comment:
		put("comments")
		comment(v)
	case *ast.CommentGroup:
		put("comments")
		for _, c := range v.List {
			comment(c)
		}
	case *ast.CDDL:
		for _, r := range v.Rules {
			kids(r)
		}
		put("file")
	default:
		put("?")
	}
}
