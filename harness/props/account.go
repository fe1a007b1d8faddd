package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// Whatever is accepted, however odd, has everything it consists of in its tree, once and in its place. That needs no
// notion of the grammar: every name, literal, type and operator of the source belongs to one node, and every node to
// one of them.

// nodeKey tells the token a node stands for
func nodeKey(n ast.Node) (kind string, at token.Position, ok bool) {
	switch v := n.(type) {
	case *ast.CDDL, *ast.Rule, *ast.Comment, *ast.CommentGroup:
		return "", token.Position{}, false
	case *ast.Identifier:
		return "name " + v.Name, v.Start(), true
	case *ast.IntegerLiteral:
		return "number " + strconv.FormatInt(v.Literal, 10), v.Start(), true
	case *ast.UintLiteral:
		return "number " + strconv.FormatUint(v.Literal, 10), v.Start(), true
	case *ast.FloatLiteral:
		return "number " + schema.FloatValue(v.Literal), v.Start(), true
	case *ast.TextLiteral:
		return "text " + v.Literal, v.Start(), true
	case *ast.BooleanLiteral:
		return strconv.FormatBool(v.Bool), v.Start(), true
	case *ast.IntegerType:
		return "int", v.Start(), true
	case *ast.UintType:
		return "uint", v.Start(), true
	case *ast.NegativeIntegerType:
		return "nint", v.Start(), true
	case *ast.FloatType:
		return v.Token.String(), v.Start(), true
	case *ast.TstrType:
		return v.Token.String(), v.Start(), true
	case *ast.BytesType:
		return "bytes", v.Start(), true
	case *ast.BstrType:
		return "bstr", v.Start(), true
	case *ast.BooleanType:
		return "bool", v.Start(), true
	case *ast.NullType:
		return v.Token.String(), v.Start(), true
	case *ast.Unwrap:
		return "~", v.Pos, true
	case *ast.Enumeration:
		return "&", v.Pos, true
	case *ast.Group:
		return "(", v.Pos, true
	case *ast.Map:
		return "{", v.Pos, true
	case *ast.Array:
		return "[", v.Pos, true
	case *ast.Tag:
		return "#", v.Pos, true
	case *ast.Entry:
		return ":", v.Pos, true
	case *ast.Optional:
		return "?", v.Pos, true
	case *ast.NMOccurrence:
		return v.Token.String(), v.Pos, true
	case *ast.TypeChoice:
		return v.Token.String(), v.Pos, true
	case *ast.GroupChoice:
		return "//", v.Pos, true
	case *ast.Range:
		return v.Token.String(), v.Pos, true
	case *ast.SizeOperatorControl:
		return v.Token.String(), v.Pos, true
	case *ast.Regexp:
		return v.Token.String(), v.Pos, true
	case *ast.Bits:
		return v.Token.String(), v.Pos, true
	case *ast.ComparatorOpControl:
		return v.Token.String(), v.Pos, true
	}
	return fmt.Sprintf("%T", n), n.Start(), true
}

// accountFor compares the tokens of an accepted source with the nodes of its tree
func accountFor(toks []ltok, nodes []ast.Node) error {
	type spot struct {
		kind string
		at   token.Position
	}
	have := map[int][]spot{} // by offset
	for _, n := range nodes {
		if k, at, ok := nodeKey(n); ok {
			have[at.Offset] = append(have[at.Offset], spot{k, at})
		}
	}
	// take removes a node of one of the kinds at the place
	take := func(offset int, kinds ...string) *spot {
		for i, s := range have[offset] {
			for _, k := range kinds {
				if s.kind == k {
					have[offset] = append(append([]spot{}, have[offset][:i]...), have[offset][i+1:]...)
					return &s
				}
			}
		}
		return nil
	}
	rules := 0
	for i, t := range toks {
		prev := token.EOF
		if i > 0 {
			prev = toks[i-1].Tok
		}
		at, kinds := t.Pos.Offset, []string{t.Tok.String()}
		number := t.Lit != "" && t.Lit[0] >= '0' && t.Lit[0] <= '9'
		switch {
		case t.Tok == token.EOF || t.Tok == token.COMMENT || t.Tok == token.COMMA || t.Tok == token.RPAREN || t.Tok == token.RBRACK || t.Tok == token.RBRACE:
			continue
		case t.Tok == token.ASSIGN || t.Tok == token.TYPE_CHOICE_ASSIGN || t.Tok == token.GROUP_CHOICE_ASSIGN:
			rules++
			continue
		case t.Tok == token.LPAREN && prev == token.HASH || t.Tok == token.LPAREN && i > 1 && toks[i-2].Tok == token.HASH && (prev == token.INT || prev == token.FLOAT): // the content of a tag
			continue
		case t.Tok == token.IDENT:
			kinds = []string{"name " + t.Lit}
		case t.Tok == token.TEXT_LITERAL:
			kinds = []string{"text " + t.Lit}
		case t.Tok == token.FLOAT && number && prev == token.HASH:
			major, minor, _ := strings.Cut(t.Lit, ".")
			a, err1 := strconv.ParseUint(major, 0, 64)
			b, err2 := strconv.ParseUint(minor, 0, 64)
			if err1 != nil || err2 != nil {
				return fmt.Errorf("the tag %s at line %d, column %d is no tag", t.Lit, t.Pos.Line, t.Pos.Column)
			}
			if take(at, "number "+strconv.FormatUint(a, 10)) == nil {
				return fmt.Errorf("the tag %s at line %d, column %d has no major number %d in the tree", t.Lit, t.Pos.Line, t.Pos.Column, a)
			}
			at += len(major) + 1
			kinds = []string{"number " + strconv.FormatUint(b, 10)}
		case t.Tok == token.FLOAT && number:
			f, err := strconv.ParseFloat(t.Lit, 64)
			if err != nil {
				return fmt.Errorf("%s at line %d, column %d is out of range", t.Lit, t.Pos.Line, t.Pos.Column)
			}
			kinds = []string{"number " + schema.FloatValue(f)}
		case t.Tok == token.INT && number:
			v, err := strconv.ParseUint(t.Lit, 0, 64)
			if err != nil {
				return fmt.Errorf("%s at line %d, column %d is out of range", t.Lit, t.Pos.Line, t.Pos.Column)
			}
			d := strconv.FormatUint(v, 10)
			kinds = []string{"number " + d, "name " + d, "name " + t.Lit}
		case t.Tok == token.ARROW_MAP || t.Tok == token.COLON:
			kinds = []string{":"}
		}
		got := take(at, kinds...)
		if got == nil {
			return fmt.Errorf("%s %q at line %d, column %d is not in the tree (at its offset: %v)", t.Tok, t.Lit, t.Pos.Line, t.Pos.Column, have[at])
		}
		if t.Pos.Offset == at && (got.at.Line != t.Pos.Line || got.at.Column != t.Pos.Column) {
			return fmt.Errorf("%s %q stands at line %d, column %d, but in the tree at line %d, column %d", t.Tok, t.Lit, t.Pos.Line, t.Pos.Column, got.at.Line, got.at.Column)
		}
		if t.Tok == token.ZERO_OR_MORE || t.Tok == token.ONE_OR_MORE { // the bound that is not spelled
			take(at, "number 0", "number 1")
		}
	}
	for _, left := range have {
		for _, s := range left {
			return fmt.Errorf("the tree has %q at line %d, column %d, the source does not", s.kind, s.at.Line, s.at.Column)
		}
	}
	for _, n := range nodes {
		if _, ok := n.(*ast.Rule); ok {
			rules--
		}
	}
	if rules != 0 {
		return fmt.Errorf("%d assignments more than rules", rules)
	}
	return nil
}

func checkAccount(c SrcCase, o *core.Obs) error {
	tree, ds := parse(c.Src)
	if len(ds) > 0 {
		o.Label("refused")
		return nil
	}
	o.Label("accepted")
	toks, err := lexAll(c.Src)
	if err != nil {
		return nil // C01
	}
	o.NonTrivialIf(len(toks) > 6)
	nodes, err := nodesOf(tree)
	if err != nil {
		return err
	}
	if err := accountFor(toks, nodes); err != nil {
		return fmt.Errorf("accepted, but %v: %s", err, clips(string(c.Src), 3000))
	}
	return nil
}

func genAccount(t *rapid.T) SrcCase {
	if pick(t, 3) == 0 {
		return SrcCase{anySource(t)}
	}
	o := faultOpts
	o.NoSemi, o.MaxRules = true, 3
	toks, _ := schema.Edited(t, o)
	src := spread(t, toks)
	// every name is defined, unless it is by itself
	lexemes := refLex(src)
	word := func(i int) string {
		w := src[lexemes[i].Off:]
		if i+1 < len(lexemes) {
			w = src[lexemes[i].Off:lexemes[i+1].Off]
		}
		return strings.TrimSpace(w)
	}
	defined := map[string]bool{}
	for i, l := range lexemes {
		if l.Kind == "ident" && i+1 < len(lexemes) && (lexemes[i+1].Kind == "=" || lexemes[i+1].Kind == "/=" || lexemes[i+1].Kind == "//=") {
			defined[word(i)] = true
		}
	}
	for i, l := range lexemes {
		if l.Kind == "ident" && !defined[word(i)] {
			defined[word(i)] = true
			src += "\n" + word(i) + " = " + sample(t, []string{"int", "int", "5", "[]", "tstr"})
		}
	}
	return SrcCase{Bytes(src)}
}

func init() {
	core.Check("C07", "accepted", "valid, damaged and arbitrary sources: an accepted one has each name, literal, type and operator in one node, each node from one of them; non-trivial: accepted, with 6 tokens or more", 8000, genAccount, checkAccount)
}
