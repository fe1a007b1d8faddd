package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// schemaToks turns a text into the tokens that schema.Well judges. Not if the text is read in another way than by
// the reference lexer, which C04 decides where that matters.
func schemaToks(src []byte) ([]*schema.Tok, bool) {
	if !utf8.Valid(src) {
		return nil, false
	}
	text := string(src)
	lexemes := refLex(text)
	toks, err := lexAll(src)
	if err != nil || len(toks) != len(lexemes)+1 {
		return nil, false
	}
	out := []*schema.Tok{}
	for i, l := range lexemes {
		if toks[i].Pos.Offset != l.Off {
			return nil, false
		}
		end := len(text)
		if i+1 < len(lexemes) {
			end = lexemes[i+1].Off
		}
		t := &schema.Tok{S: strings.Trim(text[l.Off:end], " \t\r\n"), Class: schema.Word}
		switch l.Kind {
		case "ident":
		case "INT", "FLOAT":
			t.Class = schema.Number
		case "TEXT":
			t.Class = schema.Text
			if len(t.S) < 2 || !strings.HasSuffix(t.S, "\"") { // not terminated
				t.Class, t.S = schema.Punct, "!"
			}
		case "COMMENT":
			t.Class = schema.Comment
		case "ILLEGAL":
			t.Class, t.S = schema.Punct, "!"
		default:
			switch c := l.Kind[0]; {
			case c == '.' && len(l.Kind) > 1 && l.Kind[1] != '.':
				t.Class = schema.Ctrl
			case c|32 < 'a' || c|32 > 'z':
				t.Class = schema.Punct
			}
		}
		out = append(out, t)
	}
	return out, true
}

func checkC05Text(c SrcCase, o *core.Obs) error {
	toks, ok := schemaToks(c.Src)
	if !ok {
		return nil
	}
	if schema.Well(toks) {
		o.Label("may be well-formed")
		return nil
	}
	o.NonTrivialIf(len(toks) > 4)
	if _, ds := parse(c.Src); len(ds) == 0 {
		return fmt.Errorf("accepted without a diagnostic, but no schema under any reading: %s", clips(string(c.Src), 3000))
	}
	return nil
}

// checkC30Text: something is reported no later than at the first token that no schema can have in its place
func checkC30Text(c SrcCase, o *core.Obs) error {
	toks, ok := schemaToks(c.Src)
	if !ok {
		return nil
	}
	far, ok := schema.Viable(toks)
	if ok {
		o.Label("may be well-formed")
		return nil
	}
	at := len(c.Src)
	if far < len(toks) {
		at = refLex(string(c.Src))[far].Off
		if toks[far].S == "!" && c.Src[at] == '"' { // a text without end may be reported at the end of its line
			for at < len(c.Src) && c.Src[at] != '\n' {
				at++
			}
		}
	}
	o.NonTrivialIf(far > 4)
	_, ds := parse(c.Src)
	for _, d := range ds {
		if d.Start.Offset <= at {
			return nil
		}
	}
	if len(ds) == 0 {
		return nil // C05
	}
	return fmt.Errorf("nothing can continue at offset %d, but the first diagnostic is %s: %s", at, ds[0].Text, clips(string(c.Src), 3000))
}

func brokenText(t *rapid.T) SrcCase {
	switch pick(t, 4) {
	case 0:
		return SrcCase{anyBytes(t, 25)}
	case 1:
		return SrcCase{tokenSoup(t, 15)}
	case 2:
		o := faultOpts
		o.NoSemi, o.MaxRules = true, 3
		toks, _ := schema.Edited(t, o)
		return SrcCase{Bytes(spread(t, toks))}
	}
	return SrcCase{mutate(t, validSource(t, smallOpts))}
}

// everyEdit judges all texts that are one token away from a schema
func everyEdit(judge func(SrcCase, *core.Obs) error) func(SrcCase, *core.Obs) error {
	return func(c SrcCase, o *core.Obs) error {
		toks, ok := schemaToks(c.Src)
		if !ok {
			return nil
		}
		words := []string{}
		for _, k := range toks {
			words = append(words, k.S)
		}
		n := 0
		err := schema.EveryEdit(words, func(edit string, words []string) error {
			n++
			b := []byte{}
			for _, w := range words {
				b = append(b, w...)
				if strings.HasPrefix(w, ";") {
					b = append(b, '\n')
				} else {
					b = append(b, ' ')
				}
			}
			if err := judge(SrcCase{b}, &core.Obs{}); err != nil {
				return fmt.Errorf("with %s: %v", edit, err)
			}
			return nil
		})
		o.NonTrivialIf(len(words) > 4)
		o.Label("edits %d00 to", n/500*5)
		return err
	}
}

// BodyCase begins a rule, at top level or inside brackets, that each pair of tokens may continue
type BodyCase struct{ Open, Mid, Close string }

func shortBody(t *rapid.T) BodyCase {
	brackets := sample(t, []string{"a = |", "a = |", "a = [ | ]", "a = { | }", "a = ( | )", "a = #6.3( | )", "a = { b: | , c: int }", "a = int / |", "a = 1 .. |", "a = tstr .size |", "a = ~ |", "a = & |", "a //= |", "a = [ * | ]", "a<b> = |", "a = b< | >", "a = int |"})
	open, end, _ := strings.Cut(brackets, "|")
	return BodyCase{open, sample(t, schema.StrayTokens()), end}
}

func everyBody(judge func(SrcCase, *core.Obs) error) func(BodyCase, *core.Obs) error {
	return func(c BodyCase, o *core.Obs) error {
		all := append(schema.StrayTokens(), "")
		for _, x := range all {
			for _, y := range all {
				src := c.Open + c.Mid + " " + x + " " + y + " " + c.Close + "\nb = tstr\n"
				if err := judge(SrcCase{[]byte(src)}, &core.Obs{}); err != nil {
					return err
				}
			}
		}
		o.NonTrivial()
		o.Label("behind %s", c.Open)
		return nil
	}
}

func shortSource(t *rapid.T) SrcCase {
	o := faultOpts
	o.MaxRules, o.Depth, o.BareEntries, o.Extend = 2, 2, true, chance(t, 1, 3)
	for i := 0; ; i++ {
		toks := schema.Tokens(schema.File(t, o))
		if len(toks) <= 24 || i > 20 {
			return SrcCase{Bytes(spread(t, toks))}
		}
	}
}

func init() {
	core.Check("C05", "every edit", "all texts one token away from a short schema: deleted, doubled, and 40 others inserted or in its place; non-trivial: 5 tokens or more", 60, shortSource, everyEdit(checkC05Text))
	core.Check("C05", "every body", "all continuations by two of 40 tokens of a drawn beginning of a value; non-trivial: all", 20, shortBody, everyBody(checkC05Text))
	core.Check("C30", "every body", "the same", 20, shortBody, everyBody(checkC30Text))
	core.Check("C30", "every edit", "the same", 60, shortSource, everyEdit(checkC30Text))
	core.Check("C05", "text", "damaged, drawn and arbitrary sources that the recogniser refuses; non-trivial: 5 tokens or more", 15000, brokenText, checkC05Text)
	core.Check("C30", "text", "the same against the first token that no schema can have in its place; non-trivial: behind 5 tokens or more", 15000, brokenText, checkC30Text)
}
