package props

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/token"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// SrcCase is a case that consists of a source only
type SrcCase struct{ Src Bytes }

var allOps = []string{"=", "=>", "/", "//", "/=", "//=", "..", "...", ".", ",", ":", "?", "*", "+", "~", "&", "#", "-", "<", ">", "(", ")", "[", "]", "{", "}"}

// ctrlOps are the control operators of RFC 8610 and 9165
var ctrlOps = []string{".size", ".bits", ".regexp", ".cbor", ".cborseq", ".within", ".and", ".lt", ".le", ".gt", ".ge", ".eq", ".ne", ".default", ".plus", ".cat", ".det", ".abnf", ".abnfb", ".feature"}

var unknownCtrl = []string{".siz", ".sizes", ".Size", ".SIZE", ".l", ".lte", ".x", ".regex", ".regexps", ".pcre", ".cborse", ".cborseqs", ".an", ".ands", ".text", ".int", ".true", ".defaul", ".defaults", ".abn", ".abnfbx", ".feat", ".IDENT"}

var illegalRunes = []string{"!", "%", "^", "|", "\\", "'", "`", "é", "漢", "\U0001F600", "\x00", "\x07", "\v", "\f", "\x7f", "\ufeff", "\ufffd", "\u00a0", "\u2028",
	// characters that only resemble ones with a meaning
	"\u0661", "\uff15", "\u00b2", "\u00bd", "\u2167", "\uff21", "\uff41", "\u017f", "\u212a", "\u0301", "\uff1d", "\uff0c", "\uff1a", "\uff0f", "\uff1b", "\u037e",
	"\u201c", "\u201d", "\uff02", "\u2013", "\u2212", "\u2026", "\u2003", "\u3000", "\u0085", "\u2029", "\u200b", "\u1680", "\x1c", "\b"}

// anyRune draws a character beyond ASCII, most often a letter, a digit, a mark, a blank or a sign
func anyRune(t *rapid.T) string {
	tables := []*unicode.RangeTable{unicode.L, unicode.N, unicode.Nd, unicode.M, unicode.P, unicode.S, unicode.Z, unicode.Cf, unicode.Co}
	if chance(t, 1, 2) {
		tab := sample(t, tables)
		if chance(t, 1, 3) && len(tab.R32) > 0 {
			r := sample(t, tab.R32)
			return string(rune(r.Lo + uint32(pick(t, int((r.Hi-r.Lo)/r.Stride)+1))*r.Stride))
		}
		r := sample(t, tab.R16)
		if c := rune(uint32(r.Lo) + uint32(pick(t, int((r.Hi-r.Lo)/r.Stride)+1))*uint32(r.Stride)); c >= 0x80 {
			return string(c)
		}
	}
	return sample(t, illegalRunes[12:])
}

var identSamples = []string{"a", "b", "x1", "person", "in", "ab", "tcp-header", "a.b.c", "$sock", "$$plug", "@at", "_u", "A-B_C", "int8", "uint-x", "tstring", "Bool", "TRUE", "nullx", "float1", "float165", "anyone", "x.", "y-", "text_literal", "INTERNAL_MARKER_numeric_end", "EOL", "UNEXPECTED"}

const (
	letters    = "azAZbcdefghijklmnopqrstuvwxyBCDEFGHIJKLMNOPQRSTUVWXY"
	identStart = letters + "@_$"
)

// from draws a word of n characters
func from(t *rapid.T, chars string, n int) string {
	out := make([]byte, n)
	for i := range out {
		out[i] = chars[pick(t, len(chars))]
	}
	return string(out)
}

func lexeme(t *rapid.T) string {
	switch pick(t, 9) {
	case 0:
		if chance(t, 1, 2) {
			return from(t, identStart, 1) + from(t, identStart+"0123456789-.", pick(t, 8))
		}
		return sample(t, identSamples)
	case 1:
		return sample(t, schema.Keywords)
	case 2:
		return schema.IntSpelling(t, schema.UintValue(t, 1<<64-1))
	case 3:
		return fmt.Sprintf("%d.%d", schema.UintValue(t, 1<<62), pick(t, 1000))
	case 4:
		g := &schema.Gen{T: t}
		return "\"" + g.TextValue() + "\""
	case 5:
		return ";" + sample(t, []string{"", " c", "; x \"y", "é", "a = b", "\t"}) + "\n"
	case 6:
		return sample(t, ctrlOps)
	case 7:
		return sample(t, allOps)
	}
	if chance(t, 1, 2) {
		if chance(t, 1, 2) {
			return "." + from(t, letters, 1+pick(t, 7))
		}
		return sample(t, unknownCtrl)
	}
	if chance(t, 1, 2) {
		return anyRune(t)
	}
	return sample(t, illegalRunes)
}

var seps = []string{"", "", " ", "\n", "\t", "\r\n", "  ", "\n\n", "\r", " \n\t"}

// lexSoup draws a UTF-8 source of arbitrary lexemes, in any order
func lexSoup(t *rapid.T, max int) []byte {
	var b bytes.Buffer
	for i := between(t, 0, max); i > 0; i-- {
		b.WriteString(sample(t, seps))
		if chance(t, 1, 12) {
			b.WriteString(sample(t, []string{"\"", "\"abc", "0x", "0b", "1.", "$", ";", "\"\n", "\"é"}))
			continue
		}
		b.WriteString(lexeme(t))
	}
	b.WriteString(sample(t, seps))
	return b.Bytes()
}

var badBytes = []string{"\xff", "\xfe", "\xc0", "\xc0\x80", "\xe2\x82", "\xe2", "\xf0\x9f\x98", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "\xbf", "\xef\xbf\xbd", "\xef\xbb\xbf", "\x00", "\x1b", "\x7f", "\"", "\"\"", ";", "\n", "\r", ".", "..", "/", "0", "0x", "0b", "0o", "1.", "$", "\""}

func anyBytes(t *rapid.T, max int) []byte {
	var b bytes.Buffer
	for i := between(t, 0, max); i > 0; i-- {
		switch pick(t, 4) {
		case 0:
			b.WriteByte(byte(pick(t, 256)))
		case 1, 2:
			b.WriteString(sample(t, badBytes))
		default:
			b.WriteString(lexeme(t))
		}
	}
	return b.Bytes()
}

// mutate damages a source: cuts, deletes, duplicates, replaces and inserts bytes
func mutate(t *rapid.T, src []byte) []byte {
	src = append([]byte{}, src...)
	for i := between(t, 1, 3); i > 0 && len(src) > 0; i-- {
		at := pick(t, len(src))
		n := between(t, 1, 6)
		if at+n > len(src) {
			n = len(src) - at
		}
		switch pick(t, 6) {
		case 0:
			src = src[:at]
		case 1:
			src = append(src[:at:at], src[at+n:]...)
		case 2:
			src[at] = byte(pick(t, 256))
		case 3:
			src = append(src[:at:at], append([]byte(sample(t, badBytes)), src[at:]...)...)
		case 4:
			src = append(src[:at+n:at+n], src[at:]...)
		default:
			src = append(src[:at:at], append([]byte(lexeme(t)), src[at:]...)...)
		}
	}
	return src
}

// stretched is a source in which something short is repeated many times: a letter, a blank, a digit, a lexeme, a line
func stretched(t *rapid.T) []byte {
	var b bytes.Buffer
	b.Write(lexSoup(t, 6))
	for i := between(t, 1, 2); i > 0; i-- {
		times := sample(t, []int{20, 40, 70, 130, 260, 520, 1030, 2060, 4100, 8200, 33000, 66000})
		open, piece, end := "", "", ""
		switch pick(t, 9) {
		case 0, 1: // one long token
			open, piece = sample(t, []string{"a", "$", "_", "x-"}), sample(t, []string{"a", "b-", "c.d", "_", "$", "9"})
		case 2:
			open, piece, end = "\"", sample(t, []string{"a", " ", "é", "漢", ";", "\\", "\U0001F600"}), "\""
		case 3:
			open, piece, end = ";", sample(t, []string{"a", " ", "é", ";", "\"", "\t"}), "\n"
		case 4:
			open, piece = sample(t, []string{"1", "0x", "0b", "7."}), sample(t, []string{"1", "0", "10"})
		case 5, 6: // blanks and lines
			piece = sample(t, []string{" ", "\n", "\t", "\r\n", "\r", " \n", "\n\n "})
		default: // many tokens
			open, piece, end = " ", lexeme(t)+sample(t, []string{" ", " ", "\n", "\r\n"}), ""
			times = min(times, 4100)
		}
		b.WriteString(open + strings.Repeat(piece, times) + end)
		b.WriteString(sample(t, []string{" ", "\n", "\r\n"}))
		b.Write(lexSoup(t, 6))
	}
	return b.Bytes()
}

func validSource(t *rapid.T, o schema.Opts) []byte {
	src, _ := schema.Spell(t, schema.File(t, o))
	return []byte(src)
}

var smallOpts = schema.Opts{MaxRules: 3, MinRules: 1, Depth: 2, Width: 3, Controls: true, Comments: true, OmitCommas: true, Extend: true, BareEntries: true}

func hostile(src []byte) bool {
	return !utf8.Valid(src) || bytes.Count(src, []byte("\""))%2 == 1 || bytes.IndexByte(src, 0) >= 0 || bytes.Contains(src, []byte("\xef\xbf\xbd"))
}

func checkC01(c SrcCase, o *core.Obs) error {
	src := append([]byte{}, c.Src...)
	o.NonTrivialIf(hostile(src))
	o.LabelIf(!utf8.Valid(src), "invalid UTF-8")
	o.LabelIf(bytes.Count(src, []byte("\""))%2 == 1, "odd number of quotes")
	o.LabelIf(len(src) == 0, "empty")
	l := lexer.NewLexer(src)
	n := 0
	var eof token.Position
	for {
		tok, pos, _ := l.Scan()
		if tok == token.EOF {
			eof = pos
			break
		}
		n++
		if n > len(src) {
			return fmt.Errorf("%d tokens and still no end-of-input for %d bytes", n, len(src))
		}
	}
	o.LabelIf(n >= 20, "20 tokens or more")
	for i := 0; i < 3; i++ {
		tok, pos, _ := l.Scan()
		if tok != token.EOF || pos != eof {
			return fmt.Errorf("after end-of-input at %+v the lexer answers %v at %+v", eof, tok, pos)
		}
	}
	return nil
}

func isBlank(b []byte) bool { return len(bytes.Trim(b, " \t\r\n")) == 0 }

// spelled returns how a token must stand in the source
func spelled(src []byte, t ltok) (string, error) {
	switch t.Tok {
	case token.COMMENT:
		return ";" + t.Lit, nil
	case token.TEXT_LITERAL:
		s := "\"" + t.Lit
		end := t.Pos.Offset + len(s)
		if end < len(src) && src[end] == '"' {
			return s + "\"", nil
		}
		if end == len(src) || end < len(src) && src[end] == '\n' { // not terminated
			return s, nil
		}
		return "", fmt.Errorf("text literal %q at offset %d stops neither at a quote nor at the end of its line", t.Lit, t.Pos.Offset)
	case token.EOF:
		return "", nil
	}
	if t.Lit == "" {
		return "", fmt.Errorf("empty token %v at offset %d", t.Tok, t.Pos.Offset)
	}
	return t.Lit, nil
}

func checkC02(c SrcCase, o *core.Obs) error {
	src := []byte(c.Src)
	toks, err := lexAll(src)
	if err != nil {
		return err
	}
	end, touching := 0, 0
	for i, t := range toks {
		off := t.Pos.Offset
		if off < end || off > len(src) {
			return fmt.Errorf("token %d (%v %q) at offset %d, but the token before ends at %d (source has %d bytes)", i, t.Tok, t.Lit, off, end, len(src))
		}
		if !isBlank(src[end:off]) {
			return fmt.Errorf("%q before token %d (%v %q) belongs to no token", src[end:off], i, t.Tok, t.Lit)
		}
		if i > 0 && off == end && t.Tok != token.EOF {
			touching++
		}
		s, err := spelled(src, t)
		if err != nil {
			return err
		}
		if !bytes.HasPrefix(src[off:], []byte(s)) {
			return fmt.Errorf("token %d: %v with literal %q is not what stands at offset %d: %q", i, t.Tok, t.Lit, off, clipb(src[off:]))
		}
		if t.Tok == token.COMMENT && off+len(s) < len(src) && src[off+len(s)] != '\n' {
			return fmt.Errorf("comment %q ends before its line does", t.Lit)
		}
		end = off + len(s)
	}
	if !isBlank(src[end:]) {
		return fmt.Errorf("%q at the end belongs to no token", src[end:])
	}
	o.NonTrivialIf(len(toks) >= 5 && touching > 0)
	o.LabelIf(touching > 0, "touching tokens")
	o.LabelIf(bytes.Contains(src, []byte("\r\n")), "CRLF")
	o.LabelIf(bytes.IndexFunc(src, func(r rune) bool { return r > 127 }) >= 0, "non-ASCII")
	return nil
}

func clipb(b []byte) []byte {
	if len(b) > 30 {
		return b[:30]
	}
	return b
}

func checkC03(c SrcCase, o *core.Obs) error {
	src := []byte(c.Src)
	toks, err := lexAll(src)
	if err != nil {
		return err
	}
	lines := 0
	at := posTable(src)
	for i, t := range toks {
		line, col := at(t.Pos.Offset)
		if t.Pos.Offset < 0 || t.Pos.Offset > len(src) {
			return fmt.Errorf("token %d (%v %q) at offset %d of %d bytes", i, t.Tok, t.Lit, t.Pos.Offset, len(src))
		}
		if t.Pos.Line != line || t.Pos.Column != col {
			return fmt.Errorf("token %d (%v %q) at offset %d is on line %d column %d, reported as line %d column %d", i, t.Tok, t.Lit, t.Pos.Offset, line, col, t.Pos.Line, t.Pos.Column)
		}
		if line > lines {
			lines = line
		}
		if t.Tok == token.EOF && !isBlank(src[t.Pos.Offset:]) {
			return fmt.Errorf("end-of-input reported at offset %d before %q", t.Pos.Offset, src[t.Pos.Offset:])
		}
	}
	o.NonTrivialIf(lines >= 3 && len(toks) >= 5)
	o.LabelIf(lines >= 3, "3 lines or more")
	o.LabelIf(bytes.Contains(src, []byte("\r\n")), "CRLF")
	o.LabelIf(bytes.Contains(src, []byte("\n\n")), "blank lines")
	o.LabelIf(len(src) > 0 && src[len(src)-1] == '\n', "ends with a newline")
	return nil
}

// LexemeCase is a source together with the tokens it consists of
type LexemeCase struct {
	Src  Bytes
	Want []WantTok
}

// WantTok is an expected token
type WantTok struct {
	Kind string
	Off  int
}

// refLex is the reference lexer, written from RFC 8610 and the dialect's identifier alphabet
func refLex(src string) []WantTok {
	out := []WantTok{}
	i := 0
	for {
		for i < len(src) && strings.IndexByte(" \t\r\n", src[i]) >= 0 {
			i++
		}
		if i >= len(src) {
			return out
		}
		start := i
		kind := ""
		c := src[i]
		alpha := func(b byte) bool { return b|32 >= 'a' && b|32 <= 'z' }
		digit := func(b byte) bool { return b >= '0' && b <= '9' }
		while := func(f func(byte) bool) {
			for i < len(src) && f(src[i]) {
				i++
			}
		}
		switch {
		case alpha(c) || c == '@' || c == '_' || c == '$':
			while(func(b byte) bool { return alpha(b) || digit(b) || strings.IndexByte("@_$-.", b) >= 0 })
			kind = "ident"
			if w := src[start:i]; schema.IsKeyword(w) {
				kind = w
			}
		case digit(c):
			kind = "INT"
			i++
			if c == '0' && i < len(src) && strings.IndexByte("xob", src[i]) >= 0 {
				base := src[i]
				i++
				while(func(b byte) bool {
					switch base {
					case 'x':
						return digit(b) || b|32 >= 'a' && b|32 <= 'f'
					case 'o':
						return b >= '0' && b <= '7'
					}
					return b == '0' || b == '1'
				})
				break
			}
			while(digit)
			if i+1 < len(src) && src[i] == '.' && digit(src[i+1]) {
				kind = "FLOAT"
				i++
				while(digit)
			}
		case c == '"':
			kind = "TEXT"
			i++
			while(func(b byte) bool { return b != '"' })
			i++
		case c == ';':
			kind = "COMMENT"
			while(func(b byte) bool { return b != '\n' })
		case c == '.' && i+1 < len(src) && alpha(src[i+1]):
			i++
			while(alpha)
			kind = "ILLEGAL"
			for _, op := range ctrlOps {
				if op == src[start:i] {
					kind = op
				}
			}
		default:
			best := ""
			for _, op := range allOps {
				if strings.HasPrefix(src[i:], op) && len(op) > len(best) {
					best = op
				}
			}
			if best != "" {
				kind = best
				i += len(best)
				break
			}
			kind = "ILLEGAL"
			_, w := utf8.DecodeRuneInString(src[i:])
			i += w
		}
		out = append(out, WantTok{kind, start})
	}
}

var kindOf = map[string]token.Token{
	"ident": token.IDENT, "INT": token.INT, "FLOAT": token.FLOAT, "TEXT": token.TEXT_LITERAL, "COMMENT": token.COMMENT, "ILLEGAL": token.ILLEGAL,
	"int": token.INT, "uint": token.UINT, "nint": token.NINT, "float": token.FLOAT, "float16": token.FLOAT16, "float32": token.FLOAT32, "float64": token.FLOAT64,
	"tstr": token.TSTR, "text": token.TEXT, "bytes": token.BYTES, "bstr": token.BSTR, "bool": token.BOOL, "true": token.TRUE, "false": token.FALSE,
	"nil": token.NIL, "null": token.NULL, "any": token.ANY,
	"-": token.MINUS, "(": token.LPAREN, "[": token.LBRACK, "{": token.LBRACE, ")": token.RPAREN, "]": token.RBRACK, "}": token.RBRACE,
	",": token.COMMA, ".": token.PERIOD, ":": token.COLON, "=": token.ASSIGN, "=>": token.ARROW_MAP, "?": token.OPTIONAL, "/": token.TYPE_CHOICE,
	"//": token.GROUP_CHOICE, "/=": token.TYPE_CHOICE_ASSIGN, "//=": token.GROUP_CHOICE_ASSIGN, "&": token.AMPERSAND, "#": token.HASH,
	"<": token.LEFT_ANGLE_BRACKET, ">": token.RIGHT_ANGLE_BRACKET, "..": token.INCLUSIVE_BOUND, "...": token.EXCLUSIVE_BOUND,
	"*": token.ZERO_OR_MORE, "+": token.ONE_OR_MORE, "~": token.UNWRAP,
	".size": token.SIZE, ".bits": token.BITS, ".regexp": token.REGEXP, ".cbor": token.CBOR, ".cborseq": token.CBORSEQ, ".within": token.WITHIN, ".and": token.AND,
	".lt": token.LT, ".le": token.LE, ".gt": token.GT, ".ge": token.GE, ".eq": token.EQ, ".ne": token.NE, ".default": token.DEFAULT,
	".plus": token.PLUS, ".cat": token.CAT, ".det": token.DET, ".abnf": token.ABNF, ".abnfb": token.ABNFB, ".feature": token.FEATURE,
}

// ambiguous tells whether two lexemes side by side are read in more than one way: numbers with letters or
// fractions attached, control operators with digits or hyphens attached
func ambiguous(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	first := b[0]
	last := a[len(a)-1]
	word := first|32 >= 'a' && first|32 <= 'z' || first >= '0' && first <= '9' || strings.IndexByte("@_$-", first) >= 0
	switch {
	case a[0] >= '0' && a[0] <= '9':
		return word || first == '.' && (len(b) < 2 || b[1] != '.' && !(b[1]|32 >= 'a' && b[1]|32 <= 'z'))
	case a[0] == '.' && len(a) > 1 && a[1]|32 >= 'a' && a[1]|32 <= 'z':
		return word
	case last == '.': // a period or bound before something that may turn it into a control operator, bound or fraction
		return word || first == '.'
	}
	return false
}

func genC04(t *rapid.T) LexemeCase {
	var b strings.Builder
	prev := ""
	for i := between(t, 1, 14); i > 0; i-- {
		l := lexeme(t)
		sep := sample(t, seps)
		if sep == "" && ambiguous(prev, l) {
			sep = " "
		}
		b.WriteString(sep)
		b.WriteString(l)
		prev = l
	}
	src := b.String()
	return LexemeCase{Bytes(src), refLex(src)}
}

func genC04Long(t *rapid.T) LexemeCase {
	c := genC04(t)
	times := sample(t, []int{20, 33, 65, 129, 257, 513, 1025, 4097, 33000, 66000})
	mid := ""
	switch pick(t, 6) {
	case 0:
		mid = sample(t, []string{"a", "_", "$", "int"}) + strings.Repeat(sample(t, []string{"a", "-b", ".c", "9", "_"}), times)
	case 1:
		mid = "\"" + strings.Repeat(sample(t, []string{"a", "é", " ", ";"}), times) + "\""
	case 2:
		mid = ";" + strings.Repeat(sample(t, []string{"a", "é", " ", "\""}), times) + "\n"
	case 3:
		mid = sample(t, []string{"1", "0x", "0b1", "1.0"}) + strings.Repeat(sample(t, []string{"1", "0"}), times)
	case 4:
		mid = "." + strings.Repeat(sample(t, []string{"a", "size"}), times)
	default:
		mid = strings.Repeat(lexeme(t)+" ", min(times, 1025))
	}
	src := string(c.Src)
	if strings.Contains(src, ";") {
		src += "\n"
	}
	src = mid + " " + src + " " + mid
	return LexemeCase{Bytes(src), refLex(src)}
}

func checkC04(c LexemeCase, o *core.Obs) error {
	toks, err := lexAll(c.Src)
	if err != nil {
		return err
	}
	toks = toks[:len(toks)-1] // without end-of-input
	kinds := map[string]bool{}
	touching := false
	for i, w := range c.Want {
		if i >= len(toks) {
			return fmt.Errorf("token %d: expected %s at offset %d, got end-of-input", i, w.Kind, w.Off)
		}
		g := toks[i]
		want, ok := kindOf[w.Kind]
		if !ok {
			panic("harness: no kind " + w.Kind)
		}
		if g.Tok != want || g.Pos.Offset != w.Off {
			return fmt.Errorf("token %d: expected %s (%v) at offset %d, got %v %q at offset %d", i, w.Kind, want, w.Off, g.Tok, g.Lit, g.Pos.Offset)
		}
		kinds[w.Kind] = true
		if w.Off > 0 && !isBlank(c.Src[w.Off-1:w.Off]) {
			touching = true
		}
	}
	if len(toks) > len(c.Want) {
		return fmt.Errorf("extra token %v %q at offset %d", toks[len(c.Want)].Tok, toks[len(c.Want)].Lit, toks[len(c.Want)].Pos.Offset)
	}
	o.NonTrivialIf(len(kinds) >= 2 && touching)
	for k := range kinds {
		o.Label("kind %s", k)
	}
	return nil
}

// pairsC04 lists every pair of lexeme kinds side by side, touching where that is unambiguous
func pairsC04() []LexemeCase {
	list := append([]string{}, allOps...)
	list = append(list, ctrlOps...)
	list = append(list, schema.Keywords...)
	list = append(list, unknownCtrl...)
	list = append(list, illegalRunes...)
	list = append(list, identSamples...)
	list = append(list, "0", "7", "120", "0x1F", "0o17", "0b101", "1.5", "0.0", "10.25", "\"\"", "\"a b\"", "\"é;\"", ";\n", "; c\n")
	out := []LexemeCase{}
	for _, a := range list {
		for _, b := range list {
			src := a
			if ambiguous(a, b) {
				src += " "
			}
			src += b
			out = append(out, LexemeCase{Bytes(src), refLex(src)})
		}
	}
	return out
}

func init() {
	core.Check("C01", "bytes", "random byte strings mixing raw bytes, invalid UTF-8, unterminated literals and lexemes; non-trivial: invalid UTF-8, U+FFFD, NUL or an odd number of quotes", 12000,
		func(t *rapid.T) SrcCase { return SrcCase{anyBytes(t, 24)} }, checkC01)
	core.Check("C01", "mutated", "generated valid schemas cut, damaged and spliced; same rule", 3000,
		func(t *rapid.T) SrcCase { return SrcCase{mutate(t, validSource(t, smallOpts))} }, checkC01)
	core.Check("C01", "soup", "lexeme sequences in arbitrary order; same rule", 4000,
		func(t *rapid.T) SrcCase { return SrcCase{lexSoup(t, 30)} }, checkC01)
	core.Check("C01", "stretched", "sources with long tokens, long gaps or many tokens, up to 200000 bytes; same rule", 300,
		func(t *rapid.T) SrcCase { return SrcCase{stretched(t)} }, checkC01)
	core.Enum("C01", "short", "every byte string of length 0, 1 and 2; same rule", func() []SrcCase {
		out := []SrcCase{{Bytes("")}}
		for a := 0; a < 256; a++ {
			out = append(out, SrcCase{Bytes{byte(a)}})
		}
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				out = append(out, SrcCase{Bytes{byte(a), byte(b)}})
			}
		}
		return out
	}, checkC01)

	core.Check("C02", "soup", "UTF-8 lexeme sequences with any separators; non-trivial: 5 tokens or more, two of them touching", 10000,
		func(t *rapid.T) SrcCase { return SrcCase{lexSoup(t, 30)} }, checkC02)
	core.Check("C02", "schema", "generated valid schemas; same rule", 2000,
		func(t *rapid.T) SrcCase { return SrcCase{validSource(t, smallOpts)} }, checkC02)
	core.Check("C02", "mutated", "damaged schemas that are still UTF-8; same rule", 3000,
		func(t *rapid.T) SrcCase {
			return SrcCase{[]byte(strings.ToValidUTF8(string(mutate(t, validSource(t, smallOpts))), "?"))}
		}, checkC02)

	core.Check("C02", "stretched", "sources with long tokens, long gaps or many tokens, up to 200000 bytes; same rule", 300,
		func(t *rapid.T) SrcCase { return SrcCase{stretched(t)} }, checkC02)

	core.Check("C03", "stretched", "sources with long tokens, long gaps or many tokens, up to 200000 bytes; same rule", 300,
		func(t *rapid.T) SrcCase { return SrcCase{stretched(t)} }, checkC03)
	core.Check("C03", "soup", "lexeme sequences with any separators; non-trivial: 3 lines and 5 tokens or more", 10000,
		func(t *rapid.T) SrcCase { return SrcCase{lexSoup(t, 30)} }, checkC03)
	core.Check("C03", "schema", "generated valid schemas under drawn layouts; same rule", 2000,
		func(t *rapid.T) SrcCase { return SrcCase{validSource(t, smallOpts)} }, checkC03)
	core.Check("C03", "bytes", "arbitrary bytes; same rule", 4000,
		func(t *rapid.T) SrcCase { return SrcCase{anyBytes(t, 30)} }, checkC03)

	core.Check("C04", "sequences", "sequences of 1 to 14 lexemes of all kinds, touching unless that is ambiguous; non-trivial: 2 kinds or more and two tokens touching", 10000, genC04, checkC04)
	core.Check("C04", "stretched", "as above with one lexeme 20 to 66000 times as long, or many of them; same rule", 300, genC04Long, checkC04)
	core.Enum("C04", "operators", "every string of length 1 to 6 over '/', '=', '>', '.', 'a' and blank; same rule", func() []LexemeCase {
		out := []LexemeCase{}
		level := []string{""}
		for n := 0; n < 6; n++ {
			next := []string{}
			for _, s := range level {
				for _, c := range []string{"/", "=", ">", ".", "a", " "} {
					next = append(next, s+c)
				}
			}
			for _, s := range next {
				out = append(out, LexemeCase{Bytes(s), refLex(s)})
			}
			level = next
		}
		return out
	}, checkC04)
	core.Enum("C04", "pairs", "every ordered pair out of all operators, control operators, keywords, unknown control operators, illegal characters and literal forms; same rule", pairsC04, checkC04)
}
