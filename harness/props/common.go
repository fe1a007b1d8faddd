// Package props holds the executable checks, one file per group of properties.
package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
	"pgregory.net/rapid"

	"verif/harness/schema"
)

// Bytes is a source that survives JSON
type Bytes []byte

// MarshalJSON keeps valid UTF-8 readable
func (b Bytes) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) {
		return json.Marshal("s:" + string(b))
	}
	return json.Marshal("b64:" + base64.StdEncoding.EncodeToString(b))
}

// UnmarshalJSON is its inverse
func (b *Bytes) UnmarshalJSON(raw []byte) error {
	var s string
	if err := json.Unmarshal(raw, &s); err != nil {
		return err
	}
	if strings.HasPrefix(s, "b64:") {
		v, err := base64.StdEncoding.DecodeString(s[4:])
		*b = v
		return err
	}
	*b = Bytes(strings.TrimPrefix(s, "s:"))
	return nil
}

// ltok is a token as the lexer delivers it
type ltok struct {
	Tok token.Token
	Pos token.Position
	Lit string
}

// lexAll scans until end-of-input, with a bound of one token per byte
func lexAll(src []byte) ([]ltok, error) {
	l := lexer.NewLexer(src)
	out := []ltok{}
	for i := 0; i <= len(src); i++ {
		t, p, s := l.Scan()
		out = append(out, ltok{t, p, s})
		if t == token.EOF {
			return out, nil
		}
	}
	return out, fmt.Errorf("no end-of-input after %d tokens for %d bytes; last token %v", len(out), len(src), out[len(out)-1])
}

// diag is a diagnostic
type diag struct {
	Start, End token.Position
	Text, Msg  string
}

func diagsOf(errs parser.ErrorList) []diag {
	out := []diag{}
	for _, e := range errs {
		if e == nil {
			out = append(out, diag{Text: "<nil>"})
			continue
		}
		out = append(out, diag{e.Start(), e.End(), e.Diagnostic(), e.Error()})
	}
	return out
}

func (d diag) String() string { return d.Text }

func parse(src []byte) (*ast.CDDL, []diag) {
	tree, errs := parser.NewParser(lexer.NewLexer(src)).ParseFile()
	return tree, diagsOf(errs)
}

func parseEnv(src []byte, env *environment.Environment) (*ast.CDDL, []diag) {
	tree, errs := parser.NewParser(lexer.NewLexer(src), parser.WithEnv(env)).ParseFile()
	return tree, diagsOf(errs)
}

func diagTexts(ds []diag) string {
	out := []string{}
	for _, d := range ds {
		out = append(out, d.Text)
	}
	return strings.Join(out, "\n    ")
}

// posTable computes line and column of the offsets of a source
func posTable(src []byte) func(off int) (line, col int) {
	starts := []int{0}
	for i, b := range src {
		if b == '\n' {
			starts = append(starts, i+1)
		}
	}
	return func(off int) (int, int) {
		if off > len(src) {
			off = len(src)
		}
		i := sort.SearchInts(starts, off+1)
		if i == 0 {
			return 0, 0
		}
		return i, off - starts[i-1] + 1
	}
}

func firstDiff(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "<end>", "<end>"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n  want %s\n  got  %s", i+1, x, y)
		}
	}
	return "(equal)"
}

// noDiags fails if a valid source was complained about
func noDiags(ds []diag) error {
	if len(ds) > 0 {
		return fmt.Errorf("diagnostics for a valid schema:\n    %s", diagTexts(ds))
	}
	return nil
}

// kinds counts the node kinds of a canonical tree
func kindsIn(canon string) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(canon); i++ {
		if canon[i] == '"' { // quoted text
			for i++; i < len(canon) && canon[i] != '"'; i++ {
				if canon[i] == '\\' {
					i++
				}
			}
			continue
		}
		if canon[i] == '(' {
			j := i + 1
			for j < len(canon) && canon[j] >= 'a' && canon[j] <= 'z' {
				j++
			}
			m[canon[i+1:j]]++
		}
	}
	return m
}

func pick(t *rapid.T, n int) int         { return schema.Pick(t, n) }
func between(t *rapid.T, lo, hi int) int { return schema.Range(t, lo, hi) }

// several draws lo to hi, and now and then one of the larger numbers
func several(t *rapid.T, lo, hi int, many ...int) int {
	if chance(t, 1, 14) {
		return sample(t, many)
	}
	return between(t, lo, hi)
}

func chance(t *rapid.T, n, m int) bool  { return schema.Chance(t, n, m) }
func sample[E any](t *rapid.T, s []E) E { return schema.From(t, s) }
