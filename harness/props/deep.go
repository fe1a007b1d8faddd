package props

import (
	"fmt"
	"strings"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"

	"verif/harness/core"
)

// DeepCase is a source of one pattern, many times
type DeepCase struct {
	Open  string
	Times int
}

// deepCases: deep enough for a recursion without a bound to exhaust the stack the worker allows
func deepCases() []DeepCase {
	out := []DeepCase{}
	for _, open := range []string{"[", "~", "{ a: ", "int / "} {
		out = append(out, DeepCase{open, 1000000})
	}
	return out
}

func checkDeep(c DeepCase, o *core.Obs) error {
	src := []byte("r = " + strings.Repeat(c.Open, c.Times))
	o.NonTrivialIf(c.Times >= 1000000)
	o.Label("%s", c.Open)
	tree, errs := parser.NewParser(lexer.NewLexer(src)).ParseFile()
	if tree == nil {
		return fmt.Errorf("no tree")
	}
	if len(errs) == 0 {
		return fmt.Errorf("an unfinished rule without a diagnostic")
	}
	for _, e := range []int{0, len(errs) - 1} {
		if p := errs[e].Start(); p.Offset < 0 || p.Offset > len(src) || p.Line != 1 {
			return fmt.Errorf("diagnostic %d of %d lies outside of the source: %v", e, len(errs), errs[e])
		}
	}
	return nil
}
