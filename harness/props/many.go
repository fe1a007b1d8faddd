package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/core"
)

// ---- C30, many faults

// RuleLine is a line with one rule, % stands for the name
type RuleLine struct {
	Text string
	Kind string // good, bad, undefined, redefined
	Use  int    `json:",omitempty"` // column of the undefined name, from zero
}

// ManyCase are lines, repeated
type ManyCase struct {
	Lines  []RuleLine
	Repeat int
	EOL    string
}

var badRules = []string{
	"% = \x60", "% = int !", "% = \"open", "% = )", "% = ]", "% = }", "% = int )", "% int", "= int", "% =% int", "% = 1..2.5", "% = 1.5..2",
	"% = tstr .lt 5", "% = int .size 3", "% = uint .regexp \"a\"", "% = tstr .regexp 5", "% = tstr .foo 3", "% = 99999999999999999999", "% = 1.5 * int",
	"% = [a: int,, int]", "% = #6.1.2(int)", "% = {a: )}", "% = (int ]", "% = | int", "% = 5 = 6", "% /= )", "% //= \x60", "% = true .size 2", "% = \"a\" .lt 5",
}

var goodRules = []string{"% = int", "% = [a: int, b: tstr]", "% = {first => uint, ? v: bool}", "% = 1..5 ; fine", "% = tstr .size 5", "% = (a: #6.1(bstr), b: [* c: nil])", "% = \"text\" / 5 / false"}

var undefinedRules = []string{"% = gone", "% = [a: gone]", "% = {first => gone}", "% = int / gone", "% /= gone", "% = uint .lt gone", "% = [* gone]", "% = #6.2(gone)", "% = ~gone", "% = &gone", "% = 1..gone", "% = gone..2"}

func genC30Many(t *rapid.T) ManyCase {
	c := ManyCase{Repeat: several(t, 1, 3, 8, 20, 60, 300), EOL: sample(t, []string{"\n", "\n", "\r\n", "\n\n"})}
	for i := several(t, 1, 6, 10, 20, 40); i > 0; i-- {
		switch pick(t, 5) {
		case 0:
			c.Lines = append(c.Lines, RuleLine{Text: sample(t, goodRules), Kind: "good"})
		case 1:
			s := sample(t, undefinedRules)
			c.Lines = append(c.Lines, RuleLine{Text: s, Kind: "undefined", Use: strings.Index(s, "gone")})
		case 2:
			c.Lines = append(c.Lines, RuleLine{Text: sample(t, []string{"first = int", "first = [a: tstr]", "first = 5"}), Kind: "redefined"})
		default:
			c.Lines = append(c.Lines, RuleLine{Text: sample(t, badRules), Kind: "bad"})
		}
	}
	if chance(t, 1, 150) { // very many
		c.Repeat = 12000 / len(c.Lines)
	}
	return c
}

func checkC30Many(c ManyCase, o *core.Obs) error {
	var b strings.Builder
	b.WriteString("first = bool" + c.EOL)
	lines := []int{} // line of each rule
	at := 1 + strings.Count(c.EOL, "\n")
	bad := 0
	n := 0
	for r := 0; r < c.Repeat; r++ {
		for _, l := range c.Lines {
			lines = append(lines, at)
			b.WriteString(strings.Replace(l.Text, "%", fmt.Sprintf("n%06d", n), 1) + c.EOL)
			at += strings.Count(c.EOL, "\n")
			n++
			if l.Kind != "good" {
				bad++
			}
		}
	}
	_, ds := parse([]byte(b.String()))
	byLine := map[int][]diag{}
	for _, d := range ds {
		byLine[d.Start.Line] = append(byLine[d.Start.Line], d)
	}
	o.LabelIf(bad > 1, "several faulty rules")
	o.LabelIf(bad > 100, "more than 100 faulty rules")
	o.LabelIf(bad > 5000, "more than 5000 faulty rules")
	o.NonTrivialIf(bad > 1)
	said := make([]string, len(c.Lines))
	seen := 0
	for i, at := range lines {
		l := c.Lines[i%len(c.Lines)]
		here := byLine[at]
		seen += len(here)
		fail := func(format string, args ...interface{}) error {
			texts := ""
			for _, d := range here {
				texts += "\n  " + d.Text
			}
			return fmt.Errorf("rule %d of %d, on line %d, %q: %s; reported there:%s", i+1, len(lines), at, l.Text, fmt.Sprintf(format, args...), clips(texts, 1000))
		}
		switch l.Kind {
		case "good":
			if len(here) > 0 {
				return fail("it has no fault")
			}
		case "bad":
			if len(here) == 0 {
				return fail("the fault is not reported")
			}
		case "undefined":
			col := l.Use + 1
			if strings.Contains(l.Text, "%") {
				col += 6
			}
			if len(here) != 1 || here[0].Start.Column != col || !strings.Contains(here[0].Msg, "gone") {
				return fail("one undefined name at column %d", col)
			}
		case "redefined":
			if len(here) != 1 || here[0].Start.Column != 1 || !strings.Contains(here[0].Msg, "line 1,") {
				return fail("one redefinition of a name of line 1")
			}
		}
		text := strings.ReplaceAll(stripDiags(here), fmt.Sprintf("n%06d", i), "%")
		if i < len(c.Lines) {
			said[i] = text
		} else if text != said[i%len(c.Lines)] {
			return fail("where the same fault first occurs, this is reported: %s", said[i%len(c.Lines)])
		}
	}
	if seen != len(ds) {
		return fmt.Errorf("%d of %d diagnostics are on no rule's line", len(ds)-seen, len(ds))
	}
	return nil
}

func init() {
	core.Check("C30", "many", "one-line rules with one fault each, undefined and redefined names and faultless rules in a drawn order, repeated up to 12000 lines; oracle: each faulty rule is reported on its line, each time alike, names exactly, other rules not at all; non-trivial: two faulty rules", 600, genC30Many, checkC30Many)
}
