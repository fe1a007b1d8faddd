package schema

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Well tells whether a token sequence could be a schema, judged liberally: operators have their operands,
// brackets match, and members are separated by at most one comma. Precedence, the types of operands and the names
// are left open. What it refuses breaks the grammar under every reading.
func Well(toks []*Tok) bool {
	_, ok := Viable(toks)
	return ok
}

// Viable tells how many tokens, comments included, may begin a schema under some reading, and whether all are one
func Viable(toks []*Tok) (int, bool) {
	list, index := []*Tok{}, []int{}
	for i, t := range toks {
		if t.Class != Comment {
			list = append(list, t)
			index = append(index, i)
		}
	}
	index = append(index, len(toks))
	open := []int{} // numbers that may be the upper bound of an occurrence or its item
	for i, t := range list {
		if i > 0 && t.Class == Number && list[i-1].Class == Punct && (list[i-1].S == "*" || list[i-1].S == "+") {
			open = append(open, i)
		}
	}
	if len(open) > 10 {
		return len(toks), true
	}
	far := 0
	for choice := 0; choice < 1<<len(open); choice++ {
		r := &reader{toks: list, bounds: map[int]bool{}, index: index}
		for k, i := range open {
			r.bounds[i] = choice>>k&1 == 0
		}
		ok := true
		for ok && !r.end() {
			ok = r.rule()
		}
		if ok {
			return len(toks), true
		}
		far = max(far, r.i, r.far)
	}
	return index[far], false
}

type reader struct {
	toks   []*Tok
	i, far int // far: reached before going back
	bounds map[int]bool
	index  []int // places with the comments counted
}

func (r *reader) bound() {
	if r.bounds[r.i] {
		r.i++
	}
}

func (r *reader) end() bool { return r.i >= len(r.toks) }

func (r *reader) is(s ...string) bool {
	if r.end() || r.toks[r.i].Class == Text {
		return false
	}
	for _, x := range s {
		if r.toks[r.i].S == x {
			return true
		}
	}
	return false
}

func (r *reader) take(s ...string) bool {
	if r.is(s...) {
		r.i++
		return true
	}
	return false
}

func (r *reader) class(c Class) bool {
	if !r.end() && r.toks[r.i].Class == c {
		r.i++
		return true
	}
	return false
}

// number is a literal that is well-formed: it has at most one point, and digits behind its prefix
func (r *reader) number() bool {
	if r.end() || r.toks[r.i].Class != Number {
		return false
	}
	s := r.toks[r.i].S
	return !badNumber(s) && r.class(Number)
}

func badNumber(s string) bool {
	return strings.Count(s, ".") > 1 || s == "0x" || s == "0b" || s == "0o"
}

func (r *reader) rule() bool {
	if r.end() || r.toks[r.i].Class != Word || IsKeyword(r.toks[r.i].S) {
		return false
	}
	r.i++
	if !r.take("=", "/=", "//=") {
		return false
	}
	if !r.expr() {
		return false
	}
	r.take(",")
	return true
}

var goodControls = []string{".size", ".regexp", ".lt", ".le", ".gt", ".ge", ".eq", ".ne"}

// expr is a chain of operands and operators. Neither ranges nor controls chain, except for .bits, which takes any base.
func (r *reader) expr() bool {
	ranges, controls := 0, 0
	for {
		if r.is("?", "*", "+") { // what stands behind may be an expression of its own
			ranges, controls = 0, 0
		}
		if !r.operand() {
			return false
		}
		switch {
		case r.take("/", "//", ":", "=>"):
			ranges, controls = 0, 0
		case r.take(".bits"):
			ranges, controls = -100, -100
		case r.take("..", "..."):
			if ranges++; ranges > 1 {
				return false
			}
		case r.take(goodControls...):
			if controls++; controls > 1 {
				return false
			}
		case r.take("*", "+"): // behind a number, which may be a member of its own, or end one, as commas may be left out
			r.bound()
			ranges, controls = 0, 0
		default:
			return true
		}
	}
}

// operand is an operand with what stands before it
func (r *reader) operand() bool {
	for {
		switch {
		case r.take("?", "~", "&"):
		case r.take("*", "+"):
			r.bound()
		case r.take("("):
			return r.items(")")
		case r.take("["):
			return r.items("]")
		case r.take("{"):
			return r.items("}")
		case r.take("#"):
			r.number()
			from := r.i
			if !r.take("(") || r.expr() && r.take(")") {
				return true
			}
			if r.index[from] > r.index[from-1]+1 { // behind a comment, it may be a member of its own
				r.far, r.i = max(r.far, r.i), from
				return true
			}
			return false
		default:
			return r.class(Word) || r.number() || r.class(Text)
		}
	}
}

func (r *reader) items(end string) bool {
	for !r.take(end) {
		if r.end() || !r.expr() {
			return false
		}
		if !r.is(end) {
			r.take(",")
		}
	}
	return true
}

// stray are tokens that may be put anywhere by an edit
var stray = []struct {
	s string
	c Class
}{
	{"a", Word}, {"zz", Word}, {"int", Word}, {"tstr", Word}, {"true", Word}, {"5", Number}, {"1.5", Number}, {"1.2.3", Number}, {"0x", Number}, {"\"t\"", Text},
	{"=", Punct}, {"/=", Punct}, {"//=", Punct}, {"/", Punct}, {"//", Punct}, {":", Punct}, {"=>", Punct}, {",", Punct},
	{"(", Punct}, {")", Punct}, {"[", Punct}, {"]", Punct}, {"{", Punct}, {"}", Punct}, {"?", Punct}, {"*", Punct}, {"+", Punct},
	{"~", Punct}, {"&", Punct}, {"#", Punct}, {"..", Punct}, {"...", Punct}, {".size", Ctrl}, {".regexp", Ctrl}, {".bits", Ctrl}, {".lt", Ctrl},
	{".", Punct}, {"-", Punct}, {"<", Punct}, {">", Punct}, {"!", Punct}, {"|", Punct}, {".foo", Ctrl},
}

// IllFormed draws a token sequence that Well refuses: a valid one after some edits, or a sequence of drawn tokens
func IllFormed(t *rapid.T, o Opts) (toks []*Tok, edits string) {
	for {
		// blanks everywhere, so that the tokens stay what they are
		if toks, edits = Edited(t, o); !Well(toks) && !strings.Contains(edits, "\n") {
			return
		}
	}
}

// Edited draws a valid token sequence after some edits, or a sequence of drawn tokens
func Edited(t *rapid.T, o Opts) (toks []*Tok, edits string) {
	draw := func() *Tok {
		s := From(t, stray)
		return &Tok{S: s.s, Class: s.c}
	}
	if Chance(t, 1, 5) {
		edits = "sequence "
		for i := Range(t, 1, 12); i > 0; i-- {
			toks = append(toks, draw())
		}
	} else {
		toks = clone(Tokens(File(t, o)))
		for i := Range(t, 1, 3); i > 0; i-- {
			if len(toks) == 0 {
				break
			}
			j := Pick(t, len(toks))
			switch Pick(t, 5) {
			case 0:
				edits += "delete " + toks[j].S + " "
				toks = append(toks[:j:j], toks[j+1:]...)
			case 1:
				n := draw()
				edits += "insert " + n.S + " "
				toks = append(toks[:j:j], append([]*Tok{n}, toks[j:]...)...)
			case 2:
				n := draw()
				edits += "replace " + toks[j].S + " by " + n.S + " "
				toks[j] = n
			case 3:
				k := Pick(t, len(toks))
				edits += "swap " + toks[j].S + " and " + toks[k].S + " "
				toks[j], toks[k] = toks[k], toks[j]
			default:
				edits += "double " + toks[j].S + " "
				c := *toks[j]
				toks = append(toks[:j:j], append([]*Tok{&c}, toks[j:]...)...)
			}
		}
	}
	for i, k := range toks {
		k.Gap = Any
		if k.Class == Comment && i > 0 {
			k.Gap = OwnLn
		}
	}
	return
}

// EveryEdit calls f with the words of a text after each edit of a single token: without it, with it twice, and with
// each of the stray tokens in front of it or in its place. It stops at the first error.
func EveryEdit(words []string, f func(edit string, words []string) error) error {
	text := make([]string, 0, len(words)+1)
	try := func(edit string, i, without int, put ...string) error {
		text = append(append(append(text[:0], words[:i]...), put...), words[i+without:]...)
		return f(edit, text)
	}
	for i := 0; i <= len(words); i++ {
		if i < len(words) {
			if err := try(fmt.Sprintf("token %d deleted", i), i, 1); err != nil {
				return err
			}
			if err := try(fmt.Sprintf("token %d doubled", i), i, 0, words[i]); err != nil {
				return err
			}
		}
		for _, s := range stray {
			if err := try(fmt.Sprintf("%s inserted at %d", s.s, i), i, 0, s.s); err != nil {
				return err
			}
			if i < len(words) {
				if err := try(fmt.Sprintf("token %d replaced by %s", i, s.s), i, 1, s.s); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// StrayTokens are the tokens of edits
func StrayTokens() (out []string) {
	for _, s := range stray {
		out = append(out, s.s)
	}
	return
}
