package schema

import (
	"strings"

	"pgregory.net/rapid"
)

// Fault is a source with a single injected fault
type Fault struct {
	Kind   string
	Detail string
	Toks   []*Tok
	// the fault is at token At or, if something is missing, between the tokens At-1 and At
	At      int
	Missing bool
}

// FaultKinds lists the injectable faults
var FaultKinds = []string{"no-assign", "no-operand", "no-value", "no-name", "no-key", "no-open", "no-close", "wrong-close", "stray-close", "double-comma", "illegal-char", "unknown-control", "unterminated-text", "too-large", "bad-number", "stray-token"}

// ClosesEarly marks a stray delimiter that fits, so that the fault shows only later
const ClosesEarly = "closes a collection early"

var closers = []string{")", "]", "}"}

// Illegal characters that start no token
var Illegal = []string{"!", "%", "^", "|", "\\", "'", "`", "é", "漢", "\x00", "\u00a0", "\x7f", "\u0661", "\uff15", "\u00b2", "\uff21", "\uff41", "\u017f", "\u212a", "\uff1d", "\uff0c", "\uff0f", "\uff1b", "\u201c", "\u2013", "\u2212", "\u2003", "\u3000", "\u0085", "\u2028", "\u200b", "\v", "\f", "\x1c", "\b"}

// BadControls are control operators that do not exist, or that the parser does not support
var BadControls = []string{".sizes", ".siz", ".foo", ".Size", ".regex", ".lte", ".equals", ".bit", ".cbor", ".within", ".default", ".plus", ".abnf"}

func clone(toks []*Tok) []*Tok {
	out := make([]*Tok, len(toks))
	for i, t := range toks {
		c := *t
		out[i] = &c
	}
	return out
}

func remove(toks []*Tok, i, j int) []*Tok {
	out := clone(toks)
	return append(out[:i:i], out[j:]...)
}

func insert(toks []*Tok, i int, t *Tok) []*Tok {
	out := clone(toks)
	return append(out[:i:i], append([]*Tok{t}, out[i:]...)...)
}

func walk(n *Node, parent *Node, f func(n, parent *Node)) {
	f(n, parent)
	for _, k := range n.Kids {
		walk(k, n, f)
	}
}

// Inject draws a fault of the kind for the schema, nil if the schema has no place for it
func Inject(t *rapid.T, file *Node, kind string) *Fault {
	toks := Tokens(file)
	index := map[*Tok]int{}
	for i, k := range toks {
		index[k] = i
	}
	where := func(f func(*Tok) bool) []int {
		out := []int{}
		for i, k := range toks {
			if f(k) {
				out = append(out, i)
			}
		}
		return out
	}
	role := func(r Role) []int { return where(func(k *Tok) bool { return k.Role == r }) }
	// positions where a token may be inserted: not between glued tokens, not between a line and its comment
	between := func() int {
		c := []int{}
		for i := 0; i <= len(toks); i++ {
			if i < len(toks) && (toks[i].Gap == Glue || toks[i].Class == Comment) {
				continue
			}
			c = append(c, i)
		}
		return From(t, c)
	}
	drop := func(idx []int) *Fault {
		if len(idx) == 0 {
			return nil
		}
		i := From(t, idx)
		return &Fault{Kind: kind, Detail: toks[i].S, Toks: remove(toks, i, i+1), At: i, Missing: true}
	}
	switch kind {
	case "no-assign":
		return drop(role(RAssign))
	case "no-name":
		return drop(role(RRuleName))
	case "no-key":
		return drop(role(RKey))
	case "no-open":
		return drop(role(ROpen))
	case "no-close":
		return drop(role(RClose))
	case "no-operand", "no-value":
		type span struct {
			n, parent *Node
		}
		spans := []span{}
		walk(file, nil, func(n, parent *Node) {
			if parent == nil {
				return
			}
			switch parent.K {
			case "choice", "gchoice", "range", "size", "regexp", "bits", "cmp", "unwrap", "enum", "opt", "occ", "tag":
				if kind == "no-operand" {
					spans = append(spans, span{n, parent})
				}
			case "entry", "rule":
				if kind == "no-value" {
					spans = append(spans, span{n, parent})
				}
			}
		})
		if len(spans) == 0 {
			return nil
		}
		s := From(t, spans)
		i, j := index[s.n.first], index[s.n.last]
		return &Fault{Kind: kind, Detail: s.n.K + " of " + s.parent.K, Toks: remove(toks, i, j+1), At: i, Missing: true}
	case "wrong-close":
		c := role(RClose)
		if len(c) == 0 {
			return nil
		}
		i := From(t, c)
		other := From(t, closers)
		for other == toks[i].S {
			other = closers[(strings.Index(")]}", other)+1)%3]
		}
		out := clone(toks)
		out[i].S = other
		return &Fault{Kind: kind, Detail: toks[i].S + " -> " + other, Toks: out, At: i}
	case "stray-close":
		i := between()
		c := From(t, closers)
		open := []string{}
		for _, k := range toks[:i] {
			switch k.Role {
			case ROpen:
				open = append(open, map[string]string{"(": ")", "[": "]", "{": "}"}[k.S])
			case RClose:
				open = open[:len(open)-1]
			}
		}
		detail := ""
		if len(open) > 0 && open[len(open)-1] == c {
			detail = ClosesEarly
		}
		return &Fault{Kind: kind, Detail: detail, Toks: insert(toks, i, &Tok{S: c, Class: Punct}), At: i}
	case "double-comma":
		c := role(RComma)
		c = append(c, where(func(k *Tok) bool { return k.Role == ROpen && k.Node.K != "tag" })...)
		if len(c) == 0 {
			return nil
		}
		i := From(t, c)
		return &Fault{Kind: kind, Detail: "after " + toks[i].S, Toks: insert(toks, i+1, &Tok{S: ",", Class: Punct}), At: i + 1}
	case "illegal-char":
		i := between()
		return &Fault{Kind: kind, Toks: insert(toks, i, &Tok{S: From(t, Illegal), Class: Punct}), At: i}
	case "stray-token": // that nothing in the grammar starts with, or that stands for something else only
		i := between()
		s := From(t, []string{".", "-", "<", ">", "="})
		c := Punct
		if s == "." || s == "-" {
			c = Ctrl // so that it is kept apart from numbers and words
		}
		return &Fault{Kind: kind, Detail: s, Toks: insert(toks, i, &Tok{S: s, Class: c}), At: i}
	case "unknown-control":
		op := From(t, BadControls)
		if c := where(func(k *Tok) bool { return k.Class == Ctrl }); len(c) > 0 && Chance(t, 1, 2) {
			i := From(t, c)
			out := clone(toks)
			out[i].S = op
			return &Fault{Kind: kind, Detail: toks[i].S + " -> " + op, Toks: out, At: i}
		}
		c := where(func(k *Tok) bool { return k.Role == RType || k.Role == RLit && k.Gap != Glue && k.Node.K != "uint" })
		if len(c) == 0 {
			return nil
		}
		i := From(t, c)
		out := insert(toks, i+1, &Tok{S: "5", Class: Number})
		out = insert(out, i+1, &Tok{S: op, Class: Ctrl})
		return &Fault{Kind: kind, Detail: op + " inserted", Toks: out, At: i + 1}
	case "unterminated-text":
		c := where(func(k *Tok) bool { return k.Class == Text })
		if len(c) == 0 {
			return nil
		}
		i := From(t, c)
		out := clone(toks)
		out[i].S = strings.TrimSuffix(out[i].S, "\"")
		return &Fault{Kind: kind, Toks: out, At: i}
	case "bad-number":
		c := where(func(k *Tok) bool { return k.Class == Number })
		if len(c) == 0 {
			return nil
		}
		i := From(t, c)
		out := clone(toks)
		out[i].S = From(t, []string{"1.2.3", "6.1.2", "0.0.0", "1.5.1.5", "0x", "0b", "0o"})
		return &Fault{Kind: kind, Detail: toks[i].S + " -> " + out[i].S, Toks: out, At: i}
	case "too-large":
		c := where(func(k *Tok) bool { return k.Class == Number && k.Role == RLit || k.Role == RKey && k.Class == Number })
		if len(c) == 0 {
			return nil
		}
		i := From(t, c)
		out := clone(toks)
		big := From(t, []string{"18446744073709551616", "99999999999999999999", "0x10000000000000000", "340282366920938463463374607431768211456"})
		switch n := toks[i].Node; {
		case strings.Contains(toks[i].S, ".") && n.K == "float":
			big = strings.Repeat("9", 310) + ".5"
		case toks[i].Gap == Glue && n.K == "uint" && strings.Contains(toks[i].S, "."): // tag number
			big = "6." + From(t, []string{"18446744073709551616", "99999999999999999999"})
		case toks[i].Gap == Glue && n.K == "uint": // tag major, or upper bound
			big = "18446744073709551616"
		case n.K == "int" || n.K == "uint":
			if Chance(t, 1, 2) {
				big = From(t, []string{"9223372036854775808", "0x8000000000000000", "18446744073709551615"})
			}
		}
		out[i].S = big
		return &Fault{Kind: kind, Detail: toks[i].S + " -> " + big, Toks: out, At: i}
	}
	panic("harness: fault " + kind)
}

// Offsets returns the range of offsets that counts as the place of the fault: from the token before to the token
// after, and one further if something is missing, because then the next token may stand in for it
func (f *Fault) Offsets(src string) (lo, hi int) {
	if f.Kind == "unterminated-text" { // from the quote to the end of its line, where it turns out to be missing
		lo = f.Toks[f.At].Pos.Off
		if i := strings.IndexByte(src[lo:], '\n'); i >= 0 {
			return lo, lo + i
		}
		return lo, len(src)
	}
	before, after := f.At-1, f.At
	for before > 0 && f.Toks[before].Class == Comment {
		before--
	}
	skip := func() {
		for after < len(f.Toks) && f.Toks[after].Class == Comment {
			after++
		}
	}
	skip()
	after++
	skip()
	if before >= 0 {
		lo = f.Toks[before].Pos.Off
	}
	hi = len(src)
	if after < len(f.Toks) {
		hi = f.Toks[after].Pos.Off + len(f.Toks[after].S)
	}
	return
}
