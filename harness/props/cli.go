package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/token"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// ---- C26

// CmdCase is a source given to lex and parse
type CmdCase struct {
	Src  Bytes
	Name string
	Bad  string `json:",omitempty"` // why the file cannot be read
}

func genC26(t *rapid.T) CmdCase {
	if chance(t, 1, 60) {
		return CmdCase{Bad: sample(t, []string{"missing", "directory"}), Name: sample(t, []string{"a.cddl", "sub/dir/x.cddl"})}
	}
	src := anySource(t)
	for len(src) > 100000 { // the indented tree of a deeply nested source is large
		src = anySource(t)
	}
	return CmdCase{Src: Bytes(src), Name: sample(t, []string{"a.cddl", "x", "two words.cddl", "sub/dir/x.cddl", "\u00fc.cddl"})}
}

func runFile(c CmdCase) (lex, prs outcome, err error) {
	s, err := newScratch()
	if err != nil {
		return
	}
	defer s.remove()
	switch c.Bad {
	case "":
		err = s.write(c.Name, c.Src)
	case "directory":
		err = s.write(c.Name+"/x", nil)
	}
	if err != nil {
		return
	}
	before, err := s.snapshot()
	if err != nil {
		return
	}
	if lex, err = s.command(nil, "lex", c.Name); err != nil {
		return
	}
	if prs, err = s.command(nil, "parse", c.Name); err != nil {
		return
	}
	after, err := s.snapshot()
	if err == nil {
		err = same(before, after)
	}
	return
}

// kindShown tells whether the kind of a token is shown as what it is: an operator or reserved word by its
// spelling, which no other kind shares
func kindShown(t token.Token, lit string) error {
	shown := t.String()
	if own, ok := spelledKind(lit); ok && own == t && shown != lit {
		return fmt.Errorf("%q is shown as %q", lit, shown)
	}
	if own, ok := spelledKind(shown); shown == "" || ok && own != t {
		return fmt.Errorf("%q, which is something else, is shown as %q", lit, shown)
	}
	return nil
}

func spelledKind(s string) (token.Token, bool) {
	switch s {
	case "ident", "INT", "FLOAT", "TEXT", "COMMENT", "ILLEGAL": // no spellings
		return 0, false
	}
	t, ok := kindOf[s]
	return t, ok
}

func checkC26(c CmdCase, o *core.Obs) error {
	lex, prs, err := runFile(c)
	if err != nil {
		return err
	}
	if c.Bad != "" {
		o.Label("unreadable file")
		for _, r := range []outcome{lex, prs} {
			if r.Exit == 0 || strings.TrimSpace(r.Err) == "" {
				return fmt.Errorf("a file that cannot be read (%s) is not reported: %s", c.Bad, r)
			}
		}
		return nil
	}
	toks, err := lexAll(c.Src)
	if err != nil {
		return nil // C01 decides that
	}
	want := ""
	illegal := false
	for _, k := range toks {
		want += fmt.Sprintf("%d:%d: %s -> %s\n", k.Pos.Line, k.Pos.Column, k.Tok, k.Lit)
		if err := kindShown(k.Tok, k.Lit); err != nil {
			return err
		}
		illegal = illegal || k.Tok == token.ILLEGAL
	}
	o.LabelIf(illegal, "illegal character")
	if lex.Out != want {
		return fmt.Errorf("lex prints something else than the tokens: %s", firstDiff(want, lex.Out))
	}
	if illegal != (lex.Exit != 0) {
		return fmt.Errorf("illegal characters: %t, but %s", illegal, lex)
	}

	tree, ds := parse(c.Src)
	o.LabelIf(len(ds) > 0, "diagnostics")
	o.LabelIf(len(ds) > 1, "several diagnostics")
	o.NonTrivialIf(len(toks) > 4)
	// every diagnostic, in order
	lines := bytes.Split(c.Src, []byte{'\n'})
	rest := prs.Err
	for _, d := range ds {
		i := strings.Index(rest, d.Msg)
		if i < 0 {
			return fmt.Errorf("parse does not print the diagnostic %q: %s", d.Text, prs)
		}
		rest = rest[i+len(d.Msg):]
		if d.Start.Line < 1 || d.Start.Line > len(lines) {
			continue // C30
		}
		line := string(lines[d.Start.Line-1])
		// the line with its marker follows the message
		block := strings.SplitN(rest, "\n", 6)
		block = block[:min(len(block), 5)]
		col := d.Start.Column
		if col > len(line)+1 {
			continue
		}
		col = utf8.RuneCountInString(line[:col-1]) + 1
		if err := marked(strings.Join(block, "\n"), line, col, col); err != nil {
			return fmt.Errorf("parse, diagnostic %q: %v: %s", d.Text, err, prs)
		}
	}
	if len(ds) == 0 && strings.TrimSpace(prs.Err) != "" {
		return fmt.Errorf("parse complains without a diagnostic: %s", prs)
	}
	// the tree
	dec := json.NewDecoder(strings.NewReader(prs.Out))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return fmt.Errorf("parse does not print JSON: %v: %s", err, prs)
	}
	if _, err := dec.Token(); err != io.EOF {
		return fmt.Errorf("parse prints something after the JSON: %s", prs)
	}
	if own, err := json.Marshal(tree); err == nil {
		dec := json.NewDecoder(bytes.NewReader(own))
		dec.UseNumber()
		var w interface{}
		if err := dec.Decode(&w); err == nil && !reflect.DeepEqual(v, w) {
			return fmt.Errorf("parse prints something else than the tree: %s", firstDiff(string(own), prs.Out))
		}
	}
	if !utf8.Valid(c.Src) {
		o.Label("not UTF-8")
		return nil // JSON cannot carry it
	}
	have := map[string]int{}
	leaves(v, have)
	need := map[string]int{}
	names := []string{}
	nodes, err := nodesOf(tree)
	if err != nil {
		return nil // C07
	}
	for _, n := range nodes {
		l := ""
		switch x := n.(type) {
		case *ast.Identifier:
			l = "s" + x.Name
		case *ast.TextLiteral:
			l = "s" + x.Literal
		case *ast.IntegerLiteral:
			l = "n" + fmt.Sprint(x.Literal)
		case *ast.UintLiteral:
			l = "n" + fmt.Sprint(x.Literal)
		case *ast.FloatLiteral:
			l = "f" + schema.FloatValue(x.Literal)
		case *ast.BooleanLiteral:
			l = "b" + strconv.FormatBool(x.Bool)
		case *ast.Comment:
			l = "s" + x.Text
		default:
			continue
		}
		if need[l] == 0 {
			names = append(names, l)
		}
		need[l]++
	}
	for _, l := range names {
		n := have[l]
		if l[0] == 'f' { // a float may be printed like an integer
			n += have["g"+l[1:]]
		}
		if n < need[l] {
			return fmt.Errorf("the tree has %q %d times, the JSON %d times: %s", l[1:], need[l], n, clips(prs.Out, 3000))
		}
	}
	o.LabelIf(len(names) > 3, "four names or values")
	return nil
}

// leaves counts the values of a JSON tree, without those of positions
func leaves(v interface{}, out map[string]int) {
	switch x := v.(type) {
	case map[string]interface{}:
		_, a := x["Offset"]
		_, b := x["Line"]
		_, c := x["Column"]
		if a && b && c {
			return
		}
		for _, k := range x {
			leaves(k, out)
		}
	case []interface{}:
		for _, k := range x {
			leaves(k, out)
		}
	case string:
		out["s"+x]++
	case bool:
		out["b"+strconv.FormatBool(x)]++
	case json.Number:
		if strings.ContainsAny(string(x), ".eE") {
			f, _ := x.Float64()
			out["f"+schema.FloatValue(f)]++
		} else {
			out["n"+string(x)]++
			f, _ := x.Float64()
			out["g"+schema.FloatValue(f)]++
		}
	}
}

// ---- C27

// ReplLine is a line of a session
type ReplLine struct {
	Text Bytes
	Kind string // def, use, undefined, redef, extend, garbage, tree, command, empty
	// Defs are the names the line defines for good
	Defs []string `json:",omitempty"`
	// Names are the names that have to be mentioned (redef, undefined) or printed (tree)
	Names []string `json:",omitempty"`
	// Only: a tree line that asks for nothing else
	Only bool   `json:",omitempty"`
	EOL  string `json:",omitempty"`
}

// oneLine spells a rule on a line
func oneLine(t *rapid.T, rules []*schema.Node) string {
	tight := chance(t, 1, 3)
	toks := schema.Tokens(&schema.Node{K: "file", Kids: rules})
	return schema.Layout(toks, func(i int, rule schema.GapRule, need bool) string {
		switch {
		case rule == schema.Glue || i == 0 || tight && !need:
			return ""
		}
		return sample(t, []string{" ", " ", "  ", "\t"})
	}, sample(t, []string{"", "", " ", " ; note", "\t", " ;", "; a; b;"}))
}

func unsafeLine(s string) bool {
	return strings.ContainsAny(s, "\n\r") || strings.Contains(s, ">>>")
}

func genC27(t *rapid.T) []ReplLine {
	o := schema.Opts{Depth: 2, Width: 3, PlainNames: true, OmitCommas: true}
	g := &schema.Gen{T: t, O: o, Kinds: map[string]schema.RuleKind{}}
	lines := []ReplLine{}
	failed := []string{} // names of lines that did not parse, which defines nothing
	name := func() string {
		if len(failed) > 0 && chance(t, 1, 2) {
			n := failed[0]
			failed = failed[1:]
			return n
		}
		return "n" + strconv.Itoa(len(g.Names)) + sample(t, []string{"", "-x", "_y"})
	}
	value := func() *schema.Node {
		for i := 0; i < 5; i++ {
			v := g.Type(between(t, 0, 2))
			if s := schema.Pretty(schema.Tokens(v)); !unsafeLine(strings.TrimSpace(s)) {
				ok := true
				eachNode(v, func(n *schema.Node) { ok = ok && !(n.K == "ident" && n.S[0] == '$') })
				if ok {
					return v
				}
			}
		}
		return schema.Prim("int")
	}
	rule := func(n string) *schema.Node {
		return &schema.Node{K: "rule", S: "=", Key: schema.Ident(n), Kids: []*schema.Node{value()}}
	}
	for i := several(t, 1, 14, 20, 35, 50, 80); i > 0; i-- {
		l := ReplLine{EOL: sample(t, []string{"\n", "\n", "\n", "\r\n"})}
		k := pick(t, 16)
		if len(g.Names) == 0 && k >= 5 && k <= 8 {
			k = 0
		}
		switch k {
		default: // definitions
			rules := []*schema.Node{}
			l.Kind = "def"
			for j := sample(t, []int{1, 1, 1, 2}); j > 0; j-- {
				n := name()
				rules = append(rules, rule(n))
				g.Names = append(g.Names, n)
				l.Defs = append(l.Defs, n)
			}
			l.Text = Bytes(sample(t, []string{"", "", " "}) + oneLine(t, rules))
		case 4: // a definition with an unknown name
			l.Kind, l.Names = "undefined", []string{"zz-nobody" + strconv.Itoa(i)}
			l.Text = Bytes("zz-u" + strconv.Itoa(i) + " = [ tstr, k: " + l.Names[0] + " ]")
		case 5, 6: // again
			n := sample(t, g.Names)
			l.Kind, l.Names = "redef", []string{n}
			l.Text = Bytes(oneLine(t, []*schema.Node{rule(n)}))
		case 7:
			l.Kind = "extend"
			l.Text = Bytes(sample(t, g.Names) + " /= " + strings.TrimSpace(schema.Pretty(schema.Tokens(schema.Prim(sample(t, schema.Prims))))))
		case 8:
			l.Kind, l.Only = "tree", true
			for j := several(t, 1, 3, 5, 9, 12); j > 0; j-- {
				l.Names = append(l.Names, sample(t, g.Names))
			}
			l.Text = Bytes(":tree " + strings.Join(l.Names, " "))
			if chance(t, 1, 3) {
				l.Only = false
				l.Text = Bytes(sample(t, []string{":tree zz-none ", ":tree  ", " :tree "}) + strings.Join(l.Names, " ") + sample(t, []string{"", " zz-none", "  "}))
			}
		case 9:
			l.Kind = "command"
			l.Text = Bytes(sample(t, []string{":help", ":pv", ":pv", ":tree", ":tree ", ":foo", ":", ":help me", ":pv on", ":tree zz zz", ":q", ":quit", ":e", ":ex", ":exi", ":reset", ":clear", "quit", ":Exit", ":EXIT", "::", ": exit", "exit", ":tree %s %d", ":tree \x00", ":helpx", " :help"}))
		case 10:
			l.Kind = "empty"
			l.Text = Bytes(sample(t, []string{"", " ", "\t", ";", "; a comment", "   ; x = int"}))
		case 11, 12:
			l.Kind = "garbage"
			n := "zz-g" + strconv.Itoa(pick(t, 3))
			if chance(t, 1, 4) {
				n = "zz-f" + strconv.Itoa(i)
				l.Text = Bytes(n + sample(t, brokenRules))
				failed = append(failed, n)
				break
			}
			l.Text = Bytes(sample(t, []string{n + " = ", n, n + " = [", n + " = [ int, ", n + " = { a: ", n + " = ( ", "= int", "]", ")", "}", n + " = \"open", n + " = 'x'", n + " = 1..", n + " = 1..1.5", n + " = ! int", n + " = #", n + " = #6.", n + " = 99999999999999999999", n + " = int .foo 3", n + " = int / ", n + " == int", "[ a, b ]", "1 = 2", "int = tstr", "\"x\" = int", "\xff\xfe", n + " = \x00", "\ufeff" + n + " = int", n + " = int )", n + " = tstr .size", n + " = \"a\" .lt 5", "%s%d%n", "/= int", "//=", n + " //= ( ", "? int", "* ", n + " = 1*", n + " = &", n + " = ~", ",,,,", n + " = [,]", n + " = {{{{{{{{{{", "a b c d", n + " /", "\u6f22 = \u00e9", n + " = .. 3"}))
		case 13:
			l.Kind = "garbage"
			l.Text = Bytes(strings.NewReplacer("\n", " ", "\r", " ").Replace(string(anyBytes(t, 60))))
		case 14: // long
			n := sample(t, []int{65535, 65536, 65537, 70000, 200000})
			switch pick(t, 3) {
			case 0:
				l.Kind, l.Text = "empty", Bytes(";"+strings.Repeat("x", n))
			case 1:
				l.Kind, l.Text = "garbage", Bytes("zz-long = [ "+strings.Repeat("int, ", n/100)+" !")
			case 2:
				nm := name()
				g.Names = append(g.Names, nm)
				l.Kind, l.Defs = "def", []string{nm}
				l.Text = Bytes(nm + " = \"" + strings.Repeat("y", n) + "\"")
			}
		}
		text := string(l.Text)
		trimmed := strings.TrimSpace(text)
		if unsafeLine(text) || strings.HasPrefix(trimmed, ":exit") || l.Kind == "garbage" && strings.HasPrefix(trimmed, ":") {
			if len(l.Defs) > 0 {
				panic("harness: line " + text)
			}
			continue
		}
		lines = append(lines, l)
	}
	return lines
}

func checkC27(lines []ReplLine, o *core.Obs) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	var in bytes.Buffer
	all := []string{}
	kinds := map[string]int{}
	value := map[string]string{} // how a definition is shown
	for _, l := range lines {
		in.Write(l.Text)
		in.WriteString(l.EOL)
		kinds[l.Kind]++
		if len(l.Defs) > 0 {
			tree, _ := parse(l.Text)
			for _, r := range schema.Rules(tree) {
				for _, d := range l.Defs {
					if _, ok := value[d]; r.Name.Name == d && !ok {
						value[d] = astutils.Format(r.Value)
						all = append(all, d)
					}
				}
			}
			for _, d := range l.Defs {
				if _, ok := value[d]; !ok {
					return fmt.Errorf("the definition of %s is not accepted outside of the session: %s", d, clips(string(l.Text), 300))
				}
			}
		}
	}
	final := ":tree"
	for _, n := range all {
		final += " " + n
	}
	lines = append(append([]ReplLine{}, lines...), ReplLine{Text: Bytes(final), Kind: "tree", Names: all, Only: true})
	in.WriteString(final + "\n:exit\n")
	for k, n := range kinds {
		if n > 0 {
			o.Label("%s", k)
		}
	}
	o.NonTrivialIf(len(all) > 0 && len(lines) > 3)
	res, err := s.command(in.Bytes(), "qrepl")
	if err != nil {
		return err
	}
	if res.Exit != 0 {
		return fmt.Errorf("the session ends early: %s", clipEnds(res.String()))
	}
	parts := strings.Split(res.Out, ">>> ")
	if len(parts) != len(lines)+2 {
		return fmt.Errorf("%d lines, but %d prompts: %s", len(lines)+1, len(parts)-1, clipEnds(res.String()))
	}
	defined := map[string]bool{}
	types := false // :pv
	for i, l := range lines {
		out := parts[i+1]
		fail := func(format string, args ...interface{}) error {
			return fmt.Errorf("line %d (%s) %q: %s; it prints %q", i+1, l.Kind, clips(string(l.Text), 300), fmt.Sprintf(format, args...), clips(out, 800))
		}
		for _, d := range l.Defs {
			defined[d] = true
		}
		if strings.HasPrefix(strings.TrimSpace(string(l.Text)), ":pv") {
			types = !types
		}
		if types {
			o.LabelIf(l.Kind == "def", "definition with its type")
			for _, d := range l.Defs {
				if !strings.Contains(out, d) {
					return fail("types are to be printed, but %s is not", d)
				}
			}
		} else if l.Kind == "def" && out != "" {
			return fail("it is to print nothing")
		}
		switch l.Kind {
		case "def", "extend", "empty":
			if strings.Contains(out, "error") {
				return fail("an error")
			}
		case "undefined", "redef", "garbage":
			if strings.TrimSpace(out) == "" && l.Kind != "garbage" {
				return fail("no error")
			}
			for _, n := range l.Names {
				if !strings.Contains(out, n) {
					return fail("%s is not named", n)
				}
			}
			if l.Kind != "garbage" && !strings.Contains(out, "error") {
				return fail("no error")
			}
		case "tree":
			want := ""
			for _, n := range l.Names {
				if !defined[n] {
					return errors.New("harness: " + n)
				}
				w := n + ": " + value[n] + "\n"
				if !strings.Contains(out, w) {
					return fail("want %q", clips(w, 800))
				}
				want += w
			}
			if l.Only && out != want {
				return fail("want %q", clips(want, 800))
			}
		}
	}
	return nil
}

// checkC27Lex: with --lex, a session says the same, and before that the tokens of every line that is not a command
func checkC27Lex(lines []ReplLine, o *core.Obs) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	var in bytes.Buffer
	for _, l := range lines {
		in.Write(l.Text)
		in.WriteString(l.EOL)
	}
	in.WriteString(":exit\n")
	plain, err := s.command(in.Bytes(), "qrepl")
	if err != nil {
		return err
	}
	lexed, err := s.command(in.Bytes(), "qrepl", "--lex")
	if err != nil {
		return err
	}
	if plain.Exit != 0 || lexed.Exit != 0 {
		return fmt.Errorf("a session ends early: %s\n%s", clipEnds(plain.String()), clipEnds(lexed.String()))
	}
	a, b := strings.Split(plain.Out, ">>> "), strings.Split(lexed.Out, ">>> ")
	if len(a) != len(lines)+2 || len(b) != len(a) {
		return fmt.Errorf("%d lines, but %d prompts, and %d with tokens: %s", len(lines)+1, len(a)-1, len(b)-1, clipEnds(lexed.String()))
	}
	shown := 0
	for i, l := range lines {
		want := a[i+1]
		if command := strings.HasPrefix(strings.TrimSpace(string(l.Text)), ":"); !command || want != b[i+1] {
			toks, err := lexAll(l.Text)
			if err != nil {
				return nil // C01
			}
			spelled := ""
			for _, k := range toks {
				spelled += fmt.Sprintf("%d:%d: %s -> %s\n", k.Pos.Line, k.Pos.Column, k.Tok, k.Lit)
			}
			want = spelled + want
			shown += len(toks)
		}
		if b[i+1] != want {
			return fmt.Errorf("line %d %q: %s", i+1, clips(string(l.Text), 300), firstDiff(want, b[i+1]))
		}
	}
	o.NonTrivialIf(shown > 10)
	return nil
}

func clipEnds(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

func init() {
	core.Check("C26", "commands", "valid, faulty and arbitrary sources given to the lex and parse commands; oracle: what the library computes; non-trivial: five tokens or more", 400, genC26, checkC26)
	core.Check("C27", "sessions", "sessions of up to 14 lines: definitions, redefinitions, unknown names, extensions, malformed, binary, empty and very long lines, commands; then :tree of everything and :exit; non-trivial: a definition and three lines or more", 1500, genC27, checkC27)
	core.Check("C27", "tokens", "the same session with and without --lex; oracle: the tokens of every line that is not a command, then what is printed without; non-trivial: more than ten tokens", 300, genC27, checkC27Lex)
}
