package props

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/runtime/validators"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// ---- C28: range validators

// RangeCase is a triple of numbers of one type, each written out
type RangeCase struct {
	Type      string
	V, Lo, Hi string
}

type (
	myInt8    int8
	myUint    uint
	myFloat32 float32
)

type answers struct{ in, ex, lt, gt bool }

func ask[T validators.NumericOrdered](v, lo, hi T) answers {
	return answers{
		validators.InInclusiveRange(v, lo, hi),
		validators.InExclusiveRange(v, lo, hi),
		validators.IsLessThan(v, hi),
		validators.IsGreaterThan(v, lo),
	}
}

func askInt[T int | int8 | int16 | int32 | int64 | myInt8](bits int) func(s [3]string) (answers, error) {
	return func(s [3]string) (answers, error) {
		var x [3]T
		for i := range s {
			v, err := strconv.ParseInt(s[i], 10, bits)
			if err != nil {
				return answers{}, err
			}
			x[i] = T(v)
		}
		return ask(x[0], x[1], x[2]), nil
	}
}

func askUint[T uint | uint8 | uint16 | uint32 | uint64 | uintptr | myUint](bits int) func(s [3]string) (answers, error) {
	return func(s [3]string) (answers, error) {
		var x [3]T
		for i := range s {
			v, err := strconv.ParseUint(s[i], 10, bits)
			if err != nil {
				return answers{}, err
			}
			x[i] = T(v)
		}
		return ask(x[0], x[1], x[2]), nil
	}
}

func askFloat[T float32 | float64 | myFloat32](bits int) func(s [3]string) (answers, error) {
	return func(s [3]string) (answers, error) {
		var x [3]T
		for i := range s {
			v, err := strconv.ParseFloat(s[i], bits)
			if err != nil {
				return answers{}, err
			}
			x[i] = T(v)
		}
		return ask(x[0], x[1], x[2]), nil
	}
}

type numType struct {
	name  string
	kind  byte // i u f
	bits  int
	apply func(s [3]string) (answers, error)
}

var goNumbers = []numType{
	{"int", 'i', 64, askInt[int](64)}, {"int8", 'i', 8, askInt[int8](8)}, {"int16", 'i', 16, askInt[int16](16)},
	{"int32", 'i', 32, askInt[int32](32)}, {"int64", 'i', 64, askInt[int64](64)}, {"named int8", 'i', 8, askInt[myInt8](8)},
	{"uint", 'u', 64, askUint[uint](64)}, {"uint8", 'u', 8, askUint[uint8](8)}, {"uint16", 'u', 16, askUint[uint16](16)},
	{"uint32", 'u', 32, askUint[uint32](32)}, {"uint64", 'u', 64, askUint[uint64](64)}, {"uintptr", 'u', 64, askUint[uintptr](64)},
	{"named uint", 'u', 64, askUint[myUint](64)},
	{"float32", 'f', 32, askFloat[float32](32)}, {"float64", 'f', 64, askFloat[float64](64)}, {"named float32", 'f', 32, askFloat[myFloat32](32)},
}

func fmtFloat(f float64, bits int) string { return strconv.FormatFloat(f, 'g', -1, bits) }

func genNumber(t *rapid.T, nt numType) string {
	switch nt.kind {
	case 'i':
		min, max := int64(-1)<<(nt.bits-1), int64(1)<<(nt.bits-1)-1
		switch pick(t, 5) {
		case 0:
			return strconv.FormatInt(sample(t, []int64{min, min + 1, max, max - 1, min / 2, max / 2}), 10)
		case 1, 2:
			return strconv.Itoa(between(t, -3, 3))
		case 3:
			v := int64(1) << between(t, 0, nt.bits-2)
			return strconv.FormatInt(v*sample(t, []int64{1, -1})+int64(between(t, -1, 1)), 10)
		}
		return strconv.FormatInt(rapid.Int64Range(min, max).Draw(t, ""), 10)
	case 'u':
		max := ^uint64(0) >> (64 - nt.bits)
		switch pick(t, 5) {
		case 0:
			return strconv.FormatUint(sample(t, []uint64{0, 1, max, max - 1, max / 2, max/2 + 1}), 10)
		case 1, 2:
			return strconv.Itoa(between(t, 0, 6))
		case 3:
			return strconv.FormatUint(uint64(1)<<between(t, 0, nt.bits-1), 10)
		}
		return strconv.FormatUint(rapid.Uint64Range(0, max).Draw(t, ""), 10)
	}
	switch pick(t, 6) {
	case 0:
		return sample(t, []string{"NaN", "+Inf", "-Inf", "-0", "0"})
	case 1:
		if nt.bits == 32 {
			return fmtFloat(float64(sample(t, []float32{math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, -math.SmallestNonzeroFloat32, 1 << 24, 1<<24 + 2})), 32)
		}
		return fmtFloat(sample(t, []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2}), 64)
	case 2, 3:
		return fmtFloat(float64(between(t, -3, 3))/2, nt.bits)
	case 4: // neighbours
		if nt.bits == 32 {
			return fmtFloat(float64(math.Nextafter32(float32(between(t, -2, 2)), float32(sample(t, []int{-9, 9})))), 32)
		}
		return fmtFloat(math.Nextafter(float64(between(t, -2, 2)), float64(sample(t, []int{-9, 9}))), 64)
	}
	if nt.bits == 32 {
		return fmtFloat(float64(rapid.Float32().Draw(t, "")), 32)
	}
	return fmtFloat(rapid.Float64().Draw(t, ""), 64)
}

func genC28(t *rapid.T) RangeCase {
	nt := sample(t, goNumbers)
	c := RangeCase{Type: nt.name, V: genNumber(t, nt), Lo: genNumber(t, nt), Hi: genNumber(t, nt)}
	switch pick(t, 6) {
	case 0:
		c.Lo = c.V
	case 1:
		c.Hi = c.V
	case 2:
		c.Hi = c.Lo
	}
	return c
}

// order compares two written numbers exactly: -1, 0, 1, or 2 when one is not a number
func order(a, b string, nt numType) int {
	x, y := exact(a, nt), exact(b, nt)
	if x == nil || y == nil {
		return 2
	}
	return x.Cmp(y)
}

func exact(s string, nt numType) *big.Float {
	switch {
	case s == "NaN":
		return nil
	case strings.HasSuffix(s, "Inf"):
		return new(big.Float).SetInf(s[0] == '-')
	case nt.kind == 'f':
		f, err := strconv.ParseFloat(s, nt.bits)
		if err != nil {
			return nil
		}
		return big.NewFloat(f)
	}
	i, _ := new(big.Int).SetString(s, 10)
	return new(big.Float).SetPrec(80).SetInt(i)
}

func checkC28(c RangeCase, o *core.Obs) error {
	var nt numType
	for _, n := range goNumbers {
		if n.name == c.Type {
			nt = n
		}
	}
	if nt.apply == nil {
		return nil
	}
	got, err := nt.apply([3]string{c.V, c.Lo, c.Hi})
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	lo, hi := order(c.Lo, c.V, nt), order(c.V, c.Hi, nt)
	want := answers{
		in: (lo == -1 || lo == 0) && (hi == -1 || hi == 0),
		ex: lo == -1 && hi == -1,
		lt: hi == -1,
		gt: lo == -1,
	}
	o.Label("%c", nt.kind)
	o.LabelIf(lo == 0 || hi == 0, "on a bound")
	o.LabelIf(lo == 2 || hi == 2, "NaN")
	o.LabelIf(order(c.Lo, c.Hi, nt) == 1, "inverted")
	o.NonTrivialIf(lo == 0 || hi == 0 || lo == 2 || hi == 2 || want.in || order(c.Lo, c.Hi, nt) == 1)
	if got != want {
		return fmt.Errorf("%s value %s, bounds %s and %s: inclusive %t (want %t), exclusive %t (want %t), value < %s %t (want %t), value > %s %t (want %t)",
			c.Type, c.V, c.Lo, c.Hi, got.in, want.in, got.ex, want.ex, c.Hi, got.lt, want.lt, c.Lo, got.gt, want.gt)
	}
	return nil
}

// smallC28 is every triple over a few values of each type
func smallC28() (out []RangeCase) {
	for _, nt := range goNumbers {
		var vals []string
		switch nt.kind {
		case 'i':
			min, max := int64(-1)<<(nt.bits-1), int64(1)<<(nt.bits-1)-1
			for _, v := range []int64{min, min + 1, -1, 0, 1, max - 1, max} {
				vals = append(vals, strconv.FormatInt(v, 10))
			}
		case 'u':
			max := ^uint64(0) >> (64 - nt.bits)
			for _, v := range []uint64{0, 1, 2, max / 2, max/2 + 1, max - 1, max} {
				vals = append(vals, strconv.FormatUint(v, 10))
			}
		case 'f':
			vals = []string{"NaN", "-Inf", "-1.5", "-0", "0", "1.5", "+Inf"}
		}
		for _, v := range vals {
			for _, lo := range vals {
				for _, hi := range vals {
					out = append(out, RangeCase{Type: nt.name, V: v, Lo: lo, Hi: hi})
				}
			}
		}
	}
	return
}

// ---- C29: size, pattern and must validators

// SizeCase is a value of a Go type with a limit
type SizeCase struct {
	Type  string
	Data  Bytes // content of strings and slices
	Ptr   int   // levels of pointers
	Limit uint
}

// sizes of the fixed-size types
var fixed = map[string]struct {
	v    interface{}
	size uint
}{
	"bool": {true, 1}, "int8": {int8(-3), 1}, "uint8": {uint8(200), 1}, "int16": {int16(-300), 2}, "uint16": {uint16(65535), 2},
	"int32": {int32(7), 4}, "uint32": {uint32(7), 4}, "rune": {'\u6f22', 4}, "int64": {int64(-1), 8}, "uint64": {^uint64(0), 8},
	"int": {1, strconv.IntSize / 8}, "uint": {uint(0), strconv.IntSize / 8}, "float32": {float32(1.5), 4}, "float64": {math.NaN(), 8},
	"named int8": {myInt8(4), 1}, "named float32": {myFloat32(0), 4}, "false": {false, 1}, "zero int": {0, strconv.IntSize / 8},
}

var fixedNames = func() (out []string) {
	for k := range fixed {
		out = append(out, k)
	}
	return sortStrings(out)
}()

type myText string
type myBytes []byte

func sizeOf(c SizeCase) (interface{}, uint) {
	var v interface{}
	n := uint(len(c.Data))
	switch c.Type {
	case "string":
		v = string(c.Data)
	case "named string":
		v = myText(c.Data)
	case "bytes":
		v = append([]byte{}, c.Data...)
	case "bytes with spare room":
		v = append(make([]byte, 0, len(c.Data)+64), c.Data...)
	case "nil bytes":
		v, n = []byte(nil), 0
	case "named bytes":
		v = myBytes(c.Data)
	default:
		v, n = fixed[c.Type].v, fixed[c.Type].size
	}
	for i := 0; i < c.Ptr; i++ {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		v = p.Interface()
	}
	return v, n
}

func genC29(t *rapid.T) SizeCase {
	c := SizeCase{Ptr: sample(t, []int{0, 0, 0, 1, 1, 2, 3, 6})}
	if pick(t, 2) == 0 {
		c.Type = sample(t, fixedNames)
	} else {
		c.Type = sample(t, []string{"string", "string", "bytes", "bytes", "named string", "named bytes", "bytes with spare room", "nil bytes"})
		if c.Type != "nil bytes" {
			n := sample(t, []int{0, 1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 255, 256, 257, 4096})
			if chance(t, 1, 40) {
				n = sample(t, []int{4097, 65535, 65536, 65537, 1 << 20})
			}
			if chance(t, 1, 2) {
				n = pick(t, 40)
			}
			unit := sample(t, []string{"a", "\x00", "\u00e9", "\u6f22", "\xff"})
			c.Data = Bytes(strings.Repeat(unit, n/len(unit)+1)[:n])
		}
	}
	_, n := sizeOf(c)
	switch pick(t, 4) {
	case 0, 1:
		c.Limit = n + uint(between(t, 0, 2))
		if n > 0 && chance(t, 1, 3) {
			c.Limit = n - 1
		}
	case 2:
		c.Limit = sample(t, []uint{0, 1, 8, 16, 17, 24, 25, ^uint(0), 1 << 31, 1 << 32, 1 << 63})
	case 3:
		c.Limit = uint(pick(t, 64))
	}
	return c
}

func checkC29(c SizeCase, o *core.Obs) error {
	v, n := sizeOf(c)
	want := n < c.Limit
	o.Label("%s", c.Type)
	o.LabelIf(c.Ptr > 0, "pointer")
	o.LabelIf(n == c.Limit, "equal to the limit")
	d := int64(n) - int64(c.Limit)
	o.NonTrivialIf(c.Ptr > 0 || len(c.Data) > 0 || d >= -2 && d <= 2)
	if got := validators.CheckSize(v, c.Limit); got != want {
		return fmt.Errorf("CheckSize(%s of %d bytes behind %d pointers, %d) is %t", c.Type, n, c.Ptr, c.Limit, got)
	}
	return nil
}

// MatchCase is a pattern with its reference meaning and a text
type MatchCase struct {
	Pattern string
	Text    Bytes
	Pad     int // how often "ab" stands before Text
	Want    bool
}

// genC29Long draws a word sought in a long text
func genC29Long(t *rapid.T) MatchCase {
	word := ""
	for i := between(t, 1, 4); i > 0; i-- {
		word += sample(t, []string{"q", "x", "\u00e9", "7"})
	}
	begin, end := chance(t, 1, 6), chance(t, 1, 3)
	rest := sample(t, []string{"", "ab", "b"})
	text := sample(t, []string{word, word + rest, word + rest, rest, "z" + word[1:]})
	c := MatchCase{Text: Bytes(text), Pad: sample(t, []int{10, 100, 500, 1000, 2048, 5000, 32768, 40000, 100000, 600000})}
	c.Want = !begin && strings.Contains(text, word) && (!end || strings.HasSuffix(text, word))
	c.Pattern = word
	if begin {
		c.Pattern = "^" + c.Pattern
	}
	if end {
		c.Pattern += "$"
	}
	return c
}

// pattern builds a pattern together with the set of the texts it matches as a whole (over a small alphabet)
func pattern(t *rapid.T, depth int) (string, func(s string) []int) {
	k := pick(t, 3)
	if depth > 0 {
		k = pick(t, 7)
	}
	switch {
	case k == 0:
		return ".", func(s string) []int { // any character but a newline
			if s == "" || s[0] == '\n' {
				return nil
			}
			for i := range s {
				if i > 0 {
					return []int{i}
				}
			}
			return []int{len(s)}
		}
	case k <= 2:
		c := sample(t, []string{"a", "b", "\u00e9", "\u6f22", "1"})
		return c, func(s string) []int {
			if strings.HasPrefix(s, c) {
				return []int{len(c)}
			}
			return nil
		}
	case k == 3 || k == 4:
		p, f := pattern(t, depth-1)
		q, g := pattern(t, depth-1)
		return p + q, func(s string) (out []int) {
			for _, i := range f(s) {
				for _, j := range g(s[i:]) {
					out = append(out, i+j)
				}
			}
			return uniq(out)
		}
	case k == 5:
		p, f := pattern(t, depth-1)
		q, g := pattern(t, depth-1)
		return "(" + p + "|" + q + ")", func(s string) []int { return uniq(append(append([]int{}, f(s)...), g(s)...)) }
	}
	p, f := pattern(t, depth-1)
	op := sample(t, []string{"*", "+", "?"})
	return "(" + p + ")" + op, func(s string) []int {
		out := []int{}
		if op != "+" {
			out = append(out, 0)
		}
		frontier := []int{0}
		seen := map[int]bool{0: true}
		for n := 1; len(frontier) > 0 && (op != "?" || n <= 1); n++ {
			next := []int{}
			for _, i := range frontier {
				for _, j := range f(s[i:]) {
					out = append(out, i+j)
					if !seen[i+j] {
						seen[i+j] = true
						next = append(next, i+j)
					}
				}
			}
			frontier = next
		}
		return uniq(out)
	}
}

func uniq(a []int) []int {
	seen := map[int]bool{}
	out := []int{}
	for _, v := range a {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return out
}

func genC29Match(t *rapid.T) MatchCase {
	p, f := pattern(t, 3)
	begin, end := chance(t, 1, 2), chance(t, 1, 2)
	text := ""
	for i := pick(t, 7); i > 0; i-- {
		text += sample(t, []string{"a", "b", "\u00e9", "\u6f22", "1", "a", "c"})
		if chance(t, 1, 12) {
			text += sample(t, []string{"\n", " ", "\t", "\xff", "\xc3", "\x00", "A"})
		}
	}
	c := MatchCase{Text: Bytes(text)}
	for i := 0; i <= len(text); i++ {
		if i < len(text) && text[i]&0xC0 == 0x80 || begin && i > 0 {
			continue
		}
		for _, n := range f(text[i:]) {
			if !end || i+n == len(text) {
				c.Want = true
			}
		}
	}
	c.Pattern = "(" + p + ")"
	if begin {
		c.Pattern = "^" + c.Pattern
	}
	if end {
		c.Pattern += "$"
	}
	return c
}

func checkC29Match(c MatchCase, o *core.Obs) error {
	re, err := regexp.Compile(c.Pattern)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	o.LabelIf(c.Want, "matches")
	o.LabelIf(!c.Want, "does not match")
	o.NonTrivialIf(len(c.Text) > 1)
	text := strings.Repeat("ab", c.Pad) + string(c.Text)
	for i := 0; i < 2; i++ {
		if got := validators.RegexpMatches(re, text); got != c.Want {
			return fmt.Errorf("RegexpMatches(%q, %q behind %d bytes) is %t", c.Pattern, c.Text, 2*c.Pad, got)
		}
	}
	return nil
}

// MustCase is one call of a must-helper
type MustCase struct {
	Err  bool
	Kind string
}

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

type ptrErr struct{ s string }

func (p *ptrErr) Error() string {
	if p == nil {
		return "nil"
	}
	return p.s
}

func mustCases() []MustCase {
	return []MustCase{{false, "true"}, {false, "false"}, {true, "nil"}, {true, "error"}, {true, "empty text"}, {true, "wrapped"}, {true, "joined"}, {true, "pointer"}, {true, "typed nil pointer"}}
}

func checkMust(c MustCase, o *core.Obs) (err error) {
	o.Label("%v %s", c.Err, c.Kind)
	o.NonTrivial()
	want := true
	call := func() {}
	if !c.Err {
		want = c.Kind == "false"
		call = func() { validators.MustBool(c.Kind == "true") }
	} else {
		var e error
		switch c.Kind {
		case "nil":
			want = false
		case "error":
			e = errors.New("x")
		case "empty text":
			e = emptyErr{}
		case "wrapped":
			e = fmt.Errorf("y: %w", errors.New("x"))
		case "joined":
			e = errors.Join(errors.New("x"), emptyErr{})
		case "pointer":
			e = &ptrErr{"x"}
		case "typed nil pointer":
			e = (*ptrErr)(nil)
		}
		call = func() { validators.MustNotErr(e) }
	}
	got := func() (p bool) {
		defer func() {
			if r := recover(); r != nil {
				p = true
			}
		}()
		call()
		return
	}()
	if got != want {
		return fmt.Errorf("%s: panics %t, want %t", c.Kind, got, want)
	}
	return nil
}

func sortStrings(a []string) []string {
	for i := range a {
		for j := i; j > 0 && bytes.Compare([]byte(a[j-1]), []byte(a[j])) > 0; j-- {
			a[j-1], a[j] = a[j], a[j-1]
		}
	}
	return a
}

func init() {
	core.Check("C28", "ranges", "a value and two bounds of one of 16 integer and floating-point types, half of them with a value on a bound or equal bounds; oracle: exact comparison of big numbers; non-trivial: on a bound, in range, NaN or inverted bounds", 20000, genC28, checkC28)
	core.Enum("C28", "extremes", "every triple over seven values of each type (extremes, zero, one, NaN, infinities); non-trivial: on a bound, in range, NaN or inverted bounds", smallC28, checkC28)
	core.Check("C29", "size", "a number, boolean, text or byte string, also behind pointers, with a limit around its size; non-trivial: content, a pointer or a limit within 2 of the size", 20000, genC29, checkC29)
	core.Check("C29", "pattern", "patterns built from characters, any, sequence, choice and repetition with optional anchors, on texts of up to 6 characters, some with line ends, blanks or invalid UTF-8; oracle: sets of match lengths; non-trivial: a text of two characters or more", 10000, genC29Match, checkC29Match)
	core.Check("C29", "long", "words, with or without anchors, sought in texts of up to 1.2 MB that have them at the end or not at all; oracle: search for the word; non-trivial: a text of two characters or more behind the filling", 300, genC29Long, checkC29Match)
	core.Enum("C29", "must", "the must-helpers with every kind of argument; all non-trivial", mustCases, checkMust)
}
