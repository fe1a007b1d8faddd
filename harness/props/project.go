package props

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/config"
	"pgregory.net/rapid"

	"verif/harness/core"
	"verif/harness/schema"
)

// A project is a directory with schemas, other files and perhaps a configuration. {ROOT} stands for its path.

const rootMark = "{ROOT}"

// ProjFile is a file of a project that is no schema to be compiled
type ProjFile struct {
	Path string
	Data Bytes
	Dir  bool `json:",omitempty"`
}

// ProjSchema is a schema file
type ProjSchema struct {
	Path string
	Code GenCase
	Link bool `json:",omitempty"` // a link to a file elsewhere
	Age  int  `json:",omitempty"` // minutes by which the file is older than it is
}

// ProjConfig is the configuration of a round; Name is empty without a configuration
type ProjConfig struct {
	Name   string
	Text   Bytes
	Builds []ProjBuild
}

// ProjRound changes the project and runs generate
type ProjRound struct {
	Config *ProjConfig  `json:",omitempty"` // a change of the configuration
	Write  []ProjSchema `json:",omitempty"`
	Remove []string     `json:",omitempty"`
	Cmd    string
	Args   []string `json:",omitempty"` // further ones, which generate has no use for
}

// ProjCase is a project with its history
type ProjCase struct {
	Files  []ProjFile
	Rounds []ProjRound
	Fault  *ProjFault `json:",omitempty"`
}

type projGen struct {
	t       *rapid.T
	bases   map[string]bool
	config  ProjConfig
	srcs    []string // clean source directories
	schemas []ProjSchema
}

var baseWords = []string{"person", "a", "x.y", "two words", "\u00fcn\u00efc\u00f6de", "UPPER", "my-schema", "v1.2", "with.cddl", "type", "test", "a_b", "-dash", "main", "x.go", "#1", "%d", "q'uote", "a[1]", "s*r", "q?x", "$HOME", "{x,y}", "~t", ".hidden", "semi;colon", "back\\slash", "x_test", "x_linux", "a&b", "<t>", "...", "com:on", "(p)", "=", "a.cddl.b", "%s%n"}

// directories, some with characters that mean something to shells, globs or YAML
var srcDirs = []string{"src", "schemas/v1", ".", "src/inner", "a b", "src[1]", "s*c", "q?", "$x/y", "-d", "%s", ".git/x", "{a,b}", "b\\s", "\u00fc/n"}
var outDirs = []string{"dist", "gen/deep/er", "out put", ".", "gen", "schemas", "o[1]", "g*n", "%d/out", ".out", "-o", "~/gen", "$HOME"}

func (g *projGen) base() string {
	for i := 0; ; i++ {
		n := sample(g.t, baseWords)
		if i > 3 {
			n += strconv.Itoa(i)
		}
		if !g.bases[n] {
			g.bases[n] = true
			return n
		}
	}
}

// spellings of the same directory
func (g *projGen) spellDir(d string) string {
	t := g.t
	switch pick(t, 8) {
	case 4:
		return d + "/"
	case 5:
		return "./" + d
	case 6:
		return rootMark + "/" + d
	case 7:
		if d == "." {
			return "./."
		}
		return d + "/."
	}
	return d
}

func (g *projGen) newConfig() {
	t := g.t
	c := ProjConfig{Name: sample(t, []string{"cddlc.json", "cddlc.json", "cddlc.yaml", "cddlc.yaml", ""})}
	g.srcs = nil
	if c.Name == "" {
		c.Builds = []ProjBuild{{"dist", ".", "dist/"}}
		g.srcs = []string{"."}
		g.config = c
		return
	}
	outs := map[string]bool{}
	for i := several(t, 1, 3, 4, 5, 6, 8); i > 0 || len(c.Builds) == 0; i-- {
		src := sample(t, srcDirs[:5])
		out := sample(t, append(outDirs[:6:6], src))
		if chance(t, 1, 4) {
			src = sample(t, srcDirs)
		}
		if chance(t, 1, 4) {
			out = sample(t, outDirs)
		}
		if outs[src+"\x00"+out] || out == "." && src != "." && chance(t, 1, 2) {
			continue
		}
		outs[src+"\x00"+out] = true
		c.Builds = append(c.Builds, ProjBuild{sample(t, []string{"dist", "schema", "pkg_1", "x", "main", "Schema2", "validators", "a_test"}), g.spellDir(src), g.spellDir(out)})
		g.srcs = append(g.srcs, src)
	}
	conf := Conf{Version: "1", Builds: c.Builds}
	if chance(t, 1, 4) {
		s := "x"
		conf.Options = []ConfOption{{Key: "k", Text: &s}}
	}
	c.Text = Bytes(writeConf(t, conf, c.Name))
	g.config = c
}

func (g *projGen) code() GenCase {
	if chance(g.t, 1, 12) {
		return GenCase{Src: Bytes(sample(g.t, []string{"", "\n", " ", "; nothing\n", "; a\n; b", "\r\n;\r\n"}))}
	}
	c := genCodeN(g.t, 3)
	c.Pkg = ""
	return c
}

func (g *projGen) round(first bool) ProjRound {
	t := g.t
	r := ProjRound{Cmd: sample(t, []string{"generate", "gen"})}
	if chance(t, 1, 8) {
		r.Args = []string{sample(t, []string{"schemas/*/", "*/*.cddl", "all", "./...", "a b", "x\ny", "/*", "// x", "\"q\"", "`", "%d", "*/ package y /*"})}
	}
	if !first && g.config.Name != "" && chance(t, 1, 4) {
		// another configuration under the same name, so that there is only one
		name := g.config.Name
		g.newConfig()
		for g.config.Name != name {
			g.newConfig()
		}
		first = true
	}
	if first {
		c := g.config
		r.Config = &c
	}
	n := pick(t, 3)
	if len(g.schemas) == 0 {
		n = between(t, 1, 3)
		if chance(t, 1, 25) {
			n = between(t, 10, 30)
		}
	}
	age := func() int {
		if chance(t, 1, 3) {
			return sample(t, []int{-100000, -2, 1, 60, 3000000})
		}
		return 0
	}
	for ; n > 0; n-- {
		if len(g.schemas) > 0 && chance(t, 1, 3) { // a new version
			i := pick(t, len(g.schemas))
			g.schemas[i].Code, g.schemas[i].Age = g.code(), age()
			r.Write = append(r.Write, g.schemas[i])
			continue
		}
		s := ProjSchema{filepath.Join(sample(t, g.srcs), g.base()+".cddl"), g.code(), chance(t, 1, 12), age()}
		g.schemas = append(g.schemas, s)
		r.Write = append(r.Write, s)
	}
	if len(r.Write) > 0 && len(g.schemas) > len(r.Write) && chance(t, 1, 6) {
		i := pick(t, len(g.schemas))
		used := false
		for _, w := range r.Write {
			used = used || w.Path == g.schemas[i].Path
		}
		if !used {
			r.Remove = append(r.Remove, g.schemas[i].Path)
			g.schemas = append(g.schemas[:i:i], g.schemas[i+1:]...)
		}
	}
	return r
}

// others draws files that generate has nothing to do with
func (g *projGen) others() (out []ProjFile) {
	t := g.t
	seen := map[string]bool{}
	dirs := append([]string{"elsewhere", "src/sub", "dist", "gen/deep"}, g.srcs...)
	for i := pick(t, 5); i > 0; i-- {
		f := ProjFile{Path: filepath.Join(sample(t, dirs), sample(t, []string{"notes.txt", "LOUD.CDDL", "old.cddl.bak", "mycddlc.json", "cddlc.json.orig", "xcddlc.yaml", "helper.go", "cddl", "README", "data.cddlx", ".hidden", "empty"})), Data: Bytes(sample(t, []string{"", "some text\n", "a = [ broken", "package other\n", "{}", "builds: 5"}))}
		if !seen[f.Path] {
			seen[f.Path] = true
			out = append(out, f)
		}
	}
	if chance(t, 1, 3) { // not in a source directory itself
		out = append(out, ProjFile{Path: sample(t, []string{"elsewhere/z.cddl", "src/zz-sub/broken.cddl", "schemas/v1/zz-deeper/z.cddl", "zz-top/z.cddl"}), Data: Bytes("a = [ broken")})
	}
	if chance(t, 1, 4) {
		out = append(out, ProjFile{Path: sample(t, []string{"dist", "gen", "zz-empty", "gen/deep/er"}), Dir: true})
	}
	return
}

// history draws a project and its rounds; every source directory exists from the start
func (g *projGen) history(max int) ProjCase {
	g.bases = map[string]bool{}
	g.newConfig()
	c := ProjCase{Files: g.others()}
	for i := between(g.t, 1, max); i > 0; i-- {
		c.Rounds = append(c.Rounds, g.round(len(c.Rounds) == 0))
	}
	return c
}

func genC22(t *rapid.T) ProjCase {
	c := (&projGen{t: t}).history(3)
	if chance(t, 1, 3) { // something stands already where the output goes
		r := c.Rounds[0]
		b := r.Config.Builds[0]
		for _, w := range r.Write {
			if filepath.Dir(w.Path) == clean(b.Src) {
				c.Files = append(c.Files, ProjFile{Path: filepath.Join(clean(b.Out), strings.TrimSuffix(filepath.Base(w.Path), ".cddl")+".go"), Data: Bytes(sample(t, []string{"old content", "package old\n", "", strings.Repeat("long old content\n", 400)}))})
				break
			}
		}
	}
	return c
}

// clean is the directory below the root that a configured one means
func clean(d string) string {
	d = strings.TrimPrefix(d, rootMark+"/")
	return filepath.Clean(d)
}

// project is the state of a project while it is run
type project struct {
	s       *scratch
	config  ProjConfig
	schemas map[string]GenCase
}

type output struct {
	schema string
	code   GenCase
	pkg    string
}

func (p *project) root(text string) string { return strings.ReplaceAll(text, rootMark, p.s.root) }

func (p *project) setup(files []ProjFile) error {
	for _, f := range files {
		if f.Dir {
			if err := p.s.mkdir(f.Path); err != nil {
				return err
			}
			continue
		}
		if err := p.s.write(f.Path, f.Data); err != nil {
			return err
		}
	}
	return nil
}

func (p *project) apply(r ProjRound) error {
	if r.Config != nil {
		p.config = *r.Config
		if p.config.Name != "" {
			if err := p.s.write(p.config.Name, []byte(p.root(string(p.config.Text)))); err != nil {
				return err
			}
		}
		for _, b := range p.config.Builds {
			if err := p.s.mkdir(clean(b.Src)); err != nil {
				return err
			}
		}
	}
	for _, w := range r.Write {
		if w.Link {
			if err := p.s.link(w.Path, "zz-store/"+filepath.Base(w.Path)+".text"); err != nil {
				return err
			}
		}
		if err := p.s.write(w.Path, w.Code.Src); err != nil {
			return err
		}
		if w.Age != 0 {
			at := time.Now().Add(-time.Duration(w.Age) * time.Minute)
			if err := os.Chtimes(p.s.path(w.Path), at, at); err != nil {
				return fmt.Errorf("harness: %v", err)
			}
		}
		p.schemas[w.Path] = w.Code
	}
	for _, d := range r.Remove {
		if err := p.s.delete(d); err != nil {
			return err
		}
		delete(p.schemas, d)
	}
	return nil
}

// outputs lists what has to come out
func (p *project) outputs() map[string]output {
	out := map[string]output{}
	for _, b := range p.config.Builds {
		for path, code := range p.schemas {
			if filepath.Dir(path) == clean(b.Src) {
				code.Pkg = b.Pkg
				out[filepath.Join(clean(b.Out), strings.TrimSuffix(filepath.Base(path), ".cddl")+".go")] = output{path, code, b.Pkg}
			}
		}
	}
	return out
}

func (p *project) outDir(dir string) bool {
	for _, b := range p.config.Builds {
		if o := clean(b.Out); o == dir || strings.HasPrefix(o, dir+"/") {
			return true
		}
	}
	return false
}

// diffs lists the differences between two snapshots
func diffs(before, after map[string]string) []string {
	out := []string{}
	for _, path := range paths(before, after) {
		a, okA := before[path]
		if b, okB := after[path]; a != b || okA != okB {
			out = append(out, what(before, after, path))
		}
	}
	return out
}

// verify checks a generated file
func (o output) verify(text string) error {
	ch, err := compile(text)
	if err != nil {
		return err
	}
	if ch.file.Name.Name != o.pkg {
		return fmt.Errorf("package %s instead of %s", ch.file.Name.Name, o.pkg)
	}
	if i := strings.Index(text, "\npackage "); i < 0 || !strings.Contains(text[:i], "DO NOT EDIT") {
		return errors.New("the do-not-edit header is missing")
	}
	if g, w := strings.Join(declarations(ch), "\n"), strings.Join(o.code.Want, "\n"); g != w {
		return fmt.Errorf("the declarations do not mirror the schema: %s", firstDiff(w, g))
	}
	return nil
}

// succeed runs generate and checks that exactly the outputs come out
func (p *project) succeed(cmd string, more ...string) error {
	before, err := p.s.snapshot()
	if err != nil {
		return err
	}
	args := append([]string{cmd}, more...)
	res, err := p.s.command(nil, args...)
	if err != nil {
		return err
	}
	if res.Exit != 0 && len(more) > 0 { // it may refuse what it has no use for
		if after, err := p.s.snapshot(); err != nil || strings.Join(diffs(before, after), "") != "" {
			return fmt.Errorf("refused, but %v (%v): %s", diffs(before, after), err, res)
		}
		return p.succeed(cmd)
	}
	if res.Exit != 0 {
		return fmt.Errorf("a valid project is not accepted: %s", res)
	}
	after, err := p.s.snapshot()
	if err != nil {
		return err
	}
	outs := p.outputs()
	for path, o := range outs {
		text, ok := after[path]
		if !ok || text[0] != 'f' {
			return fmt.Errorf("no %s for %s: %s", path, o.schema, res)
		}
		if err := o.verify(text[1:]); err != nil {
			return fmt.Errorf("%s for %s: %v\n%s", path, o.schema, err, text[1:])
		}
	}
	for _, path := range paths(before, after) {
		if _, ok := outs[path]; ok {
			continue
		}
		a, okA := before[path]
		b, okB := after[path]
		if a == b && okA == okB || !okA && b == "d" && p.outDir(path) {
			continue
		}
		return fmt.Errorf("%s: %s", what(before, after, path), res)
	}
	// and once more
	res, err = p.s.command(nil, args...)
	if err != nil {
		return err
	}
	if res.Exit != 0 {
		return fmt.Errorf("a second run fails: %s", res)
	}
	again, err := p.s.snapshot()
	if err != nil {
		return err
	}
	if err := same(after, again); err != nil {
		return fmt.Errorf("a second run does not reproduce the files: %v", err)
	}
	return nil
}

func newProject() (*project, error) {
	s, err := newScratch()
	return &project{s: s, schemas: map[string]GenCase{}}, err
}

func checkC22(c ProjCase, o *core.Obs) error {
	p, err := newProject()
	if err != nil {
		return err
	}
	defer p.s.remove()
	if err := p.setup(c.Files); err != nil {
		return err
	}
	most := 0
	for i, r := range c.Rounds {
		if err := p.apply(r); err != nil {
			return err
		}
		if r.Config != nil {
			o.Label("config %s", strings.TrimPrefix(r.Config.Name, "cddlc."))
			o.Label("builds %d", len(r.Config.Builds))
		}
		if err := p.succeed(r.Cmd, r.Args...); err != nil {
			return fmt.Errorf("round %d: %v", i, err)
		}
		most = max(most, len(p.outputs()))
	}
	o.Label("rounds %d", len(c.Rounds))
	o.Label("outputs %d", min(most, 6))
	o.NonTrivialIf(most > 1 || len(c.Rounds) > 1 && most > 0)
	return nil
}

// ---- C23

// FaultLine is a line with an error at a column
type FaultLine struct {
	Line string
	Col  int
}

// ProjFault makes a project unusable
type ProjFault struct {
	What string
	// Schema is the failing schema, with Data as its new content
	Schema string
	Data   Bytes
	// Line is the offending line and Lo..Hi the columns (in characters, from one) that may be marked; 0: not a schema error
	Line   string
	LineNo int
	Lo, Hi int
	// More are further lines with an error
	More []FaultLine `json:",omitempty"`
	// Config replaces the configuration
	Config *ProjConfig
	// Make are files and directories that are in the way; they are removed by the repair
	Make []ProjFile
	// Mode is given to Path before the run
	Path string
	Mode os.FileMode
	// Delete is a directory that is missing
	Delete string
	// Names are the texts of which one has to be in the message
	Names []string
	Cmd   string
}

var faultIndents = []string{"", "  ", "\t", "    "}

// faultyLine draws a line with an error, marked by ^ before the offending token
func faultyLine(t *rapid.T, existing []string) (what, line string, wide, bottom bool) {
	pre := sample(t, []string{"", "\"\u00e9\u6f22\" / ", "tstr / ", "[ a: int ] / "})
	name := "zz-r" + strconv.Itoa(pick(t, 10))
	switch pick(t, 8) {
	case 0:
		return "undefined name", name + " = [ k: tstr, m: ^zz-missing ]", false, false
	case 1:
		return "undefined name", name + " = " + pre + "^zz-missing", false, false
	case 2:
		if len(existing) > 0 {
			return "redefined name", "^" + sample(t, existing) + " = " + pre + "tstr", false, true
		}
	case 3:
		return "wrong delimiter", name + " = " + pre + "[ k: tstr ^}", false, false
	case 4:
		return "too large", name + " = " + pre + "[ k: ^99999999999999999999 ]", false, false
	case 5:
		return "illegal character", name + " = " + pre + "[ k: int, m: ^! ]", true, false
	case 6:
		return "open text", name + " = " + pre + "^\"open", true, true
	}
	return "wrong operand", name + " = " + pre + "( ^\"a\" .lt 5 )", true, false
}

func genC23(t *rapid.T) ProjCase {
	g := &projGen{t: t}
	c := g.history(2)
	f := &ProjFault{Cmd: sample(t, []string{"generate", "gen"})}
	c.Fault = f
	var target ProjSchema
	hit := []ProjSchema{}
	for _, s := range g.schemas {
		for _, b := range g.config.Builds {
			if filepath.Dir(s.Path) == clean(b.Src) {
				hit = append(hit, s)
				break
			}
		}
	}
	if len(hit) > 0 {
		target = sample(t, hit)
	}
	confName := g.config.Name
	named := confName
	if named == "" {
		named = sample(t, []string{"cddlc.json", "cddlc.yaml"})
	}
	replace := func(b ProjBuild) {
		bs := append([]ProjBuild{}, g.config.Builds...)
		i := pick(t, len(bs)+1)
		bs = append(bs[:i:i], append([]ProjBuild{b}, bs[i:]...)...)
		f.Config = &ProjConfig{Name: named, Builds: bs}
		f.Config.Text = Bytes(writeConf(t, Conf{Version: "1", Builds: bs}, named))
	}
	kind := pick(t, 20)
	if len(hit) == 0 && (kind <= 9 || kind >= 16) {
		kind = 10 + pick(t, 4)
	}
	switch {
	case kind <= 9: // an error in a schema
		existing := []string{}
		if tree, ds := parse(target.Code.Src); len(ds) == 0 {
			for _, r := range rulesOf(tree) {
				existing = append(existing, r)
			}
		}
		what, line, wide, bottom := faultyLine(t, existing)
		line = sample(t, faultIndents) + line
		at := strings.IndexByte(line, '^')
		f.Line = line[:at] + line[at+1:]
		f.Lo = utf8.RuneCountInString(line[:at]) + 1
		f.Hi = f.Lo
		if wide {
			f.Lo, f.Hi = 1, utf8.RuneCountInString(f.Line)+1
			if what == "illegal character" {
				f.Lo, f.Hi = utf8.RuneCountInString(line[:at])+1-3, utf8.RuneCountInString(line[:at])+1+2
			}
		}
		f.What, f.Schema = what, target.Path
		src := string(target.Code.Src)
		if bottom || chance(t, 1, 2) {
			f.Data = Bytes(src + "\n" + f.Line + sample(t, []string{"", "\n", "\n\n"}))
			f.LineNo = strings.Count(src, "\n") + 2
		} else {
			f.Data = Bytes(f.Line + "\n" + src)
			f.LineNo = 1
		}
		if (what == "undefined name" || what == "redefined name") && chance(t, 1, 3) {
			text := ""
			for i := sample(t, []int{1, 2, 3, 9, 10, 11, 20, 33, 60, 120}); i > 0; i-- {
				l := fmt.Sprintf("zz-more%d = %s^zz-missing%d", i, sample(t, []string{"", "\"\u00e9\" / ", "tstr / "}), i)
				at := strings.IndexByte(l, '^')
				f.More = append(f.More, FaultLine{l[:at] + l[at+1:], utf8.RuneCountInString(l[:at]) + 1})
				text += f.More[len(f.More)-1].Line + "\n"
			}
			f.Data = Bytes(text + string(f.Data))
			f.LineNo += len(f.More)
		}
	case kind == 10: // the source directory is missing
		f.What, f.Names = "missing source directory", []string{"zz-nowhere"}
		replace(ProjBuild{"dist", g.spellDir(sample(t, []string{"zz-nowhere", "src/zz-nowhere", "zz-nowhere/deep"})), "dist"})
	case kind == 11:
		f.What, f.Names = "source directory is a file", []string{"zz-plain"}
		f.Make = []ProjFile{{Path: "zz-plain", Data: Bytes("a = int\n")}}
		replace(ProjBuild{"dist", sample(t, []string{"zz-plain", "./zz-plain", rootMark + "/zz-plain"}), "dist"})
	case kind == 12: // the configuration
		f.What = "malformed configuration"
		f.Config = &ProjConfig{Name: named, Builds: g.config.Builds, Text: Bytes(sample(t, []string{"{\"version\": \"1\", \"builds\": [", "{\"builds\": 5}", "[1, 2]", "{\"version\": \"1\"} {", "\x00", "", "{\"builds\": [{\"package\": [\"a\"]}]}", "{\"builds\": [null]}"}))}
	case kind == 13:
		if confName == "" {
			f.What = "configuration is a directory"
			f.Make = []ProjFile{{Path: named, Dir: true}}
			break
		}
		f.What = "malformed configuration"
		f.Config = &ProjConfig{Name: named, Builds: g.config.Builds, Text: Bytes("{\"builds\": [{\"src\"")}
	case kind == 14, kind == 15: // the output directory is a file
		f.What, f.Names = "output directory is a file", []string{"zz-plain"}
		f.Make = []ProjFile{{Path: "zz-plain", Data: Bytes("precious")}, {Path: "zz-src/one.cddl", Data: Bytes("one = int\n")}}
		replace(ProjBuild{"dist", "zz-src", sample(t, []string{"zz-plain", "zz-plain/sub", "./zz-plain/"})})
	case kind == 16: // a directory stands where the output goes
		f.What = "output is a directory"
		base := strings.TrimSuffix(filepath.Base(target.Path), ".cddl")
		f.Names = []string{base + ".go"}
		f.Schema = ""
		f.Make = []ProjFile{{Path: "zz-out/" + base + ".go", Dir: true}, {Path: "zz-out/" + base + ".go/inner", Data: Bytes("precious")}}
		replace(ProjBuild{"dist", filepath.Dir(target.Path), "zz-out"})
	case kind == 17: // a directory named like a schema
		f.What, f.Names = "schema is a directory", []string{"zz-dir.cddl"}
		f.Make = []ProjFile{{Path: filepath.Join(filepath.Dir(target.Path), "zz-dir.cddl"), Dir: true}}
	case kind == 18: // no permission to read
		f.What, f.Names = "unreadable schema", []string{filepath.Base(target.Path)}
		f.Schema, f.Data = target.Path, target.Code.Src
		f.Path, f.Mode = target.Path, 0200
	default: // no permission to write
		f.What, f.Names = "output directory is read-only", []string{"zz-ro"}
		f.Make = []ProjFile{{Path: "zz-ro", Dir: true}}
		f.Path, f.Mode = "zz-ro", 0555
		replace(ProjBuild{"dist", filepath.Dir(target.Path), sample(t, []string{"zz-ro", "zz-ro/new"})})
	}
	return c
}

// marked looks for the line followed by a marker under one of the columns
func marked(text, line string, lo, hi int) error {
	line = strings.TrimRight(line, "\r")
	lines := strings.Split(text, "\n")
	seen := ""
	for i, l := range lines {
		l = strings.TrimRight(l, "\r")
		if !strings.HasSuffix(l, line) || i+1 >= len(lines) {
			continue
		}
		prefix := utf8.RuneCountInString(l[:len(l)-len(line)])
		m := []rune(lines[i+1])
		for k, r := range m {
			if r == ' ' || r == '\t' {
				continue
			}
			col := k - prefix + 1
			if col >= lo && col <= hi {
				return nil
			}
			seen += fmt.Sprintf(" column %d", col)
			break
		}
	}
	if seen != "" {
		return fmt.Errorf("the line %q is marked under%s, want column %d to %d", line, seen, lo, hi)
	}
	return fmt.Errorf("the line %q is not shown with a marker under it", line)
}

func checkC23(c ProjCase, o *core.Obs) error {
	f := c.Fault
	if f == nil {
		return errors.New("harness: no fault")
	}
	p, err := newProject()
	if err != nil {
		return err
	}
	defer p.s.remove()
	if err := p.setup(c.Files); err != nil {
		return err
	}
	ran := false
	for i, r := range c.Rounds {
		if err := p.apply(r); err != nil {
			return err
		}
		if i < len(c.Rounds)-1 { // the last round meets the fault
			ran = true
			if err := p.succeed(r.Cmd, r.Args...); err != nil {
				return fmt.Errorf("before the fault: %v", err)
			}
		}
	}
	o.Label("%s", f.What)
	o.LabelIf(ran, "after a successful run")
	o.NonTrivialIf(ran || f.Line != "")
	if f.Mode != 0 && !dropped() {
		return nil // permissions do not apply
	}
	// the fault
	old := p.config
	if err := p.setup(f.Make); err != nil {
		return err
	}
	var oldCode GenCase
	if f.Schema != "" {
		oldCode = p.schemas[f.Schema]
		if err := p.s.write(f.Schema, f.Data); err != nil {
			return err
		}
	}
	if f.Config != nil {
		p.config = *f.Config
		if err := p.s.write(p.config.Name, []byte(p.root(string(p.config.Text)))); err != nil {
			return err
		}
	}
	if f.Mode != 0 {
		if err := os.Chmod(p.s.path(f.Path), f.Mode); err != nil {
			return fmt.Errorf("harness: %v", err)
		}
	}
	before, err := p.s.snapshot()
	if err != nil {
		return err
	}
	res, err := p.s.command(nil, f.Cmd)
	if err != nil {
		return fmt.Errorf("%s: %v", f.What, err)
	}
	after, err := p.s.snapshot()
	if err != nil {
		return err
	}
	if res.Exit == 0 {
		return fmt.Errorf("%s is not reported: %s", f.What, res)
	}
	if f.Line != "" {
		if err := marked(res.Err, f.Line, f.Lo, f.Hi); err != nil {
			return fmt.Errorf("%s: %v: %s", f.What, err, res)
		}
		for _, m := range f.More {
			if err := marked(res.Err, m.Line, m.Col, m.Col); err != nil {
				return fmt.Errorf("%s, one of %d: %v: %s", f.What, len(f.More)+1, err, res)
			}
		}
		o.LabelIf(len(f.More) > 0, "several errors")
		o.LabelIf(len(f.More) >= 10, "more than 10 errors")
	} else if strings.TrimSpace(res.Err) == "" {
		return fmt.Errorf("%s: there is no message: %s", f.What, res)
	}
	if len(f.Names) > 0 {
		ok := false
		for _, n := range f.Names {
			ok = ok || strings.Contains(res.Err, n)
		}
		if !ok {
			return fmt.Errorf("%s: the message names none of %q: %s", f.What, f.Names, res)
		}
	}
	made := map[string]bool{}
	for _, m := range f.Make {
		made[m.Path] = true
	}
	outs := p.outputs()
	for _, path := range paths(before, after) {
		a, okA := before[path]
		b, okB := after[path]
		if a == b && okA == okB || !okA && b == "d" && p.outDir(path) {
			continue
		}
		w, ok := outs[path]
		if !ok || w.schema == f.Schema || !okB || b[0] != 'f' || made[path] {
			return fmt.Errorf("%s: %s: %s", f.What, what(before, after, path), res)
		}
		// another schema was compiled before the failure
		if err := w.verify(b[1:]); err != nil {
			return fmt.Errorf("%s: %s for %s: %v", f.What, path, w.schema, err)
		}
	}
	// the repair
	if f.Mode != 0 {
		if err := os.Chmod(p.s.path(f.Path), 0755); err != nil {
			return fmt.Errorf("harness: %v", err)
		}
	}
	if f.Schema != "" {
		if err := p.s.write(f.Schema, oldCode.Src); err != nil {
			return err
		}
	}
	for _, m := range f.Make {
		if err := p.s.delete(m.Path); err != nil {
			return err
		}
	}
	if f.Config != nil {
		if err := p.s.delete(f.Config.Name); err != nil {
			return err
		}
	}
	if err := p.apply(ProjRound{Config: &old}); err != nil {
		return err
	}
	if err := p.succeed("generate"); err != nil {
		return fmt.Errorf("after the repair: %v", err)
	}
	return nil
}

// FullCase is a schema, and what it becomes when there is no room for its output
type FullCase struct {
	Old  *GenCase `json:",omitempty"`
	New  GenCase
	Base string
	Part int // how much room there is, in percent of what may be
}

func genC23Full(t *rapid.T) FullCase {
	c := FullCase{Base: sample(t, []string{"s", "my-schema", "v1.2", "a b"}), Part: between(t, 0, 100)}
	if chance(t, 3, 4) {
		old := genCodeN(t, 2)
		c.Old = &old
	}
	c.New = genCodeN(t, 9)
	return c
}

func checkC23Full(c FullCase, o *core.Obs) error {
	p, err := newProject()
	if err != nil {
		return err
	}
	defer p.s.remove()
	p.config = ProjConfig{Builds: []ProjBuild{{"dist", ".", "dist"}}}
	out := "dist/" + c.Base + ".go"
	size := func(code GenCase) (int, error) {
		if err := p.apply(ProjRound{Write: []ProjSchema{{Path: c.Base + ".cddl", Code: code}}}); err != nil {
			return 0, err
		}
		if err := p.succeed("generate"); err != nil {
			return 0, err
		}
		info, err := os.Stat(p.s.path(out))
		if err != nil {
			return 0, fmt.Errorf("harness: %v", err)
		}
		return int(info.Size()), nil
	}
	full, err := size(c.New)
	if err != nil {
		return err
	}
	if err := p.s.delete("dist"); err != nil {
		return err
	}
	least := 0
	if c.Old != nil {
		if least, err = size(*c.Old); err != nil {
			return err
		}
	}
	lo, hi := (least+511)/512, (full-1)/512 // so that the old output fits and the new one does not
	if lo > hi {
		o.Label("fits")
		return nil
	}
	if err := p.apply(ProjRound{Write: []ProjSchema{{Path: c.Base + ".cddl", Code: c.New}}}); err != nil {
		return err
	}
	before, err := p.s.snapshot()
	if err != nil {
		return err
	}
	p.s.room = lo + (hi-lo)*c.Part/100
	res, err := p.s.command(nil, "generate")
	if err != nil {
		return err
	}
	after, err := p.s.snapshot()
	if err != nil {
		return err
	}
	o.LabelIf(c.Old != nil, "there is an output")
	o.LabelIf(p.s.room == 0, "no room at all")
	o.LabelIf(p.s.room > 1, "room for more than a block")
	o.NonTrivialIf(c.Old != nil || p.s.room > 0)
	if res.Exit == 0 {
		return fmt.Errorf("an output of %d bytes does not fit in %d, which is not reported: %s", full, p.s.room*512, res)
	}
	if !strings.Contains(res.Err, c.Base) {
		return fmt.Errorf("the output does not fit, and the message names neither it nor its schema: %s", res)
	}
	if _, ok := before["dist"]; !ok && after["dist"] == "d" {
		delete(after, "dist")
	}
	if err := same(before, after); err != nil {
		return fmt.Errorf("an output of %d bytes does not fit in %d: %v: %s", full, p.s.room*512, err, res)
	}
	p.s.room = -1
	if err := p.succeed("generate"); err != nil {
		return fmt.Errorf("once there is room: %v", err)
	}
	return nil
}

// ---- C24

// InitOp is a step in a directory
type InitOp struct {
	Op   string // init, generate, config, remove, mkdir, schema
	Name string `json:",omitempty"`
	Data Bytes  `json:",omitempty"`
	// Good: the configuration that was written is a valid one
	Good bool `json:",omitempty"`
	// Full: there is no room for a file
	Full bool `json:",omitempty"`
}

func genC24(t *rapid.T) []InitOp {
	ops := []InitOp{}
	for i := several(t, 1, 8, 12, 20); i > 0; i-- {
		switch pick(t, 10) {
		default:
			ops = append(ops, InitOp{Op: "init", Full: chance(t, 1, 8)})
		case 4, 5:
			ops = append(ops, InitOp{Op: "generate"})
		case 6:
			name := sample(t, []string{"cddlc.json", "cddlc.yaml"})
			if chance(t, 1, 2) {
				ops = append(ops, InitOp{Op: "config", Name: name, Good: true, Data: Bytes(writeConf(t, Conf{Version: "7", Builds: []ProjBuild{{"mine", ".", "mine/out"}}}, name))})
			} else {
				ops = append(ops, InitOp{Op: "config", Name: name, Data: Bytes(sample(t, []string{"", "{", "garbage: [", "{\"builds\": 5}", "\xff\x00"}))})
			}
		case 7:
			ops = append(ops, InitOp{Op: "remove", Name: sample(t, []string{"cddlc.json", "cddlc.json", "cddlc.yaml", "dist"})})
		case 8:
			ops = append(ops, InitOp{Op: "mkdir", Name: sample(t, []string{"cddlc.json", "cddlc.yaml", "sub", "dist"})})
		case 9:
			ops = append(ops, InitOp{Op: "config", Name: sample(t, []string{"notes.txt", "cddlc.json~", "cddlc.yml", "xcddlc.json", "CDDLC.json"}), Data: Bytes("{}")})
		}
	}
	return ops
}

var defaultBuild = config.BuildConfig{Package: "dist", SourceDir: ".", OutDir: "dist/"}

func checkC24(ops []InitOp, o *core.Obs) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	if err := s.write("one.cddl", []byte("one = [ a: int ]\n")); err != nil {
		return err
	}
	good := map[string]bool{}
	outDir := map[string]string{} // where the configuration sends the output
	inits, refused := 0, 0
	for i, op := range ops {
		before, err := s.snapshot()
		if err != nil {
			return err
		}
		_, hasJSON := before["cddlc.json"]
		_, hasYAML := before["cddlc.yaml"]
		fail := func(format string, args ...interface{}) error {
			return fmt.Errorf("step %d, %s: %s", i, op.Op, fmt.Sprintf(format, args...))
		}
		switch op.Op {
		case "config":
			if before[op.Name] == "d" {
				continue
			}
			if err := s.write(op.Name, op.Data); err != nil {
				return err
			}
			good[op.Name], outDir[op.Name] = op.Good, "mine/out"
		case "remove":
			if err := s.delete(op.Name); err != nil {
				return err
			}
			delete(good, op.Name)
		case "mkdir":
			if _, ok := before[op.Name]; ok {
				continue
			}
			if err := s.mkdir(op.Name); err != nil {
				return err
			}
			good[op.Name] = false
		case "init":
			if op.Full {
				s.room = 0
			}
			res, err := s.command(nil, "init")
			s.room = -1
			if err != nil {
				return fail("%v", err)
			}
			after, err := s.snapshot()
			if err != nil {
				return err
			}
			if hasJSON || hasYAML {
				refused++
				if res.Exit == 0 {
					return fail("there is a configuration already, but: %s", res)
				}
				if strings.TrimSpace(res.Err) == "" {
					return fail("no message: %s", res)
				}
				if err := same(before, after); err != nil {
					return fail("%v", err)
				}
				continue
			}
			if op.Full {
				if res.Exit == 0 {
					return fail("there is no room for a configuration, but: %s", res)
				}
				if err := same(before, after); err != nil {
					return fail("no room, and %v", err)
				}
				o.Label("init without room")
				continue
			}
			inits++
			if res.Exit != 0 {
				return fail("%s", res)
			}
			created := ""
			for _, path := range paths(before, after) {
				a, okA := before[path]
				b, okB := after[path]
				if a == b && okA == okB {
					continue
				}
				if okA || created != "" || path != "cddlc.json" && path != "cddlc.yaml" {
					return fail("%s", what(before, after, path))
				}
				created = path
			}
			if created == "" {
				return fail("no configuration is created: %s", res)
			}
			conf, err := config.LoadConfig(s.path(created))
			if err != nil {
				return fail("what it created does not load: %v\n%s", err, after[created])
			}
			def := config.NewDefaultConfig()
			if len(conf.Builds) != 1 || *conf.Builds[0] != defaultBuild || conf.Version != "1" || len(conf.Plugins)+len(conf.Options) != 0 {
				return fail("what it created is not the default: %s", after[created])
			}
			a, err1 := back(conf)
			b, err2 := back(def)
			if err1 != nil || err2 != nil || a != b || !reflect.DeepEqual(conf.Builds, def.Builds) {
				return fail("what it created is not the default configuration: %s", firstDiff(b, a))
			}
			good[created], outDir[created] = true, "dist"
		case "generate":
			if hasJSON && hasYAML {
				continue // which one counts is not said
			}
			ok, out := true, "dist"
			for _, n := range []string{"cddlc.json", "cddlc.yaml"} {
				if _, there := before[n]; there {
					ok, out = good[n], outDir[n]
				}
			}
			res, err := s.command(nil, "generate")
			if err != nil {
				return fail("%v", err)
			}
			after, err := s.snapshot()
			if err != nil {
				return err
			}
			if ok != (res.Exit == 0) {
				return fail("acceptable configuration %t, but %s", ok, res)
			}
			for _, path := range paths(before, after) {
				a, okA := before[path]
				b, okB := after[path]
				if a == b && okA == okB || ok && path == out+"/one.go" && b != "" && b[0] == 'f' || ok && !okA && b == "d" && (path == out || path == "mine") {
					continue
				}
				return fail("%s: %s", what(before, after, path), res)
			}
			if ok && after[out+"/one.go"] == "" {
				return fail("no %s/one.go: %s", out, res)
			}
			o.LabelIf(ok && inits > 0, "generate after init")
		}
	}
	o.LabelIf(inits > 0, "init creates")
	o.LabelIf(refused > 0, "init refuses")
	o.NonTrivialIf(inits+refused > 1)
	return nil
}

func init() {
	core.Check("C22", "projects", "projects with 1 to 3 builds (JSON, YAML or no configuration), schemas, other files and stale outputs, through up to 3 rounds of changes, each generated twice by the command; non-trivial: two outputs or two rounds", 300, genC22, checkC22)
	core.Check("C23", "faults", "as for C22, then one fault: an error on a known line and column of a schema, or an unusable source, output, schema or configuration; then the repair; non-trivial: a schema error, or files from an earlier run", 400, genC23, checkC23)
	core.Check("C23", "full", "a schema, perhaps with an output of an earlier run, whose new output does not fit in the room there is for a file; oracle: failure, the former content, and success once there is room; non-trivial: an earlier output, or some of the new one fits", 60, genC23Full, checkC23Full)
	core.Check("C24", "histories", "up to 8 steps of init, generate and changes of the configuration in one directory; non-trivial: init twice or more", 400, genC24, checkC24)
}

func rulesOf(tree *ast.CDDL) (out []string) {
	for _, r := range schema.Rules(tree) {
		out = append(out, r.Name.Name)
	}
	return
}
