package props

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/config"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// Conf is a configuration as a user writes it
type Conf struct {
	Version string
	Plugins []ConfPlugin
	Builds  []ProjBuild
	Options []ConfOption
}

// ConfPlugin is a plugin
type ConfPlugin struct{ Name, URL, Path string }

// ProjBuild is a build
type ProjBuild struct{ Pkg, Src, Out string }

// ConfOption is an option: a text, a boolean or anything else
type ConfOption struct {
	Key  string
	Text *string `json:",omitempty"`
	Bool bool
	More string `json:",omitempty"` // any other value, as JSON that YAML reads alike
	Show string `json:",omitempty"` // what show makes of it
}

// other draws a number, null, a list or an object: the text and what show makes of it
func other(t *rapid.T, depth int) (string, string) {
	k := pick(t, 6)
	if depth <= 0 {
		k = pick(t, 4)
	}
	switch k {
	case 0:
		n := sample(t, []int64{0, 1, -1, 7, 12, 80, 255, -32768, 65536, 100000, 16777217, 2147483647, 2147483648, -2147483649, 4294967295, 33554433123, 9007199254740991, -9007199254740991})
		return strconv.FormatInt(n, 10), show(n)
	case 1:
		f := sample(t, []float64{0.5, 1.25, -2.75, 3.1, 0.1, 100.001, 1234567.891, 16777217.5, 0.30000000000000004, 1e-5})
		return strconv.FormatFloat(f, 'f', -1, 64), show(f)
	case 2:
		return "null", show(nil)
	case 3:
		x := sample(t, []string{"a", "1", "", "true", "x y", "null", "1.0", "#", "- a", "a: b"})
		return strconv.Quote(x), show(x)
	case 4:
		texts, shown := []string{}, []string{}
		for i := pick(t, 4); i > 0; i-- {
			a, b := other(t, depth-1)
			texts, shown = append(texts, a), append(shown, b)
		}
		return "[" + strings.Join(texts, ", ") + "]", "[" + strings.Join(shown, ", ") + "]"
	}
	texts, shown := []string{}, []string{}
	for i := pick(t, 4); i > 0; i-- {
		key := fmt.Sprintf("k%d", i)
		a, b := other(t, depth-1)
		texts, shown = append(texts, strconv.Quote(key)+": "+a), append(shown, strconv.Quote(key)+": "+b)
	}
	return "{" + strings.Join(texts, ", ") + "}", "{" + strings.Join(sortStrings(shown), ", ") + "}"
}

// show writes a value without regard to which of Go's types for it the decoder chose
func show(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return fmt.Sprintf("text %q", x)
	case bool:
		return strconv.FormatBool(x)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "number " + strconv.FormatInt(rv.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "number " + strconv.FormatUint(rv.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return "number " + strconv.FormatFloat(rv.Float(), 'f', -1, 64)
	case reflect.Slice:
		out := []string{}
		for i := 0; i < rv.Len(); i++ {
			out = append(out, show(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case reflect.Map:
		out := []string{}
		for _, k := range rv.MapKeys() {
			out = append(out, fmt.Sprintf("%q: %s", fmt.Sprint(k.Interface()), show(rv.MapIndex(k).Interface())))
		}
		return "{" + strings.Join(sortStrings(out), ", ") + "}"
	}
	return fmt.Sprintf("%T %#v", v, v)
}

var confPieces = []string{"a", "b", "1", " ", "-", "/", ".", ":", "#", "'", "\"", "\\", "\n", "\t", "{", "}", "[", ",", "&", "*", "!", "|", ">", "%", "@", "`", "\u00e9", "\u6f22", "\U0001F600", "\u0000", "\u2028", "\u0085", "yes", "null", "~", "true", "1.0", "0x1f", "<", "$", "  ", "- x", "? y", "\r\n", "\u007f"}

func confText(t *rapid.T) string {
	if chance(t, 1, 2) {
		return sample(t, []string{"1", "2.0", "dist", "src", "./schemas", "out/", "", "true", "null", "no", "https://example.com/p?a=b&c=d#e", "a b", "v1.2.3", "012", "1e3", "2001-01-01", "~", "C:\\dir", "../up", "plugin-one"})
	}
	s := ""
	for i := pick(t, 6); i > 0; i-- {
		s += sample(t, confPieces)
	}
	return s
}

func genConf(t *rapid.T) Conf {
	c := Conf{Version: confText(t)}
	for i := several(t, 0, 3, 5, 8, 12, 20); i > 0; i-- {
		c.Plugins = append(c.Plugins, ConfPlugin{confText(t), confText(t), confText(t)})
	}
	for i := several(t, 0, 4, 6, 9, 12, 20); i > 0; i-- {
		c.Builds = append(c.Builds, ProjBuild{confText(t), confText(t), confText(t)})
	}
	seen := map[string]bool{}
	for i := several(t, 0, 3, 5, 8, 12, 20); i > 0; i-- {
		o := ConfOption{Key: confText(t), Bool: chance(t, 1, 2)}
		if seen[o.Key] || o.Key == "" || o.Key == "<<" {
			continue
		}
		seen[o.Key] = true
		if chance(t, 1, 2) {
			s := confText(t)
			o.Text, o.Bool = &s, false
		} else if chance(t, 1, 3) {
			o.More, o.Show = other(t, 2)
			o.Bool = false
		}
		c.Options = append(c.Options, o)
	}
	return c
}

// quote writes a double-quoted string that JSON and YAML read alike
func quote(s string, escapeMore func() bool) string {
	var b strings.Builder
	skip := 0 // the mark stays as it is
	b.WriteByte('"')
	for i, r := range s {
		if strings.HasPrefix(s[i:], rootMark) {
			b.WriteString(rootMark)
			skip = i + len(rootMark)
		}
		switch {
		case i < skip:
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n' && escapeMore():
			b.WriteString(`\n`)
		case r == '\t' && escapeMore():
			b.WriteString(`\t`)
		case r < 0x20 || r < 0x10000 && (!unicode.IsPrint(r) || escapeMore()):
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// writer draws the spelling of a configuration
type confWriter struct {
	t     *rapid.T
	space bool // free whitespace
	flow  bool // JSON for a YAML reader: a blank after each colon
}

func (w *confWriter) q(s string) string {
	return quote(s, func() bool { return chance(w.t, 1, 12) })
}

func (w *confWriter) ws() string {
	if !w.space {
		return ""
	}
	return sample(w.t, []string{"", " ", "\n", "  ", "\n    "})
}

type pair struct{ k, v string }

func (w *confWriter) object(ps []pair) string {
	for i := len(ps) - 1; i > 0; i-- {
		j := pick(w.t, i+1)
		ps[i], ps[j] = ps[j], ps[i]
	}
	out := []string{}
	for _, p := range ps {
		colon := ":" + w.ws()
		if w.flow {
			colon = ": "
		}
		out = append(out, w.ws()+w.q(p.k)+colon+p.v+w.ws())
	}
	return "{" + strings.Join(out, ",") + "}"
}

func (w *confWriter) list(vs []string) string {
	out := []string{}
	for _, v := range vs {
		out = append(out, w.ws()+v+w.ws())
	}
	return "[" + strings.Join(out, ",") + "]"
}

func (o ConfOption) value(q func(string) string) string {
	if o.Text != nil {
		return q(*o.Text)
	}
	if o.More != "" {
		return o.More
	}
	return strconv.FormatBool(o.Bool)
}

func (w *confWriter) json(c Conf) string {
	ps := []pair{{"version", w.q(c.Version)}}
	list := []string{}
	for _, p := range c.Plugins {
		list = append(list, w.object([]pair{{"name", w.q(p.Name)}, {"remote", w.object([]pair{{"url", w.q(p.URL)}})}, {"local", w.object([]pair{{"path", w.q(p.Path)}})}}))
	}
	if len(list) > 0 || chance(w.t, 1, 2) {
		ps = append(ps, pair{"plugins", w.list(list)})
	}
	list = []string{}
	for _, b := range c.Builds {
		list = append(list, w.object([]pair{{"package", w.q(b.Pkg)}, {"src", w.q(b.Src)}, {"output", w.q(b.Out)}}))
	}
	if len(list) > 0 || chance(w.t, 1, 2) {
		ps = append(ps, pair{"builds", w.list(list)})
	}
	opts := []pair{}
	for _, o := range c.Options {
		opts = append(opts, pair{o.Key, o.value(w.q)})
	}
	if len(opts) > 0 || chance(w.t, 1, 2) {
		ps = append(ps, pair{"options", w.object(opts)})
	}
	return w.object(ps)
}

var plainYAML = map[string]bool{"dist": true, "src": true, "plugin-one": true, "v1.2.3": true, "a b": true, "./schemas": true, "out/": true}

// scalar writes a string for block YAML
func (w *confWriter) scalar(s string) string {
	if plainYAML[s] && chance(w.t, 1, 2) {
		return s
	}
	if strings.IndexFunc(s, func(r rune) bool { return !unicode.IsPrint(r) }) < 0 && chance(w.t, 1, 5) {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	return w.q(s)
}

func (w *confWriter) yaml(c Conf) string {
	sections := []string{"version: " + w.scalar(c.Version) + "\n"}
	ind := sample(w.t, []string{"", "  ", "    "})
	item := func(fields []string) string {
		for i := len(fields) - 1; i > 0; i-- {
			j := pick(w.t, i+1)
			fields[i], fields[j] = fields[j], fields[i]
		}
		return ind + "- " + strings.Join(fields, "\n"+ind+"  ") + "\n"
	}
	s := "plugins:"
	for i, p := range c.Plugins {
		if i == 0 {
			s += "\n"
		}
		s += item([]string{"name: " + w.scalar(p.Name), "remote:\n" + ind + "    url: " + w.scalar(p.URL), "local: {path: " + w.q(p.Path) + "}"})
	}
	if len(c.Plugins) > 0 {
		sections = append(sections, s)
	} else if chance(w.t, 1, 2) {
		sections = append(sections, s+" []\n")
	}
	s = "builds:"
	for i, b := range c.Builds {
		if i == 0 {
			s += "\n"
		}
		s += item([]string{"package: " + w.scalar(b.Pkg), "src: " + w.scalar(b.Src), "output: " + w.scalar(b.Out)})
	}
	if len(c.Builds) > 0 {
		sections = append(sections, s)
	} else if chance(w.t, 1, 2) {
		sections = append(sections, s+" []\n")
	}
	s = "options:"
	for i, o := range c.Options {
		if i == 0 {
			s += "\n"
		}
		s += "  " + w.q(o.Key) + ": " + o.value(w.scalar) + "\n"
	}
	if len(c.Options) > 0 {
		sections = append(sections, s)
	}
	for i := len(sections) - 1; i > 0; i-- {
		j := pick(w.t, i+1)
		sections[i], sections[j] = sections[j], sections[i]
	}
	head := sample(w.t, []string{"", "# a comment\n", "---\n", "\n"})
	return head + strings.Join(sections, sample(w.t, []string{"", "\n", "# next\n"}))
}

// confText writes a configuration for a file of that name
func writeConf(t *rapid.T, c Conf, name string) string {
	w := &confWriter{t: t, space: chance(t, 1, 2)}
	if name == "cddlc.json" {
		return w.json(c) + sample(t, []string{"", "\n"})
	}
	if chance(t, 1, 4) {
		w.flow = true
		return w.json(c)
	}
	return w.yaml(c)
}

// ---- C25

// ConfCase is a configuration in both forms
type ConfCase struct {
	Conf       Conf
	JSON, YAML Bytes
}

func genC25(t *rapid.T) ConfCase {
	c := ConfCase{Conf: genConf(t)}
	c.JSON, c.YAML = Bytes(writeConf(t, c.Conf, "cddlc.json")), Bytes(writeConf(t, c.Conf, "cddlc.yaml"))
	return c
}

func load(s *scratch, name string, data []byte) (*config.Config, error) {
	if err := os.WriteFile(s.path(name), data, 0644); err != nil {
		return nil, fmt.Errorf("harness: %v", err)
	}
	return config.LoadConfig(s.path(name))
}

// back turns a loaded configuration into the model
func back(c *config.Config) (string, error) {
	var b strings.Builder
	fmt.Fprintf(&b, "version %q\n", c.Version)
	for _, p := range c.Plugins {
		if p == nil {
			return "", fmt.Errorf("nil plugin")
		}
		fmt.Fprintf(&b, "plugin %q %q %q\n", p.Name, p.Remote.URL, p.Local.Path)
	}
	for _, p := range c.Builds {
		if p == nil {
			return "", fmt.Errorf("nil build")
		}
		fmt.Fprintf(&b, "build %q %q %q\n", p.Package, p.SourceDir, p.OutDir)
	}
	keys := []string{}
	for k := range c.Options {
		keys = append(keys, k)
	}
	for _, k := range sortStrings(keys) {
		fmt.Fprintf(&b, "option %q %s\n", k, show(c.Options[k]))
	}
	return b.String(), nil
}

func (c Conf) model() string {
	var b strings.Builder
	fmt.Fprintf(&b, "version %q\n", c.Version)
	for _, p := range c.Plugins {
		fmt.Fprintf(&b, "plugin %q %q %q\n", p.Name, p.URL, p.Path)
	}
	for _, p := range c.Builds {
		fmt.Fprintf(&b, "build %q %q %q\n", p.Pkg, p.Src, p.Out)
	}
	keys, vals := []string{}, map[string]string{}
	for _, o := range c.Options {
		keys = append(keys, o.Key)
		vals[o.Key] = show(o.Bool)
		if o.Text != nil {
			vals[o.Key] = show(*o.Text)
		} else if o.More != "" {
			vals[o.Key] = o.Show
		}
	}
	for _, k := range sortStrings(keys) {
		fmt.Fprintf(&b, "option %q %s\n", k, vals[k])
	}
	return b.String()
}

func checkC25(c ConfCase, o *core.Obs) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	want := c.Conf.model()
	o.NonTrivialIf(len(c.Conf.Builds)+len(c.Conf.Plugins)+len(c.Conf.Options) > 1)
	o.Label("builds %d", len(c.Conf.Builds))
	o.Label("plugins %d", len(c.Conf.Plugins))
	var loaded []*config.Config
	for _, f := range []struct {
		name string
		data Bytes
	}{{"cddlc.json", c.JSON}, {"cddlc.yaml", c.YAML}} {
		for i := 0; i < 2; i++ {
			conf, err := load(s, f.name, f.data)
			if i == 1 { // the same through a link from another folder
				os.RemoveAll(s.path("linked"))
				if err := os.Mkdir(s.path("linked"), 0755); err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				target := s.path("kept-" + f.name + ".txt")
				if err := os.WriteFile(target, f.data, 0644); err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				link := s.path("linked/" + f.name)
				if err := os.Symlink(target, link); err != nil {
					return fmt.Errorf("harness: %v", err)
				}
				conf, err = config.LoadConfig(link)
			}
			if err != nil {
				return fmt.Errorf("%s is not accepted: %v\n%s", f.name, err, f.data)
			}
			got, err := back(conf)
			if err != nil {
				return fmt.Errorf("%s: %v", f.name, err)
			}
			if got != want {
				return fmt.Errorf("%s loads differently: %s\n%s", f.name, firstDiff(want, got), f.data)
			}
			loaded = append(loaded, conf)
		}
	}
	for i := range c.Conf.Builds {
		if !reflect.DeepEqual(*loaded[0].Builds[i], *loaded[2].Builds[i]) {
			return fmt.Errorf("build %d differs between the forms", i)
		}
	}
	return nil
}

// BadConfCase is a file that is no configuration
type BadConfCase struct {
	Name string // of the file
	What string
	Data Bytes
	// Kind: "" a file with the data, "missing", "dir"
	Kind string
}

func genC25Bad(t *rapid.T) BadConfCase {
	conf := genConf(t)
	for i := pick(t, 2); i >= 0; i-- {
		conf.Builds = append(conf.Builds, ProjBuild{confText(t), confText(t), confText(t)})
	}
	c := BadConfCase{Name: "cddlc.json"}
	jsonText := strings.TrimSpace(writeConf(t, conf, "cddlc.json"))
	yamlText := (&confWriter{t: t}).yaml(conf)
	set := func(what, data string) BadConfCase {
		c.What, c.Data = what, Bytes(data)
		return c
	}
	switch pick(t, 15) {
	case 14:
		c.Name = "cddlc.yaml"
		return set("garbage at the end", (&confWriter{t: t, flow: true}).json(conf)+sample(t, []string{" {", "\nx", "}", "]", " x: y", ", \"a\": 1}", "\n\"open", "\n--- [", "\n---\n{"}))
	case 0, 1:
		return set("truncated", jsonText[:pick(t, len(jsonText))])
	case 2:
		return set("garbage at the end", jsonText+sample(t, []string{"x", "}", "{}", "]", " null", "\n{\"version\": \"2\"}", ",", "\"", "\x00", " // end"}))
	case 3: // one structural character missing
		at := []int{}
		in := false
		for i := 0; i < len(jsonText); i++ {
			switch {
			case in && jsonText[i] == '\\':
				i++
			case jsonText[i] == '"':
				in = !in
				at = append(at, i)
			case !in && strings.IndexByte("{}[]:,", jsonText[i]) >= 0:
				at = append(at, i)
			}
		}
		i := sample(t, at)
		return set("without a character at "+strconv.Itoa(i), jsonText[:i]+jsonText[i+1:])
	case 4:
		bad := sample(t, []string{`{"version": 1}`, `{"version": ["1"]}`, `{"builds": {}}`, `{"builds": "x"}`, `{"builds": ["x"]}`, `{"builds": [3]}`, `{"builds": [[]]}`, `{"builds": [{"src": 1}]}`, `{"builds": [{"output": ["x"]}]}`, `{"builds": [{"package": true}]}`, `{"plugins": {}}`, `{"plugins": [1]}`, `{"plugins": [{"name": 5}]}`, `{"plugins": [{"local": "x"}]}`, `{"plugins": [{"remote": {"url": 1}}]}`, `{"options": []}`, `{"options": "x"}`, `[]`, `"x"`, `5`, `true`, `[{"version": "1"}]`})
		return set("of the wrong type", bad)
	case 5:
		return set("not JSON", sample(t, []string{"", " ", "\n", "version: \"1\"\n", "{'version': '1'}", "{\"version\": \"1\",}", "// c\n{}", "{version: \"1\"}", "garbage", "<xml/>", "{\"version\": \"1\" \"builds\": []}", "{\"version\": \"a\nb\"}", "{\"version\": \"\\x\"}", "{\"a\": tru}", "\x00", "\xef\xbb\xbf{}"}))
	case 6:
		return set("an empty entry", sample(t, []string{`{"version": "1", "builds": [null]}`, `{"builds": [{"package": "a", "src": ".", "output": "o"}, null]}`, `{"plugins": [null]}`}))
	case 7, 8:
		c.Name = "cddlc.yaml"
		w := &confWriter{t: t, flow: true}
		s := w.json(conf)
		return set("truncated", s[:pick(t, len(s))])
	case 9:
		c.Name = "cddlc.yaml"
		tail := sample(t, []string{"x: \"open", "x: 'open", "x: [1, 2", "x: {a: 1", "x: a: b: c\n", "\tx: 1\n", "x:\n\t- 1\n", " stray: 1\n", "- item\n", "just text\n", "x: \"\\q\"\n", "x: *nowhere\n", "x: %y\n", "x: @y\n", "x: \x01\n", "x: \xff\n", "}\n", "x: ]\n"})
		return set("broken at the end", yamlText+tail)
	case 10:
		c.Name = "cddlc.yaml"
		return set("of the wrong type", sample(t, []string{"version: [1]\n", "version: {a: b}\n", "builds: 5\n", "builds: text\n", "builds: [x]\n", "builds: {a: b}\n", "builds:\n- src: [a]\n", "builds:\n- output: {a: b}\n", "builds:\n- package: [x]\n", "plugins: 5\n", "plugins: [3]\n", "plugins:\n- local: x\n", "plugins:\n- remote: [x]\n", "options: [a]\n", "options: text\n", "text\n", "- a\n- b\n", "5\n"}))
	case 11:
		c.Name = "cddlc.yaml"
		return set("empty", sample(t, []string{"", "\n", "# only a comment\n", "builds:\n-\n", "builds:\n- package: a\n  src: b\n  output: c\n- ~\n", "plugins:\n- null\n"}))
	case 12:
		c.Name = sample(t, []string{"cddlc.yml", "config.json", "config.yaml", "CDDLC.JSON", "cddlc.json.bak", "cddlc.toml", "cddlc", ".cddlc.json", "cddlc.jsonc", "my-cddlc.json", "cddlc.yaml.json", "cddlc.yaml~"})
		return set("not a known name", sample(t, []string{jsonText, yamlText}))
	}
	c.Name = sample(t, []string{"cddlc.json", "cddlc.yaml"})
	c.Kind = sample(t, []string{"missing", "dir"})
	c.What = c.Kind
	return c
}

func checkC25Bad(c BadConfCase, o *core.Obs) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	o.Label("%s", c.Name)
	o.Label("%s", strings.SplitN(c.What, " at ", 2)[0])
	o.NonTrivialIf(len(c.Data) > 0)
	switch c.Kind {
	case "dir":
		if err := s.mkdir(c.Name); err != nil {
			return err
		}
	case "":
		if err := s.write(c.Name, c.Data); err != nil {
			return err
		}
	}
	conf, err := config.LoadConfig(s.path(c.Name))
	if err == nil {
		return fmt.Errorf("%s, %s, is accepted as %+v\n%s", c.Name, c.What, conf, c.Data)
	}
	if err.Error() == "" {
		return fmt.Errorf("%s, %s, gives an error without a text", c.Name, c.What)
	}
	if conf != nil {
		return fmt.Errorf("%s, %s, gives an error and %+v", c.Name, c.What, conf)
	}
	return nil
}

// PluginCase is a configuration with plugins at the places
type PluginCase struct{ Places []string }

var places = []string{"dir", "dir/", "dir/inner", "link-to-dir", "dir/../dir", "file", "missing", "dir/missing", "link-to-file", "dangling", "file/x", ""}

func genC25Plugins(t *rapid.T) PluginCase {
	c := PluginCase{}
	n := several(t, 0, 4, 5, 6, 8, 11, 17)
	for i := 0; i < n; i++ {
		k := 5
		if chance(t, 1, 4) {
			k = len(places)
		}
		c.Places = append(c.Places, places[pick(t, k)])
	}
	return c
}

func checkC25Plugins(c PluginCase, o *core.Obs) error {
	s, err := newScratch()
	if err != nil {
		return err
	}
	defer s.remove()
	if err := s.mkdir("dir/inner"); err != nil {
		return err
	}
	if err := s.write("file", []byte("x")); err != nil {
		return err
	}
	for _, l := range [][2]string{{"dir", "link-to-dir"}, {"file", "link-to-file"}, {"nowhere", "dangling"}} {
		if err := os.Symlink(l[0], s.path(l[1])); err != nil {
			return fmt.Errorf("harness: %v", err)
		}
	}
	conf := &config.Config{Version: "1"}
	bad := ""
	for i, p := range c.Places {
		full := ""
		if p != "" {
			full = s.root + "/" + p
		}
		ok := false
		for _, d := range places[:5] {
			ok = ok || d == p
		}
		if !ok {
			bad = "plugin " + strconv.Itoa(i) + " at " + strconv.Quote(p)
		}
		conf.Plugins = append(conf.Plugins, &config.Plugin{Name: "p" + strconv.Itoa(i), Local: config.PluginLocal{Path: full}})
	}
	err = conf.Valid()
	o.Label("%d plugins", len(c.Places))
	o.LabelIf(bad != "", "bad")
	o.NonTrivialIf(len(c.Places) > 1)
	if bad != "" && err == nil {
		return fmt.Errorf("%s is accepted among %q", bad, c.Places)
	}
	if bad == "" && err != nil {
		return fmt.Errorf("%q is rejected: %v", c.Places, err)
	}
	return nil
}

// GenOptions are options of the code generator
type GenOptions struct {
	Emit, Stub bool
	Case       string
	YAML       bool
}

func genC25Options(t *rapid.T) GenOptions {
	c := GenOptions{Emit: chance(t, 1, 2), Stub: chance(t, 1, 2), YAML: chance(t, 1, 2)}
	if chance(t, 1, 2) {
		c.Case = sample(t, []string{"camelcase", "snakecase"})
	} else {
		c.Case = sample(t, []string{"", "camel", "snake", "CamelCase", "camelCase", "snake_case", "camelcase ", " snakecase", "CAMELCASE", "kebabcase", "pascalcase", "camelcasesnakecase"})
		if chance(t, 1, 4) {
			c.Case, c.YAML = confText(t), false
		}
	}
	return c
}

func checkC25Options(c GenOptions, o *core.Obs) error {
	known := c.Case == "camelcase" || c.Case == "snakecase"
	o.LabelIf(known, "known")
	o.NonTrivialIf(c.Case != "")
	want := gogen.Options{EmitIdent: c.Emit, CaseConversion: c.Case, GeneratePlugStub: c.Stub}
	if err := want.Valid(); known != (err == nil) {
		return fmt.Errorf("case conversion %q: %v", c.Case, err)
	}
	if !utf8.ValidString(c.Case) {
		return nil
	}
	m := map[string]interface{}{"emit-ident-info": c.Emit, "case-conversion": c.Case, "generate-plug-stub": c.Stub}
	var got gogen.Options
	if c.YAML {
		b, err := yaml.Marshal(m)
		if err == nil {
			err = yaml.Unmarshal(b, &got)
		}
		if err != nil {
			return fmt.Errorf("%q: %v", c.Case, err)
		}
	} else {
		b, err := json.Marshal(m)
		if err == nil {
			err = json.Unmarshal(b, &got)
		}
		if err != nil {
			return fmt.Errorf("%q: %v", c.Case, err)
		}
	}
	if got != want {
		return fmt.Errorf("options are %+v, loaded as %+v", want, got)
	}
	return nil
}

func init() {
	core.Check("C25", "generator options", "options of the code generator, as JSON and YAML, with known and unknown case conversions; oracle: the two names; non-trivial: a case conversion", 400, genC25Options, checkC25Options)
	core.Check("C25", "values", "configurations with up to 20 plugins, builds and options of tricky texts, numbers, lists and objects, as JSON and as YAML (block and flow) in drawn spellings and key orders; non-trivial: two entries or more", 4000, genC25, checkC25)
	core.Check("C25", "malformed", "truncated, corrupted, mistyped, empty, missing or misnamed files; non-trivial: a file with content", 5000, genC25Bad, checkC25Bad)
	core.Check("C25", "plugins", "up to 17 plugins at directories, links, files and missing places; non-trivial: two plugins or more", 1500, genC25Plugins, checkC25Plugins)
}
