package core

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Coverage-guided search: the generators of the sub-checks read from bytes that the fuzzing engine of Go mutates,
// keeping those that reach new code of the repository. Cases that are a source are also mutated directly.

// fuzzLog collects what a process of the engine did, in files of its own
type fuzzLog struct {
	sync.Mutex
	dir                     string
	state                   *State
	evaluations, nontrivial int
	distinct                map[uint64]bool
	fresh                   []byte // hashes to be written
	last                    time.Time
}

func (l *fuzzLog) file(name string) string {
	return filepath.Join(l.dir, fmt.Sprintf("%s-%d", name, os.Getpid()))
}

func (l *fuzzLog) flush() {
	f, err := os.OpenFile(l.file("hashes"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
	if err == nil {
		f.Write(l.fresh)
		f.Close()
		l.fresh = l.fresh[:0]
	}
	os.WriteFile(l.file("counts"), []byte(fmt.Sprintf("%d %d", l.evaluations, l.nontrivial)), 0600)
	l.last = time.Now()
}

// one runs a case and records it
func (l *fuzzLog) one(t *testing.T, s *Sub, c interface{}) {
	raw, err := json.Marshal(c)
	if err != nil {
		t.Fatal(err)
	}
	l.Lock()
	defer l.Unlock()
	l.state.Put(s.Prop, s.Name, raw)
	o := &Obs{}
	setActive(true)
	err = s.Run1(c, o)
	setActive(false)
	l.evaluations++
	if o.nontrivial {
		l.nontrivial++
		h := sha256.Sum256(raw)
		k := binary.LittleEndian.Uint64(h[:8])
		if len(l.distinct) < 2_000_000 && !l.distinct[k] {
			l.distinct[k] = true
			l.fresh = binary.LittleEndian.AppendUint64(l.fresh, k)
		}
	}
	if err != nil && strings.Contains(err.Error(), "harness: ") {
		os.WriteFile(l.file("harness"), []byte(err.Error()+"\n"+clip(string(raw), 3000)), 0600)
		t.Fatal(err)
	}
	if err != nil {
		f, _ := json.Marshal(Failure{Property: s.Prop, Sub: s.Name, Case: raw, Message: err.Error(), Alone: true})
		os.WriteFile(l.file("failure"), f, 0600)
		t.Fatal("violated")
	}
	if time.Since(l.last) > time.Second {
		l.flush()
	}
}

// source returns the text of a case that is nothing but a source
func source(c interface{}) (string, bool) {
	raw, err := json.Marshal(c)
	if err != nil {
		return "", false
	}
	m := map[string]string{}
	if json.Unmarshal(raw, &m) != nil || len(m) != 1 {
		return "", false
	}
	src, ok := m["Src"]
	return src, ok
}

func decodeSource(s string) []byte {
	if strings.HasPrefix(s, "b64:") {
		b, _ := base64.StdEncoding.DecodeString(s[4:])
		return b
	}
	return []byte(strings.TrimPrefix(s, "s:"))
}

// OfSource tells whether the cases are sources
func (s *Sub) OfSource() bool {
	_, ok := source(s.examples().Example(1))
	return ok
}

func (s *Sub) examples() *rapid.Generator[interface{}] {
	return rapid.Custom(func(t *rapid.T) interface{} { return s.gen(t) })
}

// ofSource makes the case of a source
func (s *Sub) ofSource(src []byte) (interface{}, error) {
	raw, _ := json.Marshal(map[string][]byte{"Src": src}) // base64
	raw = []byte(strings.Replace(string(raw), `{"Src":"`, `{"Src":"b64:`, 1))
	return s.decode(raw)
}

// Fuzz searches for violations of a sub-check, directed by coverage. The environment tells what and where:
// VERIF_FUZZ=C01/name, VERIF_FUZZ_DIR, VERIF_FUZZ_SEED, VERIF_FUZZ_RAW=1 to mutate the source itself.
func Fuzz(f *testing.F) {
	prop, name, _ := strings.Cut(os.Getenv("VERIF_FUZZ"), "/")
	l := &fuzzLog{dir: os.Getenv("VERIF_FUZZ_DIR"), distinct: map[uint64]bool{}, last: time.Now()}
	var s *Sub
	for _, x := range Subs(prop) {
		if x.Name == name && x.gen != nil {
			s = x
		}
	}
	if s == nil || l.dir == "" {
		f.Skip("nothing to do")
	}
	var err error
	if l.state, err = OpenState(l.file("state")); err != nil {
		f.Fatal(err)
	}
	Watchdog(20*time.Second, 16*time.Second, 3<<30)
	seed := uint64(1)
	fmt.Sscan(os.Getenv("VERIF_FUZZ_SEED"), &seed)
	x := mixSeed(seed, prop+"/"+name)
	if os.Getenv("VERIF_FUZZ_RAW") != "" {
		cases := s.examples()
		for i := 0; i < 60; i++ {
			src, ok := source(cases.Example(int(x>>33) + i))
			if !ok {
				f.Skip("not a source")
			}
			if len(src) < 4000 {
				f.Add(decodeSource(src))
			}
		}
		f.Fuzz(func(t *testing.T, src []byte) {
			c, err := s.ofSource(src)
			if err != nil {
				t.Fatal(err)
			}
			l.one(t, s, c)
		})
		return
	}
	for i := 0; i < 24; i++ {
		b := make([]byte, 64<<(i%8))
		for j := range b { // splitmix
			x += 0x9e3779b97f4a7c15
			z := x
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb
			b[j] = byte(z >> 56)
		}
		f.Add(b)
	}
	f.Fuzz(func(t *testing.T, input []byte) {
		var c interface{}
		made := false
		rapid.MakeFuzz(func(rt *rapid.T) {
			c = s.gen(rt)
			made = true
		})(t, input)
		if made {
			l.one(t, s, c)
		}
	})
}

// Shrink removes pieces of the source of a failing case as long as it keeps failing
func Shrink(f *Failure, limit time.Duration) {
	end := time.Now().Add(limit)
	for _, s := range Subs(f.Property) {
		if s.Name != f.Sub {
			continue
		}
		c, err := s.decode(f.Case)
		if err != nil {
			return
		}
		text, ok := source(c)
		if !ok {
			return
		}
		src := decodeSource(text)
		for n := len(src) / 2; n > 0; {
			removed := false
			for i := 0; i+n <= len(src) && time.Now().Before(end); {
				try := append(append([]byte{}, src[:i]...), src[i+n:]...)
				c, err := s.ofSource(try)
				if err == nil {
					setActive(true)
					err := s.Run1(c, &Obs{})
					setActive(false)
					if err != nil && !strings.Contains(err.Error(), "harness: ") {
						src, removed = try, true
						f.Case, _ = json.Marshal(c)
						f.Message = err.Error()
						continue
					}
				}
				i += n
			}
			if !removed || n > len(src) {
				n /= 2
			}
		}
		return
	}
}
