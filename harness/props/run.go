package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The command is run on scratch directories of its own, as an unprivileged user where that is possible.

const nobody = 65534

var account struct {
	once sync.Once
	drop bool
}

// dropped tells whether the command runs as an unprivileged user
func dropped() bool {
	account.once.Do(func() {
		if os.Geteuid() != 0 {
			return
		}
		cmd := exec.Command("/bin/true")
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		account.drop = cmd.Run() == nil
	})
	return account.drop
}

type scratch struct {
	root string
	room int // files may take so many blocks of 512 bytes; no limit if negative
}

func newScratch() (*scratch, error) {
	dir, err := os.MkdirTemp("", "vcddlc-")
	if err != nil {
		return nil, fmt.Errorf("harness: %v", err)
	}
	s := &scratch{dir, -1}
	return s, s.own(dir, 0755)
}

func (s *scratch) own(path string, mode os.FileMode) error {
	if err := os.Chmod(path, mode); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	if dropped() {
		if err := os.Lchown(path, nobody, nobody); err != nil {
			return fmt.Errorf("harness: %v", err)
		}
	}
	return nil
}

func (s *scratch) remove() {
	if strings.Contains(s.root, "vcddlc-") {
		os.RemoveAll(s.root)
	}
}

func (s *scratch) path(rel string) string { return filepath.Join(s.root, rel) }

// mkdir makes a directory with its parents
func (s *scratch) mkdir(rel string) error {
	rel = filepath.Clean(rel)
	if rel == "." || rel == "/" {
		return nil
	}
	if err := s.mkdir(filepath.Dir(rel)); err != nil {
		return err
	}
	if err := os.Mkdir(s.path(rel), 0755); err != nil {
		if os.IsExist(err) {
			return nil
		}
		return fmt.Errorf("harness: %v", err)
	}
	return s.own(s.path(rel), 0755)
}

// write makes a file with its parents
func (s *scratch) write(rel string, data []byte) error {
	if err := s.mkdir(filepath.Dir(rel)); err != nil {
		return err
	}
	if err := os.WriteFile(s.path(rel), data, 0644); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	return s.own(s.path(rel), 0644)
}

// link makes a link to a file elsewhere in the project, unless there is one
func (s *scratch) link(rel, to string) error {
	if _, err := os.Lstat(s.path(rel)); err == nil {
		return nil
	}
	if err := s.write(to, nil); err != nil {
		return err
	}
	if err := s.mkdir(filepath.Dir(rel)); err != nil {
		return err
	}
	target, err := filepath.Rel(s.path(filepath.Dir(rel)), s.path(to))
	if err == nil {
		err = os.Symlink(target, s.path(rel))
	}
	if err == nil && dropped() {
		err = os.Lchown(s.path(rel), nobody, nobody)
	}
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	return nil
}

func (s *scratch) delete(rel string) error {
	if err := os.RemoveAll(s.path(rel)); err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	return nil
}

// tree is the state of a directory: "f" + content for a file, "d" for a directory, "l" + target for a link
type tree map[string]string

func (s *scratch) snapshot() (tree, error) {
	t := tree{}
	err := filepath.Walk(s.root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(s.root, p)
		switch {
		case rel == ".":
		case info.IsDir():
			t[rel] = "d"
		case info.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			t[rel] = "l" + l
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			t[rel] = "f" + string(b)
		}
		return nil
	})
	if err != nil {
		return nil, fmt.Errorf("harness: %v", err)
	}
	return t, nil
}

func (t tree) clone() tree {
	out := tree{}
	for k, v := range t {
		out[k] = v
	}
	return out
}

// paths of both trees in order
func paths(a, b tree) []string {
	out := []string{}
	for k := range a {
		out = append(out, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func what(before, after tree, p string) string {
	_, a := before[p]
	_, b := after[p]
	switch {
	case !a:
		return fmt.Sprintf("%s is created (%s)", p, clips(after[p], 200))
	case !b:
		return p + " is removed"
	}
	return fmt.Sprintf("%s is changed from %s to %s", p, clips(before[p], 300), clips(after[p], 300))
}

func clips(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// same fails unless nothing changed
func same(before, after tree) error {
	for _, p := range paths(before, after) {
		a, okA := before[p]
		b, okB := after[p]
		if a != b || okA != okB {
			return errors.New(what(before, after, p))
		}
	}
	return nil
}

type outcome struct {
	Exit        int
	Out, Err    string
	description string
}

func (o outcome) String() string {
	return fmt.Sprintf("%s: exit status %d\n--- stdout\n%s\n--- stderr\n%s", o.description, o.Exit, clips(o.Out, 1500), clips(o.Err, 1500))
}

type capped struct {
	bytes.Buffer
	over   bool
	cancel func()
}

func (c *capped) Write(b []byte) (int, error) {
	if c.Len()+len(b) > 64<<20 {
		c.over = true
		c.cancel()
		return 0, errors.New("too much output")
	}
	return c.Buffer.Write(b)
}

var _ io.Writer = &capped{}

// command runs the program in a directory of the scratch area
func (s *scratch) command(stdin []byte, args ...string) (outcome, error) {
	o := outcome{description: "cddlc " + strings.Join(args, " ")}
	bin := os.Getenv("VERIF_CDDLC")
	if bin == "" {
		return o, errors.New("harness: VERIF_CDDLC is not set")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	// bounded memory: a runaway command must not take the machine down
	limits := "ulimit -v 16000000; "
	if s.room >= 0 {
		limits += fmt.Sprintf("ulimit -f %d; ", s.room)
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", limits + `exec "$0" "$@"`, bin}, args...)...)
	cmd.Dir = s.root
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + s.root, "TMPDIR=" + s.root, "LANG=C.UTF-8"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if dropped() {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	out, errOut := &capped{cancel: cancel}, &capped{cancel: cancel}
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(stdin), out, errOut
	var start error
	for i := 0; i < 5; i++ {
		if start = cmd.Start(); start == nil || !errors.Is(start, syscall.EAGAIN) {
			break
		}
		time.Sleep(200 * time.Millisecond)
	}
	if start != nil {
		return o, fmt.Errorf("harness: %v", start)
	}
	err := cmd.Wait()
	o.Out, o.Err = out.String(), errOut.String()
	var exit *exec.ExitError
	switch {
	case out.over || errOut.over:
		return o, fmt.Errorf("%s: writes without end", o.description)
	case ctx.Err() != nil:
		return o, fmt.Errorf("%s: does not end", o.description)
	case errors.As(err, &exit):
		o.Exit = exit.ExitCode()
		if o.Exit < 0 {
			return o, fmt.Errorf("%s: killed: %v", o.description, exit)
		}
	case err != nil && !errors.Is(err, syscall.EPIPE):
		return o, fmt.Errorf("harness: %v", err)
	}
	if strings.Contains(o.Err, "\ngoroutine ") && (strings.Contains(o.Err, "panic: ") || strings.Contains(o.Err, "fatal error: ")) {
		return o, fmt.Errorf("crash: %s", o)
	}
	return o, nil
}
