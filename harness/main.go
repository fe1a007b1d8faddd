// The worker of the property checks, driven by /verif/run.py
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"verif/harness/core"
	_ "verif/harness/props"
)

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: worker list|run|replay ...")
	}
	log.SetOutput(io.Discard) // the code generator logs
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	sub := fs.String("sub", "", "only this sub-check")
	seed := fs.Uint64("seed", 1, "seed")
	factor := fs.Float64("factor", 1, "multiplies the number of cases")
	checks := fs.Int("checks", 0, "exact number of cases instead")
	out := fs.String("out", "", "result file")
	state := fs.String("state", "", "file that records the running case")
	file := fs.String("file", "", "replay file")
	mem := fs.Int64("mem", 4096, "memory limit in MB")
	budget := fs.Float64("budget", 0, "seconds after which no further cases are run")
	enums := fs.Bool("enums", true, "run enumerations too")
	fs.Parse(os.Args[2:])
	core.InitFlags()
	debug.SetMaxStack(256 << 20)

	var st *core.State
	if *state != "" {
		var err error
		if st, err = core.OpenState(*state); err != nil {
			fatal("%v", err)
		}
	}

	switch os.Args[1] {
	case "list":
		for _, p := range core.Props() {
			names := []string{}
			for _, s := range core.Subs(p) {
				names = append(names, fmt.Sprintf("%s(%d)", s.Name, s.Quick))
			}
			fmt.Println(p, strings.Join(names, " "))
		}
	case "run":
		core.Watchdog(20*time.Second, 16*time.Second, *mem<<20)
		subs := core.Subs(*prop)
		if len(subs) == 0 {
			fatal("no such property %s", *prop)
		}
		results := []*core.SubResult{}
		end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
		code := 0
		for i, s := range subs {
			if *sub != "" && s.Name != *sub || !*enums && s.Enumerated() {
				continue
			}
			n := *checks
			if n == 0 {
				n = s.Count(*factor)
			}
			opt := core.Options{Seed: *seed, Checks: n, State: st}
			if *budget > 0 { // an equal part of what is left
				opt.Deadline = time.Now().Add(time.Until(end) / time.Duration(len(subs)-i))
			}
			r := s.Run(opt)
			results = append(results, r)
			if r.HarnessErr != "" {
				fmt.Fprintf(os.Stderr, "harness: %s/%s: %s\n", *prop, s.Name, r.HarnessErr)
				code = 2
			}
			if r.Failure != nil {
				code = 1
				break
			}
		}
		b, err := json.Marshal(results)
		if err != nil {
			fatal("%v", err)
		}
		if *out == "" {
			os.Stdout.Write(b)
			fmt.Println()
		} else if err := os.WriteFile(*out, b, 0644); err != nil {
			fatal("%v", err)
		}
		os.Exit(code)
	case "guided": // what the coverage-guided search applies to
		for _, s := range core.Subs(*prop) {
			if s.Enumerated() {
				continue
			}
			fmt.Printf("drawn %s\n", s.Name)
			if s.OfSource() {
				fmt.Printf("raw %s\n", s.Name)
			}
		}
	case "shrink":
		core.Watchdog(20*time.Second, 16*time.Second, *mem<<20)
		b, err := os.ReadFile(*file)
		if err != nil {
			fatal("%v", err)
		}
		var f core.Failure
		if err := json.Unmarshal(b, &f); err != nil {
			fatal("%v", err)
		}
		core.Shrink(&f, 20*time.Second)
		if b, err = json.Marshal(f); err != nil {
			fatal("%v", err)
		}
		if err := os.WriteFile(*out, b, 0644); err != nil {
			fatal("%v", err)
		}
	case "replay":
		core.Watchdog(20*time.Second, 16*time.Second, *mem<<20)
		b, err := os.ReadFile(*file)
		if err != nil {
			fatal("%v", err)
		}
		f := &core.Failure{}
		if err := json.Unmarshal(b, f); err != nil {
			fatal("%v", err)
		}
		if err := core.Replay(f, st); err != nil {
			if strings.Contains(err.Error(), "harness: ") {
				fatal("%v", err)
			}
			fmt.Println(err)
			os.Exit(1)
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
}
