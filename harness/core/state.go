package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const stateSize = 32 << 20

// Exit codes of the worker besides 0 and 1, for the driver
const (
	ExitHang   = 77
	ExitMemory = 78
)

// State is a shared memory mapping that holds the case being run, so that it survives the death of the process
type State struct{ mem []byte }

// OpenState creates the file
func OpenState(path string) (*State, error) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR, 0600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(stateSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, stateSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &State{mem: mem}, nil
}

// Put records the case
func (s *State) Put(prop, sub string, raw []byte) {
	head, _ := json.Marshal(map[string]string{"property": prop, "sub": sub})
	n := len(head) + len(raw)
	if n+16 > len(s.mem) {
		return
	}
	binary.LittleEndian.PutUint32(s.mem[0:], uint32(len(head)))
	binary.LittleEndian.PutUint32(s.mem[4:], uint32(len(raw)))
	copy(s.mem[8:], head)
	copy(s.mem[8+len(head):], raw)
}

// CPUTime of this process
func CPUTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// Watchdog ends the process when a single case neither finishes nor stays within memory
func Watchdog(wall, cpu time.Duration, memLimit int64) {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if r := rss(); r > memLimit {
				fmt.Fprintf(os.Stderr, "watchdog: %d MB resident\n", r>>20)
				os.Exit(ExitMemory)
			}
			current.Lock()
			active, start, c0 := current.active, current.start, current.cpu
			current.Unlock()
			if active && time.Since(start) > wall && CPUTime()-c0 > cpu {
				fmt.Fprintf(os.Stderr, "watchdog: case running for %v (cpu %v)\n", time.Since(start), CPUTime()-c0)
				os.Exit(ExitHang)
			}
		}
	}()
}
