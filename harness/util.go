package main

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func strs(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func defInt(v, def int) int {
	if v == 0 {
		return def
	}
	return v
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// scratch is the directory under which every temporary file is made.
func scratch() string {
	d := os.Getenv("VH_SCRATCH")
	if d == "" {
		panic("VH_SCRATCH not set")
	}
	return d
}

type ndWriter struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
}

func newWriter(path string) *ndWriter {
	f, err := os.Create(path)
	must(err)
	return &ndWriter{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (w *ndWriter) write(v any) {
	b, err := json.Marshal(v)
	must(err)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.w.Write(b)
	w.w.WriteByte('\n')
}

func (w *ndWriter) close() {
	must(w.w.Flush())
	must(w.f.Close())
}

// readLines decodes each line of a file.
func readLines(path string, f func(line []byte)) {
	fd, err := os.Open(path)
	must(err)
	defer fd.Close()
	s := bufio.NewScanner(fd)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for s.Scan() {
		if len(s.Bytes()) > 0 {
			f(s.Bytes())
		}
	}
	must(s.Err())
}

// shard tells which part of the work this process does: the code under test
// keeps global state, so the work is spread over processes, not goroutines.
var shard, shards = 0, 1

// each calls f(i) for every i of this shard.
func each(n int, f func(i int)) {
	for i := shard; i < n; i += shards {
		f(i)
	}
}

// lenient decodes a scenario written by TLC, which writes an empty function as
// an empty sequence.
func lenient(line []byte, v any) {
	var x any
	must(json.Unmarshal(line, &x))
	var walk func(x any) any
	walk = func(x any) any {
		switch x := x.(type) {
		case map[string]any:
			for k, y := range x {
				if s, ok := y.([]any); ok && len(s) == 0 {
					switch k {
					case "t", "c", "k", "i", "rows", "enums", "domains":
						x[k] = map[string]any{}
						continue
					}
				}
				x[k] = walk(y)
			}
		case []any:
			for i := range x {
				x[i] = walk(x[i])
			}
		}
		return x
	}
	b, err := json.Marshal(walk(x))
	must(err)
	must(json.Unmarshal(b, v))
}
