package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
)

// job is one invocation of the harness.
type job struct {
	in      string // scenarios to run (ndjson), in addition to generated ones
	seed    int64
	n       int    // number of generated scenarios
	profile string // which property the generated scenarios aim at
	tier    string
	w       *ndWriter
}

var modes = map[string]func(*job){
	"history":  runHistory,
	"auto":     runAuto,
	"generate": runGenerate,
	"wipe":     runWipe,
	"restore":  runRestore,
	"batch":    runBatch,
	"load":     runLoad,
	"dump":     runDump,
	"subset":   runSubset,
	"modifier": runModifier,
	"lookup":   runLookup,
	"structs":  runStructs,
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness MODE [flags]")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	in := fs.String("in", "", "scenarios (ndjson)")
	out := fs.String("out", "", "traces (ndjson)")
	seed := fs.String("seed", "0", "seed")
	n := fs.Int("n", 0, "number of generated scenarios")
	profile := fs.String("profile", "", "which property to aim at")
	tier := fs.String("tier", "quick", "tier")
	sh := fs.Int("shard", -1, "which shard to run (default: all, in child processes)")
	died := fs.String("died", "", "scenarios known to end in a panic outside the calling goroutine")
	of := fs.Int("of", runtime.NumCPU(), "number of shards")
	must(fs.Parse(os.Args[2:]))
	run, ok := modes[mode]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
	if *sh < 0 {
		spawn(*out, *of)
		return
	}
	shard, shards = *sh, *of
	for _, id := range strings.Split(*died, ",") {
		dead[id] = true
	}
	curFile = *out + ".cur"
	sd, err := strconv.ParseInt(*seed, 10, 64)
	must(err)
	if p := os.Getenv("VH_PROF"); p != "" {
		f, err := os.Create(p)
		must(err)
		must(pprof.StartCPUProfile(f))
		defer pprof.StopCPUProfile()
	}
	w := newWriter(*out)
	writer = w
	run(&job{in: *in, seed: sd, n: *n, profile: *profile, tier: *tier, w: w})
	w.close()
}

// A panic in a goroutine started by the code under test ends the process. The
// scenario being run is then run once more with guard reporting the crash.
var (
	dead    = map[string]bool{}
	curFile string
	current string
	deaths  int
	writer  *ndWriter
)

func enter(id string) {
	if dead[current] {
		deaths++
	}
	if deaths >= 5 {
		// Enough has been seen; every death costs a run of the shard.
		writer.close()
		must(os.Remove(curFile))
		os.Exit(0)
	}
	current = id
	must(os.WriteFile(curFile, []byte(id), 0o644))
}

// panicked recognises a panic below the code under test and not below the
// harness itself.
func panicked(stderr string) bool {
	i := strings.Index(stderr, "panic: ")
	if i < 0 {
		return false
	}
	first, _, _ := strings.Cut(stderr[i:], "\n\ngoroutine ")
	trace := stderr[i+len(first):]
	trace = strings.TrimPrefix(trace, "\n\n")
	trace, _, _ = strings.Cut(trace, "\n\n")
	return strings.Contains(trace, "github.com/bokwoon95/sqddl/ddl.") && !strings.Contains(trace, "main.")
}

// spawn runs every shard in its own process and concatenates the outputs.
func spawn(out string, of int) {
	self, err := os.Executable()
	must(err)
	var wg sync.WaitGroup
	errs := make([]error, of)
	for k := 0; k < of; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			to := out + "." + strconv.Itoa(k)
			var died []string
			for {
				args := append(append([]string{}, os.Args[1:]...), "-shard", strconv.Itoa(k), "-of", strconv.Itoa(of), "-out", to, "-died", strings.Join(died, ","))
				c := exec.Command(self, args...)
				var buf bytes.Buffer
				c.Stdout, c.Stderr = os.Stdout, &buf
				errs[k] = c.Run()
				id, err := os.ReadFile(to + ".cur")
				if err == nil {
					must(os.Remove(to + ".cur"))
				}
				if errs[k] != nil && err == nil && len(died) < 20 && panicked(buf.String()) && !contains(died, string(id)) {
					died = append(died, string(id))
					continue
				}
				os.Stderr.Write(buf.Bytes())
				break
			}
		}()
	}
	wg.Wait()
	f, err := os.Create(out)
	must(err)
	for k := 0; k < of; k++ {
		if errs[k] != nil {
			fmt.Fprintln(os.Stderr, "shard", k, errs[k])
			os.Exit(2)
		}
		g, err := os.Open(out + "." + strconv.Itoa(k))
		must(err)
		_, err = io.Copy(f, g)
		must(err)
		g.Close()
		must(os.Remove(out + "." + strconv.Itoa(k)))
	}
	must(f.Close())
}
