package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// Case is one line given to the specification: what was asked (reconstructible)
// and what the real code answered.
type Case struct {
	ID   string            `json:"id"`
	K    string            `json:"k"`             // kind of event
	G    map[string]Alt    `json:"g"`             // grammar
	Nm   map[string]string `json:"nm"`            // names as written
	Root string            `json:"root"`          // rule asked for, lower case
	Ask  string            `json:"ask"`           // rule as asked
	How  string            `json:"how"`           // "ast" or "text"
	Ins  [][]int           `json:"ins"`           // inputs
	Obs  any               `json:"obs"`           // answers
	Opt  any               `json:"opt,omitempty"` // options
	Par  json.RawMessage   `json:"par,omitempty"` // kind-specific parameters
}

type recorder struct {
	prop     string
	seed     int64
	n        int // budget of cases
	shard    int
	shards   int
	out      *bufio.Writer
	cur      string
	count    int
	scratch  string
	pickGood bool
}

// begin notes what is about to be run, such that a crash or hang of the real code
// is attributable.
func (rc *recorder) begin(c any) {
	lastBegin.Store(time.Now().UnixNano())
	if rc.cur != "" {
		if err := os.WriteFile(rc.cur, []byte(js(c)), 0o644); err != nil {
			fatal(err)
		}
	}
}

func (rc *recorder) emit(c any) {
	rc.count++
	rc.out.WriteString(js(c))
	rc.out.WriteByte('\n')
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness error:", err)
	os.Exit(3)
}

// guard runs f, turning a panic of the real code into a description.
func guard(f func()) (pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

type propDef struct {
	record func(rc *recorder)
	// one runs a single case again (its Obs is recomputed) and emits it.
	one func(rc *recorder, raw []byte)
}

var props = map[string]propDef{}

func main() {
	debug.SetMaxStack(512 << 20)
	defer func() {
		if r := recover(); r != nil { // the real code is only called under guard
			fmt.Fprintf(os.Stderr, "harness panic: %v\n%s", r, debug.Stack())
			os.Exit(3)
		}
	}()
	if len(os.Args) < 2 {
		fatal(fmt.Errorf("usage: drv record|one|..."))
	}
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "number of cases")
	shard := fs.Int("shard", 0, "shard")
	shards := fs.Int("shards", 1, "shards")
	out := fs.String("out", "", "output file")
	cur := fs.String("cur", "", "file holding the case being run")
	in := fs.String("in", "", "case file")
	stride := fs.Int("stride", 1, "replay one vector out of this many")
	scratch := fs.String("scratch", "", "scratch directory")
	fs.Parse(os.Args[2:])

	if os.Args[1] == "alone" {
		aloneMain()
		return
	}
	watch()
	rc := &recorder{prop: *prop, seed: *seed, n: *n, shard: *shard, shards: *shards, cur: *cur, scratch: *scratch}
	if *out != "" {
		f, err := os.Create(*out)
		if err != nil {
			fatal(err)
		}
		defer f.Close()
		rc.out = bufio.NewWriterSize(f, 1<<20)
		defer rc.out.Flush()
	}
	def, ok := props[*prop]
	if !ok {
		fatal(fmt.Errorf("unknown property %q", *prop))
	}
	switch os.Args[1] {
	case "record":
		def.record(rc)
	case "one":
		raw, err := os.ReadFile(*in)
		if err != nil {
			fatal(err)
		}
		def.one(rc, raw)
	case "vectors":
		replayVectors(rc, strings.Split(*in, ","), *stride, int(*seed))
		return
	default:
		fatal(fmt.Errorf("unknown command %q", os.Args[1]))
	}
	rc.out.Flush()
	fmt.Printf("{\"cases\":%d}\n", rc.count)
}

var lastBegin atomic.Int64

// watch ends the process when the real code spends too long on one case.
func watch() {
	limit, _ := strconv.Atoi(os.Getenv("VERIF_CASE_LIMIT"))
	if limit <= 0 {
		return
	}
	lastBegin.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			if time.Since(time.Unix(0, lastBegin.Load())) > time.Duration(limit)*time.Second {
				fmt.Fprintln(os.Stderr, "hang: a case takes too long")
				os.Exit(42)
			}
		}
	}()
}
