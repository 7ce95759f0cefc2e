package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"time"
)

// An oracle query runs a small sequential program alone in a fresh process of
// the plain (not race-instrumented) binary: "what the same call returns when
// nothing else runs".

var (
	oracleBin   string
	oracleMemo  = map[string]*Result{}
	oracleCount int
	oracleNs    time.Duration
)

// oracleFailure: the oracle process gave no result on query q.
type oracleFailure struct {
	msg string
	q   *Case
}

func oracle(c *Case, env ...string) *Result {
	js, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	key := string(js) + fmt.Sprint(env)
	if r, ok := oracleMemo[key]; ok {
		return r
	}
	t0 := time.Now()
	cmd := osexec.Command(oracleBin, "oracle")
	cmd.Stdin = bytes.NewReader(js)
	cmd.Env = append(baseEnv(), env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	done := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Run()
	done.Stop()
	oracleCount++
	oracleNs += time.Since(t0)
	if err != nil {
		tail := errb.String()
		if len(tail) > 2000 {
			tail = tail[:2000]
		}
		panic(oracleFailure{fmt.Sprintf("oracle process: %v: %s", err, tail), c})
	}
	// the library may have written to the stream first: the result is after the mark
	b := out.Bytes()
	i := bytes.Index(b, []byte(mark))
	if i < 0 {
		panic(oracleFailure{"oracle process: no result", c})
	}
	r := &Result{}
	if err := gob.NewDecoder(bytes.NewReader(b[i+len(mark):])).Decode(r); err != nil {
		panic(oracleFailure{"oracle result: " + err.Error(), c})
	}
	if len(oracleMemo) > 3000 {
		oracleMemo = map[string]*Result{}
	}
	oracleMemo[key] = r
	return r
}

const mark = "\x00SIMRESULT\x00"

func baseEnv() []string {
	return []string{"PATH=" + os.Getenv("PATH"), "HOME=/tmp", "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=2500MiB", "GODEBUG=clobberfree=1", "GOTRACEBACK=single", "TZ=UTC", "MALLOC_ARENA_MAX=1"}
}

// oracleMain runs one case read from standard input.
func oracleMain() {
	var c Case
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	warm()
	r := exec(&c)
	r.Rec = nil
	var b bytes.Buffer
	b.WriteString(mark)
	if err := gob.NewEncoder(&b).Encode(r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	cflush()
	os.Stdout.Write(b.Bytes())
}

// alone runs the operations, in order, by themselves in a fresh process.
func alone(c *Case, ops ...Op) []Outcome {
	q := &Case{Prop: c.Prop, Seed: 1, Srcs: c.Srcs, Setup: ops}
	// keep only the sources that are used
	used := map[int]int{}
	q.Srcs = nil
	q.Setup = make([]Op, len(ops))
	for i, op := range ops {
		op.Abort, op.GC, op.GCEvery = 0, 0, 0
		if op.K == "parse" || op.K == "tok" {
			k, ok := used[op.M]
			if !ok {
				k = len(q.Srcs)
				used[op.M] = k
				q.Srcs = append(q.Srcs, c.Srcs[op.M])
			}
			op.M = k
		}
		q.Setup[i] = op
	}
	return oracle(q).Setup
}
