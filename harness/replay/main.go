// replay runs harnesses natively on concrete inputs, one JSON request per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif/harness/props"
	"verif/harness/sym"
)

type request struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
	Tier    int               `json:"tier"`
}

type response struct {
	Fails   []string `json:"fails"`
	Obs     []string `json:"obs"`
	Panic   string   `json:"panic,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Stopped bool     `json:"stopped,omitempty"`
	Hang    bool     `json:"hang,omitempty"`
}

func run(r request) (res response) {
	f, ok := props.All[r.Harness]
	if !ok {
		res.Panic = "no harness " + r.Harness
		return
	}
	sym.Begin(r.Inputs, r.Tier)
	defer func() {
		res.Fails, res.Obs = sym.End()
		if e := recover(); e != nil {
			if _, ok := e.(sym.Stopped); ok {
				res.Stopped = true
				return
			}
			res.Panic = fmt.Sprint(e)
			res.Stack = string(debug.Stack())
			res.Fails = append(res.Fails, "panic")
		}
	}()
	f()
	return
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := os.NewFile(3, "results")
	if len(os.Args) > 1 && os.Args[1] == "-stdout" {
		out = os.Stdout
	}
	enc := json.NewEncoder(out)
	for sc.Scan() {
		var r request
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		done := make(chan response, 1)
		go func() { done <- run(r) }()
		select {
		case res := <-done:
			enc.Encode(res)
		case <-time.After(20 * time.Second):
			enc.Encode(response{Hang: true, Fails: []string{"hang"}})
			os.Exit(3)
		}
	}
}
