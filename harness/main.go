package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sync"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness CMD ...")
		os.Exit(2)
	}
	initKeys()
	initParams()
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	in := fs.String("in", "", "input file")
	out := fs.String("out", "", "output file")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "number of cases")
	focus := fs.String("focus", "", "generator focus")
	_ = fs.Parse(os.Args[2:])
	switch cmd {
	case "params":
		dumpParams(*out)
	case "exec":
		recs := readRecs(*in)
		if *focus == "canon" { // lists sorted by identities the model does not know
			for _, r := range recs {
				r.normalize()
				newBinder(r).canon()
			}
		}
		executeAll(recs)
		writeRecs(*out, recs)
	case "gen":
		recs := generate(*focus, *seed, *n)
		executeAll(recs)
		writeRecs(*out, recs)
	default:
		if f, ok := commands[cmd]; ok {
			f(*in, *out, *focus, *seed, *n)
			return
		}
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

// commands of the other parts of the harness, registered in their init functions
var commands = map[string]func(in, out, focus string, seed int64, n int){}

func executeAll(recs []*Rec) {
	var wg sync.WaitGroup
	ch := make(chan *Rec)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := range ch {
				execute(r)
			}
		}()
	}
	for i, r := range recs {
		r.ID = i + 1
		ch <- r
	}
	close(ch)
	wg.Wait()
}

func readRecs(path string) (out []*Rec) {
	readLines(path, func(b []byte) {
		r := &Rec{}
		must(json.Unmarshal(b, r))
		out = append(out, r)
	})
	return
}

func readLines(path string, f func([]byte)) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
	must(sc.Err())
}

func writeRecs(path string, recs []*Rec) {
	vs := make([]any, len(recs))
	for i := range recs {
		vs[i] = recs[i]
	}
	writeLines(path, vs)
}

func writeLines(path string, vs []any) {
	fh, err := os.Create(path)
	must(err)
	w := bufio.NewWriterSize(fh, 1<<20)
	enc := json.NewEncoder(w)
	for _, v := range vs {
		must(enc.Encode(v))
	}
	must(w.Flush())
	must(fh.Close())
}
