// Package main answers questions about oh's reader: one JSON request per line
// on stdin, one JSON reply per line on stdout. It is added to the module with
// go build -overlay, and uses only the interface the packages' own tests use.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/interface/literal"
	"github.com/michaelmacinnis/oh/internal/common/struct/token"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/reader"
	"github.com/michaelmacinnis/oh/internal/reader/lexer"
	"github.com/michaelmacinnis/oh/internal/reader/parser"
)

type request struct {
	Op     string   `json:"op"`
	Chunks []string `json:"chunks"` // base64
	Copies []int    `json:"copies"` // take a completion snapshot before scanning these chunks
}

type reply struct {
	Status string   `json:"status"` // done, incomplete, error, emits, tokens
	Error  string   `json:"error,omitempty"`
	Cmds   []string `json:"cmds"` // base64 of the literal form
	Bad    []string `json:"bad,omitempty"`
	At     []int    `json:"at"` // chunk during which each command was emitted
}

type eof struct{}

func lit(c cell.I) (s string, bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint(r)
		}
	}()

	if c == nil {
		return "", "nil command"
	}

	if hole(c, 0) {
		return literal.String(c), "command with a missing element"
	}

	return literal.String(c), ""
}

func hole(c cell.I, depth int) bool {
	for n := 0; ; n++ {
		if c == nil {
			return true
		}

		if !pair.Is(c) || c == pair.Null || depth > 1000 || n > 1000000 {
			return false
		}

		if hole(pair.Car(c), depth+1) {
			return true
		}

		c = pair.Cdr(c)
	}
}

// Parses chunks with the lexer and parser directly. Stops the parser by
// panicking in the token source when there is no more text.
func parse(chunks []string, copies map[int]bool) *reply {
	r := &reply{Cmds: []string{}, At: []int{}}

	size := 0
	for _, c := range chunks {
		size += len(c)
	}

	l := lexer.New("t")
	next := 0
	emits, tokens := 0, 0
	over := ""
	ended := false

	var p *parser.T

	p = parser.New(func(c cell.I) {
		emits++
		if emits > size+8 {
			over = "emits"
			panic(eof{})
		}

		s, bad := lit(c)
		if bad != "" {
			r.Bad = append(r.Bad, bad)
		}

		r.Cmds = append(r.Cmds, base64.StdEncoding.EncodeToString([]byte(s)))
		r.At = append(r.At, next-1)
	}, func() *token.T {
		tokens++
		if tokens > 8*size+64 {
			over = "tokens"
			panic(eof{})
		}

		t := l.Token()
		for t == nil {
			if next >= len(chunks) {
				ended = true
				panic(eof{})
			}

			if copies[next] {
				snapshot(l, p)
			}

			l.Scan(chunks[next])
			next++

			t = l.Token()
		}

		return t
	})

	err := p.Parse()

	switch {
	case over != "":
		r.Status = over
	case ended:
		r.Status = "incomplete"
		// Nothing pending is the same as complete.
	case err != nil:
		r.Status = "error"
		r.Error = err.Error()
	default:
		r.Status = "done"
	}

	return r
}

// What the line editor does when completing.
func snapshot(l *lexer.T, p *parser.T) {
	defer func() { _ = recover() }()

	lc := l.Copy()
	lc.Scan("echo (a {b 'c $x | < z")

	n := 0
	lp := p.Copy(func(_ cell.I) {
		n++
		if n > 1000 {
			panic("too many")
		}
	}, lc.Token)

	_ = lp.Parse()
	_ = lc.Expected()
	_ = lp.Current()
}

// Parses chunks with a reader.
func read(chunks []string) *reply {
	r := &reply{Cmds: []string{}, At: []int{}}
	rd := reader.New("t")
	r.Status = "incomplete"

	for i, s := range chunks {
		c, err := rd.Scan(s)
		if err != nil {
			r.Status = "error"
			r.Error = err.Error()

			return r
		}

		for ; c != nil; c = rd.Next() {
			s, bad := lit(c)
			if bad != "" {
				r.Bad = append(r.Bad, bad)
			}

			r.Cmds = append(r.Cmds, base64.StdEncoding.EncodeToString([]byte(s)))
			r.At = append(r.At, i)

			if len(r.Cmds) > 100000 {
				r.Status = "emits"

				return r
			}
		}
	}

	rd.Close()

	return r
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)

	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}

		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}

		chunks := make([]string, len(q.Chunks))
		for i, c := range q.Chunks {
			b, err := base64.StdEncoding.DecodeString(c)
			if err != nil {
				os.Exit(3)
			}

			chunks[i] = string(b)
		}

		copies := map[int]bool{}
		for _, c := range q.Copies {
			copies[c] = true
		}

		var r *reply

		switch q.Op {
		case "parse":
			r = parse(chunks, copies)
		case "read":
			r = read(chunks)
		}

		b, _ := json.Marshal(r)
		_, _ = out.Write(append(b, '\n'))
		_ = out.Flush()
	}
}
