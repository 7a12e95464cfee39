package mc

import (
	"fmt"
	"io"
	"strings"
)

// The standard streams. Input is what the harness types; output is kept and is no step.

var stdio struct {
	o        hobj
	in       []byte
	end      bool
	out, err strings.Builder
}

type stdinCond struct{}

func (stdinCond) ready(g *G) bool { return len(stdio.in) > 0 || stdio.end }

func resetStd() {
	stdio.o, stdio.in, stdio.end = hobj{}, nil, false
	stdio.out.Reset()
	stdio.err.Reset()
	Stdin.closed, ExitHook = false, nil
}

// StdinFeed adds to what the program can read from its standard input, StdinEnd ends it.
func StdinFeed(x string) {
	stdinStep(func() { stdio.in = append(stdio.in, x...) })
}

func StdinEnd() {
	stdinStep(func() { stdio.end = true })
}

func stdinStep(f func()) {
	if s != nil {
		if s.abort {
			return
		}
		s.point("type", nil)
		s.cur.write(&stdio.o, 0x901)
	}
	f()
}

// StdinNew starts the standard input anew, for another program.
func StdinNew() {
	stdinStep(func() { stdio.in, stdio.end = nil, false })
	Stdin.closed = false
}

// StdoutGet is everything written to the standard output so far, StderrGet to the standard
// error.
func StdoutGet() string {
	if s != nil && !s.abort {
		s.cur.read(&stdio.o, 0x902)
	}
	return stdio.out.String()
}

func StderrGet() string { return stdio.err.String() }

func (f *File) readStd(b []byte) (int, error) {
	if f != Stdin || s == nil {
		return 0, io.EOF
	}
	if s.abort {
		goexit()
	}
	if len(b) == 0 {
		return 0, nil
	}
	s.point("stdin", stdinCond{})
	s.cur.write(&stdio.o, 0x903)
	if len(stdio.in) == 0 {
		return 0, io.EOF
	}
	n := cp(b, stdio.in)
	stdio.in = stdio.in[n:]
	return n, nil
}

func (f *File) writeStd(b []byte) (int, error) {
	if s != nil && !s.abort {
		switch f {
		case Stdout:
			s.cur.write(&stdio.o, 0x904)
			stdio.out.Write(b)
		case Stderr:
			stdio.err.Write(b)
		}
	}
	return len(b), nil
}

func Print(a ...interface{}) (int, error)            { return fmt.Fprint(Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(Stdout, f, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(Stdout, a...) }
func Scan(a ...interface{}) (int, error)             { return fmt.Fscan(Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return fmt.Fscanf(Stdin, f, a...) }
func Scanln(a ...interface{}) (int, error)           { return fmt.Fscanln(Stdin, a...) }
