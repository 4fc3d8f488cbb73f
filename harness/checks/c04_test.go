package checks

import (
	"bytes"
	"compress/zlib"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"syscall"
	"testing"
)

// faultWriter accepts bytes until its fault point.
type faultWriter struct {
	kind  string
	at    int // byte or call at which it fails
	b     bytes.Buffer
	calls int
	fired int
	err   error
}

// temporary is an error that says that it will go away.
type temporary struct{}

func (temporary) Error() string   { return "not now" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

var errFault = errors.New("the disk is full")

// faults are the errors of the destinations; some have a meaning to others.
var faults = []error{
	errFault, errFault, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress,
	os.ErrDeadlineExceeded, os.ErrClosed, temporary{}, fmt.Errorf("write: %w", temporary{}), context.Canceled, context.DeadlineExceeded,
	syscall.EAGAIN, syscall.EINTR, syscall.EPIPE, syscall.ENOSPC, &os.PathError{Op: "write", Path: "x", Err: syscall.EINTR}, &net.OpError{Op: "write", Err: temporary{}}, zlib.ErrHeader,
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	switch w.kind {
	case "never":
	case "bytes": // for good, after at bytes, the last call accepted in part
		if w.b.Len()+len(p) > w.at {
			n := w.at - w.b.Len()
			w.b.Write(p[:n])
			w.fired++
			return n, w.err
		}
	case "bytes-once": // temporarily
		if w.fired == 0 && w.b.Len()+len(p) > w.at {
			n := w.at - w.b.Len()
			w.b.Write(p[:n])
			w.fired++
			return n, w.err
		}
	case "call": // for good, nothing of that call accepted
		if w.calls > w.at {
			w.fired++
			return 0, w.err
		}
	case "call-once":
		if w.calls == w.at+1 {
			w.fired++
			return 0, w.err
		}
	case "all-but-error": // everything accepted, and an error
		if w.calls == w.at+1 {
			w.fired++
			w.b.Write(p)
			return len(p), w.err
		}
	case "short": // accepts less and does not say so
		if w.fired == 0 && w.b.Len()+len(p) > w.at {
			n := w.at - w.b.Len()
			w.b.Write(p[:n])
			w.fired++
			return n, nil
		}
	case "eof":
		if w.calls > w.at {
			w.fired++
			return 0, io.EOF
		}
	}
	return w.b.Write(p)
}

// checkFault writes the document to a failing destination.
func checkFault(c *Case, e *Env, full []byte, kind string, at int, dep bool, fault error) bool {
	w := &faultWriter{kind: kind, at: at, err: fault}
	var n int64
	var err error
	if dep {
		err = e.p.Write(w)
		n = int64(w.b.Len())
	} else {
		n, err = e.p.WriteTo(w)
	}
	if w.fired == 0 {
		if err != nil {
			c.Bad("%s (%v) at %d: error %v without a failure", kind, fault, at, err)
		}
		sameBytes(c, "output without a failure", w.b.Bytes(), full)
		return false
	}
	if err == nil {
		c.Bad("%s (%v) at %d: the destination failed (%d of %d bytes accepted) and no error was returned", kind, fault, at, w.b.Len(), len(full))
	}
	if n != int64(w.b.Len()) {
		c.Bad("%s (%v) at %d: the destination accepted %d bytes, %d reported", kind, fault, at, w.b.Len(), n)
	}
	return true
}

func TestC04_FailingDestination(t *testing.T) {
	Run(t, Opt{Quick: 1600, Thorough: 160000, Rule: "at least one failure in the middle of the output"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 12, imports: true, protect: 30, container: true})
		pr.log(c)
		e := pr.build(c, nil)
		count := &faultWriter{kind: "never"}
		if n, err := e.p.WriteTo(count); err != nil || n != int64(count.b.Len()) {
			c.Bad("WriteTo = %d, %v; %d bytes accepted", n, err, count.b.Len())
		}
		full := append([]byte(nil), count.b.Bytes()...)
		mid := 0
		fault := pick(c, "fault", faults)
		try := func(kind string, at int, dep bool) {
			if checkFault(c, e, full, kind, at, dep, fault) {
				mid++
			}
		}
		if c.Chance(15, "everycall") {
			// every write call of this document fails (of a document with
			// very many calls, the last hundred and every so manyth)
			k := c.Pick("ckind", "call", "call-once", "all-but-error", "eof")
			step := 1 + count.calls*count.calls/600000
			c.Log("%s at each of %d calls, step %d: %v", k, count.calls, step, fault)
			for i := c.U(step, "from"); i < count.calls; i++ {
				try(k, i, false)
				if i < count.calls-100 {
					i += step - 1
				}
			}
			c.Class("every call fails")
		}
		for i, n := 0, 3+c.U(12, "nfaults"); i < n; i++ {
			k := c.Pick("kind", "bytes", "bytes-once", "short", "call", "call-once", "all-but-error", "eof")
			at := 0
			if k == "call" || k == "call-once" || k == "all-but-error" || k == "eof" {
				at = c.U(count.calls, "call")
				if c.Chance(20, "end") {
					at = count.calls - 1 - c.U(6, "back")
				}
			} else {
				at = rapidInt(c, len(full)-1, "byte")
				if c.Chance(20, "end") {
					at = len(full) - 1 - c.U(60, "back")
				}
			}
			dep := c.Chance(20, "deprecated")
			fault = pick(c, "fault", faults)
			c.Log("%s at %d deprecated=%v: %v", k, at, dep, fault)
			try(k, at, dep)
			if c.Chance(30, "retry") {
				sameBytes(c, "output after a failed output", output(c, e.p), full)
			}
		}
		sameBytes(c, "output after failed outputs", output(c, e.p), full)
		if mid > 0 {
			c.Nontrivial()
		}
	})
}

func rapidInt(c *Case, n int, l string) int {
	if n <= 0 {
		return 0
	}
	if n < 60000 {
		return c.U(n+1, l)
	}
	return c.U(60000, l) * n / 60000
}

func TestC04_FailingFiles(t *testing.T) {
	Run(t, Opt{Quick: 80, Thorough: 2000, Rule: "every case"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 6, protect: 30})
		pr.log(c)
		e := pr.build(c, nil)
		full := output(c, e.p)
		missing := filepath.Join(imgDir(), "no", "such", fmt.Sprintf("dir%d", c.U(9, "d")), "x.pdf")
		if err := e.p.WritePdf(missing); err == nil {
			c.Bad("WritePdf to a folder that does not exist returned no error")
		}
		if err := e.p.WritePdf(imgDir()); err == nil {
			c.Bad("WritePdf to a folder returned no error")
		}
		if f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0); err == nil {
			n, err := e.p.WriteTo(f)
			f.Close()
			if err == nil || n != 0 {
				c.Bad("WriteTo(/dev/full) = %d, %v", n, err)
			}
			if err := e.p.WritePdf("/dev/full"); err == nil {
				c.Bad("WritePdf(/dev/full) returned no error")
			}
		}
		f, err := os.Create(filepath.Join(imgDir(), "closed"))
		if err != nil {
			c.Harness("%v", err)
		}
		f.Close()
		if n, err := e.p.WriteTo(f); err == nil || n != 0 {
			c.Bad("WriteTo(closed file) = %d, %v", n, err)
		}
		r, w := io.Pipe()
		at := rapidInt(c, len(full)-1, "at")
		c.Log("pipe closed after %d", at)
		got := make(chan int)
		go func() {
			n, _ := io.CopyN(io.Discard, r, int64(at))
			r.CloseWithError(errFault)
			got <- int(n)
		}()
		n, err := e.p.WriteTo(w)
		w.Close()
		acc := <-got
		if err == nil || n != int64(acc) {
			c.Bad("WriteTo(pipe whose reader took %d bytes) = %d, %v", acc, n, err)
		}
		sameBytes(c, "output after failed outputs", output(c, e.p), full)
		c.Nontrivial()
	})
}
