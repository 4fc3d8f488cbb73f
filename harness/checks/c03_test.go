package checks

import (
	"bytes"
	"io"
	"os"
	"path/filepath"
	"testing"

	"github.com/signintech/gopdf"
)

type outputMethod struct {
	name string
	args []int
}

func genOutput(c *Case) outputMethod {
	m := outputMethod{name: c.Pick("method", "WriteTo", "Write", "WritePdf", "GetBytesPdf", "GetBytesPdfReturnErr", "Read", "ReadPartly", "io.Copy")}
	for i, n := 0, 1+c.U(4, "nbuf"); i < n; i++ {
		m.args = append(m.args, pick(c, "buf", []int{1, 2, 7, 100, 511, 512, 513, 4096, 100000, 0}))
	}
	return m
}

// readState remembers whether a reading has begun that neither Close nor another output has ended.
type readState struct{ begun bool }

// open starts a reading from the beginning: after a reading only Close or another output does that.
func (r *readState) open(c *Case, p *gopdf.GoPdf) {
	if r.begun || c.Chance(40, "close") {
		p.Close()
	}
	r.begun = true
}

func (r *readState) close(c *Case, p *gopdf.GoPdf) {
	if c.Chance(50, "close") {
		p.Close()
		r.begun = false
	}
}

// get obtains the output; nil for a reading that was abandoned.
func (m outputMethod) get(c *Case, p *gopdf.GoPdf, r *readState) []byte {
	c.Helper()
	var b bytes.Buffer
	if m.name != "io.Copy" && m.name != "Read" && m.name != "ReadPartly" {
		r.begun = false
	}
	switch m.name {
	case "WriteTo":
		n, err := p.WriteTo(&b)
		if err != nil || n != int64(b.Len()) {
			c.Bad("WriteTo = %d, %v; the writer got %d bytes", n, err, b.Len())
		}
		return b.Bytes()
	case "Write":
		if err := p.Write(&b); err != nil {
			c.Bad("Write: %v", err)
		}
		return b.Bytes()
	case "WritePdf":
		f := filepath.Join(imgDir(), "out.pdf")
		os.WriteFile(f, bytes.Repeat([]byte("old contents "), m.args[0]), 0o644)
		if err := p.WritePdf(f); err != nil {
			c.Bad("WritePdf: %v", err)
		}
		return readFile(f)
	case "GetBytesPdf":
		return p.GetBytesPdf()
	case "GetBytesPdfReturnErr":
		o, err := p.GetBytesPdfReturnErr()
		if err != nil {
			c.Bad("GetBytesPdfReturnErr: %v", err)
		}
		return o
	case "io.Copy":
		r.open(c, p)
		// hides WriteTo, so that Read is used
		if _, err := io.Copy(&b, struct{ io.Reader }{p}); err != nil {
			c.Bad("io.Copy: %v", err)
		}
		r.close(c, p)
		return b.Bytes()
	}
	r.open(c, p)
	part := m.name == "ReadPartly"
	zero := 0
	for i := 0; ; i++ {
		sz := m.args[i%len(m.args)]
		if sz < 100 && i > 40 {
			sz = 2000 // one by one only for a while
		}
		buf := make([]byte, sz)
		n, err := p.Read(buf)
		b.Write(buf[:n])
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Bad("Read: %v", err)
		}
		if n == 0 && sz > 0 {
			if zero++; zero > 3 {
				c.Bad("Read returns nothing and no error")
			}
		}
		if part && i > 5 {
			r.close(c, p)
			return nil
		}
	}
	if n, err := p.Read(make([]byte, 10)); n != 0 || err != io.EOF {
		c.Bad("Read at the end returned %d, %v", n, err)
	}
	r.close(c, p)
	return b.Bytes()
}

func diffAt(a, b []byte) (int, string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s []byte) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return string(s[lo:hi])
	}
	return i, cut(a), cut(b)
}

func sameBytes(c *Case, what string, got, want []byte) {
	c.Helper()
	if !bytes.Equal(got, want) {
		i, x, y := diffAt(got, want)
		c.Bad("%s: %d against %d bytes, first difference at %d: %q against %q", what, len(got), len(want), i, x, y)
	}
}

func TestC03_Outputs(t *testing.T) {
	Run(t, Opt{Quick: 12000, Thorough: 1200000, Rule: "at least 5 operations, at least 2 outputs of which one before the last operation"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 25, imports: c.Chance(30, "imports"), protect: 30, units: true, hostile: true, container: true})
		outputs(c, pr, pick(c, "often", []int{0, 10, 30, 80}))
	})
}

// TestC03_Large does the same with files of up to some megabytes.
func TestC03_Large(t *testing.T) {
	Run(t, Opt{Quick: 160, Thorough: 8000, Rule: "at least 5 operations, at least 2 outputs of which one before the last operation"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 8, protect: 15, units: true})
		pr.pad(c, pick(c, "size", []int{32000, 65536, 131072, 524288, 1048576, 1500000, 2200000, 4300000})+c.U(3000, "more"))
		outputs(c, pr, pick(c, "often", []int{0, 10, 30}))
	})
}

// outputs interrupts a program by outputs and compares them.
func outputs(c *Case, pr *Prog, perOp int) {
	pr.log(c)
	// the same program, interrupted by outputs
	e := pr.cfg.start()
	e.fc = pr.container(c)
	type ret struct{ got, copy []byte }
	var rets []ret
	var rd readState
	early := 0
	for i, o := range pr.ops {
		o.Do(e)
		if c.Chance(perOp, "out") {
			m := genOutput(c)
			c.Log("after %d: %s%v", i, m.name, m.args)
			b := m.get(c, e.p, &rd)
			early++
			if b != nil {
				rets = append(rets, ret{b, append([]byte(nil), b...)})
			}
		}
	}
	last := 2 + c.U(3, "last")
	var ref []byte
	for i := 0; i < last; i++ {
		m := genOutput(c)
		c.Log("at the end: %s%v", m.name, m.args)
		b := m.get(c, e.p, &rd)
		if b == nil {
			continue
		}
		if ref == nil {
			ref = append([]byte(nil), b...)
		}
		sameBytes(c, m.name+" against an earlier output of the same document", b, ref)
		rets = append(rets, ret{b, append([]byte(nil), b...)})
	}
	if ref == nil {
		ref = output(c, e.p)
	}
	for _, r := range rets {
		sameBytes(c, "bytes returned earlier, after later calls", r.got, r.copy)
	}
	if !pr.hasImport {
		e2 := pr.build(c, nil)
		sameBytes(c, "the document built again, without outputs in between", output(c, e2.p), ref)
		for i := range e.lens {
			if e.lens[i] != e2.lens[i] {
				c.Bad("the outputs changed a returned length: %g against %g", e.lens[i], e2.lens[i])
			}
		}
		for i := range e.ret {
			if e.ret[i] != e2.ret[i] {
				c.Bad("the outputs changed the result of a call: %q against %q", e.ret[i], e2.ret[i])
			}
		}
	} else {
		// gofpdi writes dictionaries in random order: compare the documents
		e2 := pr.build(c, nil)
		d1 := decrypted(c, ref, pr.cfg.user)
		d2 := decrypted(c, output(c, e2.p), pr.cfg.user)
		if d := newCmp(d1, d2, 0).Diff("", d1.Trailer.Get("Root"), d2.Trailer.Get("Root")); d != "" {
			c.Bad("the document built again, without outputs in between, differs: %s", d)
		}
	}
	if len(pr.ops) >= 5 && early > 0 {
		c.Nontrivial()
	}
}
