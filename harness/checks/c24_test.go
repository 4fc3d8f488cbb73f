package checks

import (
	"bytes"
	"fmt"
	"sync"
	"testing"

	"github.com/signintech/gopdf"
)

func genCommon(c *Case) []fontUse {
	var out []fontUse
	for i, n := 0, 1+c.U(3, "ncommon"); i < n; i++ {
		opt := gopdf.TtfOption{UseKerning: c.Bool("kern")}
		switch c.U(3, "subst") {
		case 1:
			opt.OnGlyphNotFoundSubstitute = func(r rune) rune { return '?' }
		case 2:
			opt.OnGlyphNotFoundSubstitute = func(r rune) rune { return rune('A' + r%26) }
		}
		plain := !opt.UseKerning && opt.OnGlyphNotFoundSubstitute == nil
		out = append(out, fontUse{fmt.Sprintf("S%d", i), c.U(4, "cfont"), opt, plain})
	}
	return out
}

func fill(c *Case, fc *gopdf.FontContainer, common []fontUse, how int) {
	for _, s := range common {
		opt := s.opt
		po := &opt
		if s.plain {
			po = nil
		}
		if err := addFont(fc, how, s.family, stdFonts()[s.font].data, po); err != nil {
			c.Bad("adding a font to a container: %v", err)
		}
	}
}

// do executes the program with a container, without ending the case.
func (pr *Prog) do(fc *gopdf.FontContainer, direct bool) *Env {
	return pr.doOn(&gopdf.GoPdf{}, fc, direct)
}

func (pr *Prog) doOn(p *gopdf.GoPdf, fc *gopdf.FontContainer, direct bool) *Env {
	e := pr.cfg.startOn(p)
	e.fc = fc
	e.direct = direct
	for _, o := range pr.ops {
		o.Do(e)
	}
	return e
}

func bytesOf(e *Env) ([]byte, error) {
	var b bytes.Buffer
	_, err := e.p.WriteTo(&b)
	return b.Bytes(), err
}

func TestC24_Independence(t *testing.T) {
	Run(t, Opt{Quick: 2400, Thorough: 240000, Rule: "at least two documents with at least 4 operations that take a font from the shared container"}, func(c *Case) {
		common := genCommon(c)
		n := 2 + c.U(3, "ndocs")
		var prs []*Prog
		for i := 0; i < n; i++ {
			pr := genProg(c, progOpt{ops: 16, protect: 20, units: true, common: common})
			if i > 0 && c.Chance(25, "same") {
				pr = prs[0]
			}
			c.Log("document %d:", i)
			pr.log(c)
			prs = append(prs, pr)
		}
		used := 0
		for _, pr := range prs {
			for _, o := range pr.ops {
				if len(pr.ops) >= 4 && bytes.HasPrefix([]byte(o.Desc), []byte("AddTTFFontFromFontContainer")) {
					used++
					break
				}
			}
		}
		// alone, with a container of its own
		var want [][]byte
		var wantRet []string
		var wantPages []int
		for i, pr := range prs {
			fc := &gopdf.FontContainer{}
			fill(c, fc, common, 0)
			e := pr.do(fc, false)
			b, err := bytesOf(e)
			if err != nil {
				c.Bad("writing document %d: %v", i, err)
			}
			want = append(want, b)
			wantPages = append(wantPages, e.p.GetNumberOfPages())
			wantRet = append(wantRet, fmt.Sprint(e.ret, e.lens))
			// a font from the container is the font loaded directly
			e2 := pr.do(nil, true)
			b2, err := bytesOf(e2)
			if err != nil {
				c.Bad("writing document %d: %v", i, err)
			}
			sameBytes(c, fmt.Sprintf("document %d with fonts loaded directly against fonts from a container", i), b2, b)
			if g := fmt.Sprint(e2.ret, e2.lens); g != wantRet[i] {
				c.Bad("document %d: calls return %s with fonts loaded directly, %s with fonts from a container", i, g, wantRet[i])
			}
		}
		// a value that has been used for one document is started again for another one
		if c.Bool("again") {
			p := &gopdf.GoPdf{}
			for k, m := 0, 2+c.U(2, "nagain"); k < m; k++ {
				i := c.U(n, "again")
				fc := &gopdf.FontContainer{}
				fill(c, fc, common, 0)
				p.AddHeader(nil)
				p.AddFooter(nil)
				e := prs[i].doOn(p, fc, false)
				pages := e.p.GetNumberOfPages()
				c.Log("started again for document %d", i)
				if c.Chance(30, "given up") {
					continue // given up before it is written
				}
				b, err := bytesOf(e)
				if err != nil {
					c.Bad("writing document %d in a value started again: %v", i, err)
				}
				sameBytes(c, fmt.Sprintf("document %d in a value that was used before against a new one", i), b, want[i])
				if g := fmt.Sprint(e.ret, e.lens); g != wantRet[i] {
					c.Bad("document %d: calls return %s in a value started again, %s in a new one", i, g, wantRet[i])
				}
				if pages != wantPages[i] {
					c.Bad("document %d: GetNumberOfPages is %d in a value started again, %d in a new one", i, pages, wantPages[i])
				}
			}
		}
		shared := &gopdf.FontContainer{}
		how := c.U(fontWays, "how")
		c.Log("the shared container is filled way %d", how)
		fill(c, shared, common, how)
		check := func(how string, es []*Env, outs [][]byte, errs []error) {
			for i := range es {
				if errs[i] != nil {
					c.Bad("%s: writing document %d: %v", how, i, errs[i])
				}
				sameBytes(c, fmt.Sprintf("%s: document %d against the document built alone", how, i), outs[i], want[i])
				if g := fmt.Sprint(es[i].ret, es[i].lens); g != wantRet[i] {
					c.Bad("%s: calls of document %d return %s, alone %s", how, i, g, wantRet[i])
				}
			}
		}
		es, outs, errs := make([]*Env, n), make([][]byte, n), make([]error, n)
		rounds := 1 + c.U(2, "rounds")
		for r := 0; r < rounds; r++ {
			if c.Bool("interleaved") {
				// one goroutine, calls interleaved
				pos := make([]int, n)
				for i, pr := range prs {
					es[i] = pr.cfg.start()
					es[i].fc = shared
				}
				var order []int
				for {
					var open []int
					for i, pr := range prs {
						if pos[i] < len(pr.ops) {
							open = append(open, i)
						}
					}
					if len(open) == 0 {
						break
					}
					i := open[c.U(len(open), "turn")]
					order = append(order, i)
					prs[i].ops[pos[i]].Do(es[i])
					pos[i]++
				}
				c.Log("interleaved: %v", order)
				for i := range es {
					outs[i], errs[i] = bytesOf(es[i])
				}
				check("interleaved", es, outs, errs)
				continue
			}
			c.Log("concurrent")
			var wg sync.WaitGroup
			gate := make(chan struct{})
			pan := make([]any, n)
			for i := range prs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() { pan[i] = recover() }()
					<-gate
					es[i] = prs[i].do(shared, false)
					outs[i], errs[i] = bytesOf(es[i])
				}(i)
			}
			close(gate)
			wg.Wait()
			for i, p := range pan {
				if p != nil {
					c.Bad("concurrent: document %d panicked: %v", i, p)
				}
			}
			check("concurrent", es, outs, errs)
		}
		if err := es[0].p.AddTTFFontFromFontContainer("no such family", shared); err == nil {
			c.Bad("a font the container lacks was not reported")
		}
		if used >= 2 {
			c.Nontrivial()
		}
	})
}
