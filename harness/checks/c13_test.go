package checks

import (
	"bytes"
	"testing"

	"github.com/signintech/gopdf"

	"verif/pdf"
)

// pass draws a password of any bytes.
func (c *Case) pass(l string) []byte {
	n := pick(c, l+"#", []int{1, 2, 5, 8, 16, 31, 32, 33, 40})
	b := make([]byte, n)
	for i := range b {
		if c.Chance(20, l+"b") {
			b[i] = byte(c.U(256, l))
		} else {
			b[i] = byte(33 + c.U(90, l))
		}
	}
	return b
}

// spare returns a copy of b inside a bigger array whose other bytes are set,
// so that writes beyond the slice can be seen.
func spare(b []byte) ([]byte, func() bool) {
	if b == nil {
		return nil, func() bool { return true }
	}
	a := bytes.Repeat([]byte{0xEE}, len(b)+100)
	copy(a[10:], b)
	w := append([]byte(nil), a...)
	return a[10 : 10+len(b)], func() bool { return bytes.Equal(a, w) }
}

// samePass: the handler pads or cuts passwords to 32 bytes.
func samePass(a, b []byte) bool { return bytes.Equal(pdf.PadPass(a), pdf.PadPass(b)) }

func TestC13_Protection(t *testing.T) {
	Run(t, Opt{Quick: 10000, Thorough: 1000000, Rule: "at least 4 operations and at least 3 strings and 3 streams in the document"}, func(c *Case) {
		pr := genProg(c, progOpt{ops: 25, imports: c.Chance(30, "imports"), hostile: true, container: true})
		perm := 0
		for _, b := range []int{gopdf.PermissionsPrint, gopdf.PermissionsModify, gopdf.PermissionsCopy, gopdf.PermissionsAnnotForms} {
			if c.Bool("perm") {
				perm |= b
			}
		}
		if c.Chance(20, "reserved") {
			perm |= 64 * c.U(4, "reserved") // the reserved bits, which are set anyway
		}
		user := c.pass("user")
		if c.Chance(25, "nouser") {
			user = nil
		}
		owner := c.pass("owner")
		if c.Chance(15, "noowner") {
			owner = nil
		}
		if c.Chance(10, "same") {
			owner = user
		}
		pr.log(c)
		c.Log("user %q owner %q permissions %d", user, owner, perm)
		plain := pr.build(c, nil)
		a := output(c, plain.p)

		u2, uOK := spare(user)
		o2, oOK := spare(owner)
		pr.cfg.protect, pr.cfg.perm, pr.cfg.user, pr.cfg.owner = true, perm, u2, o2
		e := pr.build(c, nil)
		b := output(c, e.p)
		if !uOK() || !oOK() {
			c.Bad("the caller's passwords (or what follows them in memory) were modified")
		}
		da, err := pdf.Parse(a)
		if err != nil {
			c.Bad("the unprotected output does not parse: %v", err)
		}
		db, err := pdf.Parse(b)
		if err != nil {
			dump(b)
			c.Bad("the protected output does not parse: %v", err)
		}
		cr, encNum, err := db.EncryptDict()
		if err != nil {
			c.Bad("%v", err)
		}
		if got, want := uint32(cr.P), uint32(0xFFFFFFC0|uint32(perm)); got != want {
			c.Bad("permissions %d: /P is %d, want %d", perm, cr.P, int32(want))
		}
		nstr, nstm := 0, 0
		for n, o := range da.Objs {
			pdf.Strings(o, func(s pdf.Str) {
				if len(s) > 0 {
					nstr++
				}
			})
			if _, ok := o.(*pdf.Stream); ok {
				nstm++
			}
			_ = n
		}
		try := func(what string, p []byte) {
			k, kind, err := db.Open(p)
			if err != nil || kind == "" {
				c.Bad("the %s password %q does not open the document (%v)", what, p, err)
			}
			if what == "owner" {
				// the owner password gives the user password, and with it the key
				if !k.TryOwner(p, nil2id(db)) {
					c.Bad("the owner password %q is not accepted as owner password", p)
				}
			}
			dd, err := db.DecryptAll(k)
			if err != nil {
				c.Bad("does not decrypt: %v", err)
			}
			cmp := newCmp(da, dd, 0)
			for _, key := range []pdf.Name{"Root", "Info"} {
				if da.Trailer.Has(key) != dd.Trailer.Has(key) {
					c.Bad("trailer /%s in one of the documents only", key)
				}
				if d := cmp.Diff("/"+string(key), da.Trailer.Get(key), dd.Trailer.Get(key)); d != "" {
					dump(b)
					c.Bad("opened with the %s password the document differs from the unprotected one: %s", what, d)
				}
			}
			if !pr.hasImport {
				// objects are numbered alike: compare also those nothing refers to
				for n, o := range da.Objs {
					if d := newCmp(da, dd, 0).Diff("", o, dd.Objs[n]); d != "" {
						c.Bad("object %d: %s", n, d)
					}
				}
				if len(dd.Objs) != len(da.Objs)+1 {
					c.Bad("%d objects protected, %d unprotected", len(dd.Objs), len(da.Objs))
				}
			}
		}
		try("user", user)
		if len(owner) > 0 {
			try("owner", owner)
		}
		for i, n := 0, c.U(4, "nwrong"); i < n; i++ {
			w := c.pass("wrong")
			if c.Chance(40, "nearly") && len(user)+len(owner) > 0 {
				w = append([]byte(nil), user...)
				if len(w) == 0 || c.Bool("o") && len(owner) > 0 {
					w = append([]byte(nil), owner...)
				}
				switch c.U(3, "how") {
				case 0:
					w[len(w)-1] ^= 1
				case 1:
					w = w[:len(w)-1]
				case 2:
					w = append(w, 'x')
				}
			}
			if samePass(w, user) || samePass(w, owner) {
				continue
			}
			if _, kind, _ := db.Open(w); kind != "" {
				c.Bad("password %q opens the document (as %s)", w, kind)
			}
		}
		if len(user) > 0 {
			if _, kind, _ := db.Open(nil); kind != "" {
				c.Bad("the document opens without a password")
			}
		}
		// nothing in clear: a string or stream of some length must not appear
		// in the file (the encryption dictionary and the names aside)
		for n, o := range da.Objs {
			if st, ok := o.(*pdf.Stream); ok && len(st.Raw) >= 16 && bytes.Contains(b, st.Raw) {
				c.Bad("stream %d is in the protected file in clear", n)
			}
			pdf.Strings(o, func(s pdf.Str) {
				if len(s) >= 12 && !allZero(s) && bytes.Contains(b, s) {
					c.Bad("string %q of object %d is in the protected file in clear", s, n)
				}
			})
		}
		_ = encNum
		if len(pr.ops) >= 4 && nstr >= 3 && nstm >= 3 {
			c.Nontrivial()
		}
	})
}

// TestC13_Keys compares the keys of objects of any number with those of the
// standard security handler.
func TestC13_Keys(t *testing.T) {
	Run(t, Opt{Quick: 20000, Thorough: 2000000, Rule: "the object has a number of at least two bytes"}, func(c *Case) {
		perm := 4 * c.U(16, "perm")
		user, owner := c.pass("user"), c.pass("owner")
		if c.Chance(25, "nouser") {
			user = nil
		}
		c.Log("user %q owner %q permissions %d", user, owner, perm)
		var p gopdf.PDFProtection
		if err := p.SetProtection(perm, user, owner); err != nil {
			c.Bad("SetProtection: %v", err)
		}
		k := pdf.NewCrypt(user, owner, int32(uint32(0xFFFFFFC0|perm)), nil)
		for i, n := 0, 1+c.U(6, "n"); i < n; i++ {
			num := 1 + c.U(pick(c, "size", []int{200, 70000, 1 << 23}), "num")
			c.Log("object %d", num)
			if got, want := p.Objectkey(num), k.ObjKey(num, 0); !bytes.Equal(got, want) {
				c.Bad("the key of object %d is %x, not %x", num, got, want)
			}
			if num > 255 {
				c.Nontrivial()
			}
		}
	})
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != b[0] {
			return false
		}
	}
	return true
}

func nil2id(d *pdf.Doc) []byte { return d.FileID() }
