package pdf

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
)

// Crypt is an independent Standard security handler, V1 R2 (40-bit RC4).
type Crypt struct {
	Key []byte
	P   int32
	O   []byte
	U   []byte
}

var pad = []byte{0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

func PadPass(p []byte) []byte {
	out := make([]byte, 0, 64)
	out = append(out, p...)
	out = append(out, pad...)
	return out[:32]
}

func rc4x(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

// EncryptDict reads the encryption dictionary.
func (d *Doc) EncryptDict() (*Crypt, int, error) {
	e := d.Trailer.Get("Encrypt")
	if e == nil {
		return nil, 0, fmt.Errorf("no /Encrypt in the trailer")
	}
	num := 0
	if r, ok := e.(Ref); ok {
		num = r.Num
	}
	ed := d.Dict(e)
	if ed == nil {
		return nil, 0, fmt.Errorf("/Encrypt does not resolve to a dictionary")
	}
	if d.NameOf(ed.Get("Filter")) != "Standard" {
		return nil, 0, fmt.Errorf("/Filter %v", ed.Get("Filter"))
	}
	v, _ := d.Int(ed.Get("V"))
	r, _ := d.Int(ed.Get("R"))
	if v != 1 || r != 2 {
		return nil, 0, fmt.Errorf("unsupported V %d R %d", v, r)
	}
	o, ok1 := d.Resolve(ed.Get("O")).(Str)
	u, ok2 := d.Resolve(ed.Get("U")).(Str)
	p, ok3 := d.Int(ed.Get("P"))
	if !ok1 || !ok2 || !ok3 || len(o) != 32 || len(u) != 32 {
		return nil, 0, fmt.Errorf("bad O/U/P (%d, %d bytes)", len(o), len(u))
	}
	if p > 1<<31-1 || p < -(1<<31) {
		return nil, 0, fmt.Errorf("/P %d is not a 32-bit integer", p)
	}
	return &Crypt{P: int32(p), O: o, U: u}, num, nil
}

func (d *Doc) FileID() []byte {
	a, ok := d.Arr(d.Trailer.Get("ID"))
	if !ok || len(a) == 0 {
		return nil
	}
	s, _ := d.Resolve(a[0]).(Str)
	return s
}

// userKey is algorithm 3.2.
func (c *Crypt) userKey(pass, id []byte) []byte {
	h := md5.New()
	h.Write(PadPass(pass))
	h.Write(c.O)
	p := uint32(c.P)
	h.Write([]byte{byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)})
	h.Write(id)
	return h.Sum(nil)[:5]
}

// TryUser authenticates the user password (algorithm 3.6).
func (c *Crypt) TryUser(pass, id []byte) bool {
	k := c.userKey(pass, id)
	if bytes.Equal(rc4x(k, pad), c.U) {
		c.Key = k
		return true
	}
	return false
}

// TryOwner authenticates the owner password (algorithm 3.7).
func (c *Crypt) TryOwner(pass, id []byte) bool {
	s := md5.Sum(PadPass(pass))
	user := rc4x(s[:5], c.O)
	return c.TryUser(user, id)
}

// Open authenticates; kind is "user", "owner" or "" when the password is wrong.
func (d *Doc) Open(pass []byte) (*Crypt, string, error) {
	c, _, err := d.EncryptDict()
	if err != nil {
		return nil, "", err
	}
	id := d.FileID()
	if c.TryUser(pass, id) {
		return c, "user", nil
	}
	if c.TryOwner(pass, id) {
		return c, "owner", nil
	}
	return c, "", nil
}

func (c *Crypt) ObjKey(num, gen int) []byte {
	h := md5.New()
	h.Write(c.Key)
	h.Write([]byte{byte(num), byte(num >> 8), byte(num >> 16), byte(gen), byte(gen >> 8)})
	n := len(c.Key) + 5
	if n > 16 {
		n = 16
	}
	return h.Sum(nil)[:n]
}

// DecryptAll returns a document whose strings and streams are decrypted
// (everything but the encryption dictionary itself and the file identifier).
func (d *Doc) DecryptAll(c *Crypt) (*Doc, error) {
	_, encNum, err := d.EncryptDict()
	if err != nil {
		return nil, err
	}
	out := &Doc{Data: d.Data, Objs: map[int]any{}, Offs: d.Offs, Order: d.Order, Trailer: d.Trailer, Size: d.Size, XrefOff: d.XrefOff, Version: d.Version}
	for n, o := range d.Objs {
		if n == encNum {
			out.Objs[n] = o
			continue
		}
		key := c.ObjKey(n, 0)
		out.Objs[n] = mapStrings(o, func(s []byte) []byte { return rc4x(key, s) })
	}
	return out, nil
}

func mapStrings(o any, f func([]byte) []byte) any {
	switch v := o.(type) {
	case Str:
		return Str(f(v))
	case Arr:
		out := make(Arr, len(v))
		for i := range v {
			out[i] = mapStrings(v[i], f)
		}
		return out
	case *Dict:
		nd := &Dict{Keys: v.Keys, M: map[Name]any{}}
		for k, x := range v.M {
			nd.M[k] = mapStrings(x, f)
		}
		return nd
	case *Stream:
		return &Stream{Dict: mapStrings(v.Dict, f).(*Dict), Raw: f(v.Raw)}
	}
	return o
}

// Strings calls f for every string inside o.
func Strings(o any, f func(Str)) {
	mapStrings(o, func(b []byte) []byte { f(Str(b)); return b })
}

// NewCrypt derives the handler's entries from the passwords (algorithms 3.2 to 3.4).
func NewCrypt(user, owner []byte, perm int32, id []byte) *Crypt {
	s := md5.Sum(PadPass(owner))
	c := &Crypt{P: perm, O: rc4x(s[:5], PadPass(user))}
	c.Key = c.userKey(user, id)
	c.U = rc4x(c.Key, pad)
	return c
}
