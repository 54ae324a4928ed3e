// Package uuid is a stand-in: it yields pairwise distinct identifiers from a
// counter instead of the random source.
package uuid

import "errors"

type UUID [16]byte

var Nil UUID
var next uint32

func New() UUID { return Must(NewRandom()) }
func NewRandom() (UUID, error) {
	next++
	var u UUID
	u[12], u[13], u[14], u[15] = byte(next>>24), byte(next>>16), byte(next>>8), byte(next)
	u[6], u[8] = 0x40, 0x80
	return u, nil
}
func NewUUID() (UUID, error) { return NewRandom() }
func NewString() string      { return New().String() }
func Must(u UUID, err error) UUID {
	if err != nil {
		panic(err)
	}
	return u
}

const hexd = "0123456789abcdef"

func (u UUID) String() string {
	var b [36]byte
	j := 0
	for i := 0; i < 16; i++ {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			b[j] = '-'
			j++
		}
		b[j], b[j+1] = hexd[u[i]>>4], hexd[u[i]&15]
		j += 2
	}
	return string(b[:])
}

func val(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	}
	return 0, false
}

func Parse(s string) (UUID, error) {
	var u UUID
	if len(s) != 36 {
		return u, errors.New("invalid UUID length")
	}
	j := 0
	for i := 0; i < 16; i++ {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			if s[j] != '-' {
				return u, errors.New("invalid UUID format")
			}
			j++
		}
		a, ok1 := val(s[j])
		b, ok2 := val(s[j+1])
		if !ok1 || !ok2 {
			return u, errors.New("invalid UUID format")
		}
		u[i] = a<<4 | b
		j += 2
	}
	return u, nil
}
func MustParse(s string) UUID               { return Must(Parse(s)) }
func (u UUID) MarshalText() ([]byte, error) { return []byte(u.String()), nil }
func (u *UUID) UnmarshalText(b []byte) error {
	v, err := Parse(string(b))
	if err == nil {
		*u = v
	}
	return err
}
