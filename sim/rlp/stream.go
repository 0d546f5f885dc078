//go:build go1.22

package main

import (
	"errors"
	"io"
	"math/big"
	"reflect"

	"flychain/zzverifsim/kit"
)

// The package the generated code is written for. It does not exist in this
// tree, so the harness brings one: rlpSource is what the generator and the
// type checker see of it, the types below are what the generated code runs on.
const rlpSource = `package rlp

import (
	"io"
	"math/big"
)

type Encoder interface{ EncodeRLP(io.Writer) error }
type Decoder interface{ DecodeRLP(*Stream) error }
type RawValue []byte
type Kind int8

const (
	Byte Kind = iota
	String
	List
)

var (
	EmptyString       []byte
	EmptyList         []byte
	ErrNegativeBigInt error
)

type EncoderBuffer struct{ w io.Writer }

func NewEncoderBuffer(w io.Writer) EncoderBuffer      { return EncoderBuffer{w} }
func (w EncoderBuffer) List() int                     { return 0 }
func (w EncoderBuffer) ListEnd(int)                   {}
func (w EncoderBuffer) Write(b []byte) (int, error)   { return 0, nil }
func (w EncoderBuffer) WriteBool(bool)                {}
func (w EncoderBuffer) WriteUint64(uint64)            {}
func (w EncoderBuffer) WriteString(string)            {}
func (w EncoderBuffer) WriteBytes([]byte)             {}
func (w EncoderBuffer) WriteBigInt(*big.Int)          {}
func (w EncoderBuffer) Flush() error                  { return nil }

type Stream struct{}

func (*Stream) Kind() (Kind, uint64, error)   { return 0, 0, nil }
func (*Stream) List() (uint64, error)         { return 0, nil }
func (*Stream) ListEnd() error                { return nil }
func (*Stream) MoreDataInList() bool          { return false }
func (*Stream) Bool() (bool, error)           { return false, nil }
func (*Stream) Uint8() (uint8, error)         { return 0, nil }
func (*Stream) Uint16() (uint16, error)       { return 0, nil }
func (*Stream) Uint32() (uint32, error)       { return 0, nil }
func (*Stream) Uint64() (uint64, error)       { return 0, nil }
func (*Stream) String() (string, error)       { return "", nil }
func (*Stream) Bytes() ([]byte, error)        { return nil, nil }
func (*Stream) ReadBytes([]byte) error        { return nil }
func (*Stream) BigInt() (*big.Int, error)     { return nil, nil }
func (*Stream) Raw() ([]byte, error)          { return nil, nil }
`

type kind int8

const (
	kByte kind = iota
	kString
	kList
)

var (
	errNegative = errors.New("rlp: cannot encode negative big.Int")
	errEOL      = errors.New("rlp: end of list")
	errMalform  = errors.New("rlp: malformed")
	errType     = errors.New("rlp: unexpected kind")
	errWriter   = errors.New("the writer failed")
	errReader   = errors.New("the reader failed")
	errCustom   = errors.New("the value refused to be encoded")
)

func header(b byte, n int) []byte {
	if n < 56 {
		return []byte{b + byte(n)}
	}
	l := big.NewInt(int64(n)).Bytes()
	return append([]byte{b + 55 + byte(len(l))}, l...)
}

func encBytes(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(header(0x80, len(b)), b...)
}

func encList(items []byte) []byte { return append(header(0xc0, len(items)), items...) }

func encUint(v uint64) []byte { return encBytes(new(big.Int).SetUint64(v).Bytes()) }

// encBuf collects what is encoded until it is flushed.
type encBuf struct {
	w     io.Writer
	b     []byte
	open  []int
	wrong string
}

func newEncBuf(w io.Writer) *encBuf { return &encBuf{w: w} }

func (e *encBuf) List() int { e.open = append(e.open, len(e.b)); return len(e.open) }
func (e *encBuf) ListEnd(n int) {
	if n != len(e.open) || n == 0 {
		e.wrong = "a list was ended that was not the innermost open one"
		return
	}
	at := e.open[n-1]
	e.open = e.open[:n-1]
	e.b = append(e.b[:at:at], encList(e.b[at:])...)
}
func (e *encBuf) Write(b []byte) (int, error) { e.b = append(e.b, b...); return len(b), nil }
func (e *encBuf) WriteBool(v bool) {
	if v {
		e.b = append(e.b, 1)
	} else {
		e.b = append(e.b, 0x80)
	}
}
func (e *encBuf) WriteUint64(v uint64)   { e.b = append(e.b, encUint(v)...) }
func (e *encBuf) WriteString(s string)   { e.b = append(e.b, encBytes([]byte(s))...) }
func (e *encBuf) WriteBytes(b []byte)    { e.b = append(e.b, encBytes(b)...) }
func (e *encBuf) WriteBigInt(n *big.Int) { e.b = append(e.b, encBytes(n.Bytes())...) }
func (e *encBuf) Flush() error {
	kit.Yield()
	if len(e.open) > 0 {
		e.wrong = "an unfinished list was flushed"
	}
	_, err := e.w.Write(e.b)
	e.b = nil
	return err
}

// stream reads values from a message.
type stream struct {
	b      []byte
	pos    int
	ends   []int
	failAt int // the reader fails when it gets here; -1: never
	lax    bool
}

func newStream(b []byte) *stream { return &stream{b: b, failAt: -1} }

func (s *stream) limit() int {
	if n := len(s.ends); n > 0 {
		return s.ends[n-1]
	}
	return len(s.b)
}

// head reads the header of the next value without consuming it.
func (s *stream) head() (k kind, hdr, size int, err error) {
	lim := s.limit()
	if s.pos >= lim {
		if len(s.ends) > 0 {
			return 0, 0, 0, errEOL
		}
		return 0, 0, 0, io.EOF
	}
	b := s.b[s.pos]
	long := func(n int) error {
		if s.pos+1+n > lim {
			return errMalform
		}
		for _, x := range s.b[s.pos+1 : s.pos+1+n] {
			if size > 1<<40 {
				return errMalform
			}
			size = size<<8 | int(x)
		}
		if s.b[s.pos+1] == 0 || size < 56 {
			return errMalform
		}
		hdr = 1 + n
		return nil
	}
	switch {
	case b < 0x80:
		k = kByte
	case b < 0xb8:
		k, hdr, size = kString, 1, int(b-0x80)
	case b < 0xc0:
		k, err = kString, long(int(b-0xb7))
	case b < 0xf8:
		k, hdr, size = kList, 1, int(b-0xc0)
	default:
		k, err = kList, long(int(b-0xf7))
	}
	if err == nil && (hdr+size > lim-s.pos) {
		err = errMalform
	}
	if err == nil && s.failAt >= 0 && s.pos+hdr+size > s.failAt && (k != kList || s.pos+hdr > s.failAt) {
		err = errReader
	}
	return
}

func (s *stream) Kind() (kind, uint64, error) {
	k, _, n, err := s.head()
	return k, uint64(n), err
}

// str reads a string.
func (s *stream) str() ([]byte, error) {
	k, h, n, err := s.head()
	switch {
	case err != nil:
		return nil, err
	case k == kList:
		return nil, errType
	case k == kByte:
		s.pos++
		return []byte{s.b[s.pos-1]}, nil
	}
	b := append([]byte(nil), s.b[s.pos+h:s.pos+h+n]...)
	if n == 1 && b[0] < 0x80 {
		return nil, errMalform
	}
	s.pos += h + n
	return b, nil
}

func (s *stream) num(bytes int) (*big.Int, error) {
	at := s.pos
	b, err := s.str()
	if err == nil && (len(b) > 0 && b[0] == 0 || bytes > 0 && len(b) > bytes) {
		s.pos = at
		err = errMalform
	}
	if err != nil {
		return nil, err
	}
	return new(big.Int).SetBytes(b), nil
}

func (s *stream) uint(bytes int) (uint64, error) {
	n, err := s.num(bytes)
	if err != nil {
		return 0, err
	}
	return n.Uint64(), nil
}

func (s *stream) List() (uint64, error) {
	kit.Yield()
	k, h, n, err := s.head()
	if err != nil {
		return 0, err
	}
	if k != kList {
		return 0, errType
	}
	s.pos += h
	s.ends = append(s.ends, s.pos+n)
	return uint64(n), nil
}

func (s *stream) ListEnd() error {
	if len(s.ends) == 0 || s.pos != s.limit() {
		return errMalform
	}
	s.ends = s.ends[:len(s.ends)-1]
	return nil
}

func (s *stream) MoreDataInList() bool { return len(s.ends) > 0 && s.pos < s.limit() }

func (s *stream) Bool() (bool, error) {
	n, err := s.uint(1)
	if err == nil && n > 1 {
		err = errMalform
	}
	return n == 1 && err == nil, err
}
func (s *stream) Uint8() (uint8, error)   { n, err := s.uint(1); return uint8(n), err }
func (s *stream) Uint16() (uint16, error) { n, err := s.uint(2); return uint16(n), err }
func (s *stream) Uint32() (uint32, error) { n, err := s.uint(4); return uint32(n), err }
func (s *stream) Uint64() (uint64, error) { return s.uint(8) }
func (s *stream) String() (string, error) { b, err := s.str(); return string(b), err }
func (s *stream) Bytes() ([]byte, error) {
	b, err := s.str()
	if err == nil && b == nil {
		b = []byte{}
	}
	return b, err
}
func (s *stream) BigInt() (*big.Int, error) { return s.num(0) }
func (s *stream) ReadBytes(dst []byte) error {
	at := s.pos
	b, err := s.str()
	if err == nil && len(b) != len(dst) {
		s.pos = at
		err = errMalform
	}
	copy(dst, b)
	return err
}
func (s *stream) Raw() ([]byte, error) {
	k, h, n, err := s.head()
	if err != nil {
		return nil, err
	}
	if k == kByte {
		n = 1
	}
	b := append([]byte(nil), s.b[s.pos:s.pos+h+n]...)
	s.pos += h + n
	return b, nil
}

// cust is a type of the user's with methods of its own: a number, written
// incremented by one.
type cust struct{ X uint64 }

var custType = reflect.TypeOf(cust{})

func (c *cust) EncodeRLP(w io.Writer) error {
	kit.Yield()
	if c == nil {
		_, err := w.Write([]byte{0xc0})
		return err
	}
	if c.X == 77 {
		return errCustom
	}
	_, err := w.Write(encUint(c.X + 1))
	return err
}

func (c *cust) DecodeRLP(s *stream) error {
	kit.Yield()
	v, err := s.Uint64()
	if err != nil {
		return err
	}
	if v == 0 {
		return errMalform
	}
	c.X = v - 1
	return nil
}
