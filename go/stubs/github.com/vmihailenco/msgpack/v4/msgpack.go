// Package msgpack is a stand-in for what common/codec uses: scalars, bytes and
// the heads of arrays and maps.
package msgpack

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/vmihailenco/msgpack/v4/codes"
)

type Encoder struct {
	w io.Writer
}

func NewEncoder(w io.Writer) *Encoder { return &Encoder{w} }

func (e *Encoder) SortMapKeys(bool) *Encoder        { return e }
func (e *Encoder) UseCompactEncoding(bool) *Encoder { return e }
func (e *Encoder) StructAsArray(bool) *Encoder      { return e }

func (e *Encoder) put(b ...byte) error {
	_, err := e.w.Write(b)
	return err
}

func (e *Encoder) num(c byte, n int, v uint64) error {
	var b [9]byte
	b[0] = c
	for i := 0; i < n; i++ {
		b[n-i] = byte(v >> (8 * uint(i)))
	}
	return e.put(b[:n+1]...)
}

func (e *Encoder) EncodeNil() error { return e.put(0xc0) }

func (e *Encoder) EncodeArrayLen(n int) error {
	switch {
	case n < 16:
		return e.put(0x90 | byte(n))
	case n < 65536:
		return e.num(0xdc, 2, uint64(n))
	}
	return e.num(0xdd, 4, uint64(n))
}

func (e *Encoder) EncodeMapLen(n int) error {
	switch {
	case n < 16:
		return e.put(0x80 | byte(n))
	case n < 65536:
		return e.num(0xde, 2, uint64(n))
	}
	return e.num(0xdf, 4, uint64(n))
}

func (e *Encoder) EncodeBytes(b []byte) error {
	if b == nil {
		return e.EncodeNil()
	}
	var err error
	switch n := len(b); {
	case n < 256:
		err = e.num(0xc4, 1, uint64(n))
	case n < 65536:
		err = e.num(0xc5, 2, uint64(n))
	default:
		err = e.num(0xc6, 4, uint64(n))
	}
	if err != nil {
		return err
	}
	return e.put(b...)
}

func (e *Encoder) str(s string) error {
	var err error
	switch n := len(s); {
	case n < 32:
		err = e.put(0xa0 | byte(n))
	case n < 256:
		err = e.num(0xd9, 1, uint64(n))
	case n < 65536:
		err = e.num(0xda, 2, uint64(n))
	default:
		err = e.num(0xdb, 4, uint64(n))
	}
	if err != nil {
		return err
	}
	return e.put([]byte(s)...)
}

func (e *Encoder) uint(v uint64) error {
	switch {
	case v < 128:
		return e.put(byte(v))
	case v < 1<<8:
		return e.num(0xcc, 1, v)
	case v < 1<<16:
		return e.num(0xcd, 2, v)
	case v < 1<<32:
		return e.num(0xce, 4, v)
	}
	return e.num(0xcf, 8, v)
}

func (e *Encoder) int(v int64) error {
	switch {
	case v >= 0:
		return e.uint(uint64(v))
	case v >= -32:
		return e.put(byte(v))
	case v >= math.MinInt8:
		return e.num(0xd0, 1, uint64(v))
	case v >= math.MinInt16:
		return e.num(0xd1, 2, uint64(v))
	case v >= math.MinInt32:
		return e.num(0xd2, 4, uint64(v))
	}
	return e.num(0xd3, 8, uint64(v))
}

func (e *Encoder) EncodeValue(v reflect.Value) error {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return e.put(0xc3)
		}
		return e.put(0xc2)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return e.int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return e.uint(v.Uint())
	case reflect.String:
		return e.str(v.String())
	}
	return fmt.Errorf("msgpack: unsupported %s", v.Type())
}

type Unmarshaler interface {
	UnmarshalMsgpack([]byte) error
}

type Decoder struct {
	r   *bufio.Reader
	rec *bytes.Buffer
}

func NewDecoder(r io.Reader) *Decoder {
	if b, ok := r.(*bufio.Reader); ok {
		return &Decoder{r: b}
	}
	return &Decoder{r: bufio.NewReader(r)}
}

func (d *Decoder) PeekCode() (codes.Code, error) {
	b, err := d.r.Peek(1)
	if err != nil {
		return 0, err
	}
	return codes.Code(b[0]), nil
}

func (d *Decoder) byte() (byte, error) {
	b, err := d.r.ReadByte()
	if err == nil && d.rec != nil {
		d.rec.WriteByte(b)
	}
	return b, err
}

func (d *Decoder) read(n uint64) ([]byte, error) {
	if n == 0 {
		return []byte{}, nil
	}
	var b bytes.Buffer
	if m, err := io.CopyN(&b, d.r, int64(n)); err != nil {
		if err == io.EOF && m > 0 {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	if d.rec != nil {
		d.rec.Write(b.Bytes())
	}
	return b.Bytes(), nil
}

func (d *Decoder) num(n int) (uint64, error) {
	b, err := d.read(uint64(n))
	if err != nil {
		return 0, err
	}
	var x [8]byte
	copy(x[8-n:], b)
	return binary.BigEndian.Uint64(x[:]), nil
}

func (d *Decoder) DecodeNil() error {
	c, err := d.byte()
	if err == nil && c != 0xc0 {
		err = fmt.Errorf("msgpack: invalid code %x decoding nil", c)
	}
	return err
}

func (d *Decoder) head(fix byte, c16, c32 byte) (int, error) {
	c, err := d.byte()
	if err != nil {
		return 0, err
	}
	var n uint64
	switch {
	case c == 0xc0:
		return -1, nil
	case c&0xf0 == fix:
		n = uint64(c & 15)
	case c == c16:
		n, err = d.num(2)
	case c == c32:
		n, err = d.num(4)
	default:
		err = fmt.Errorf("msgpack: invalid code %x decoding a length", c)
	}
	return int(n), err
}

func (d *Decoder) DecodeArrayLen() (int, error) { return d.head(0x90, 0xdc, 0xdd) }

func (d *Decoder) DecodeMapLen() (int, error) { return d.head(0x80, 0xde, 0xdf) }

func (d *Decoder) blob(c byte) ([]byte, error) {
	var n uint64
	var err error
	switch {
	case c == 0xc0:
		return nil, nil
	case c&0xe0 == 0xa0:
		n = uint64(c & 31)
	case c == 0xc4 || c == 0xd9:
		n, err = d.num(1)
	case c == 0xc5 || c == 0xda:
		n, err = d.num(2)
	case c == 0xc6 || c == 0xdb:
		n, err = d.num(4)
	default:
		err = fmt.Errorf("msgpack: invalid code %x decoding bytes", c)
	}
	if err != nil {
		return nil, err
	}
	return d.read(n)
}

func (d *Decoder) DecodeBytes() ([]byte, error) {
	c, err := d.byte()
	if err != nil {
		return nil, err
	}
	return d.blob(c)
}

var errNotNumber = errors.New("msgpack: not a number")

func (d *Decoder) integer(c byte) (uint64, error) {
	switch {
	case c < 0x80 || c >= 0xe0:
		return uint64(int64(int8(c))), nil
	case c >= 0xcc && c <= 0xcf:
		return d.num(1 << (c - 0xcc))
	case c >= 0xd0 && c <= 0xd3:
		n := 1 << (c - 0xd0)
		v, err := d.num(n)
		s := uint(64 - 8*n)
		return uint64(int64(v<<s) >> s), err
	}
	return 0, errNotNumber
}

func (d *Decoder) DecodeValue(v reflect.Value) error {
	c, err := d.byte()
	if err != nil {
		return err
	}
	switch v.Kind() {
	case reflect.Bool:
		if c != 0xc2 && c != 0xc3 {
			return fmt.Errorf("msgpack: invalid code %x decoding bool", c)
		}
		v.SetBool(c == 0xc3)
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := d.integer(c)
		if err == nil {
			v.SetInt(int64(n))
		}
		return err
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := d.integer(c)
		if err == nil {
			v.SetUint(n)
		}
		return err
	case reflect.String:
		b, err := d.blob(c)
		if err == nil {
			v.SetString(string(b))
		}
		return err
	}
	return fmt.Errorf("msgpack: unsupported %s", v.Type())
}

func (d *Decoder) Skip() error {
	c, err := d.byte()
	if err != nil {
		return err
	}
	n := uint64(0)
	switch {
	case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
		return nil
	case c&0xf0 == 0x80:
		n = 2 * uint64(c&15)
	case c&0xf0 == 0x90:
		n = uint64(c & 15)
	case c == 0xca || c == 0xcb:
		_, err = d.read(4 << (c - 0xca))
		return err
	case c >= 0xcc && c <= 0xcf:
		_, err = d.read(1 << (c - 0xcc))
		return err
	case c >= 0xd0 && c <= 0xd3:
		_, err = d.read(1 << (c - 0xd0))
		return err
	case c == 0xdc || c == 0xdd:
		n, err = d.num(2 << (c - 0xdc))
	case c == 0xde || c == 0xdf:
		n, err = d.num(2 << (c - 0xde))
		n *= 2
	default:
		_, err = d.blob(c)
		return err
	}
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		if err := d.Skip(); err != nil {
			return err
		}
	}
	return nil
}

func (d *Decoder) Decode(o interface{}) error {
	u, ok := o.(Unmarshaler)
	if !ok {
		return fmt.Errorf("msgpack: unsupported %T", o)
	}
	d.rec = &bytes.Buffer{}
	err := d.Skip()
	b := d.rec.Bytes()
	d.rec = nil
	if err != nil {
		return err
	}
	return u.UnmarshalMsgpack(b)
}
