// Package memio is a stand-in for vimagination.zapto.org/memio v1.0.0, which
// cannot be fetched in the sandbox: in-memory readers and writers.
package memio

import (
	"errors"
	"io"
	"unicode/utf8"
)

// Errors.
var (
	ErrClosed            = errors.New("operation not permitted when closed")
	ErrInvalidUnreadByte = errors.New("invalid UnreadByte, no bytes read")
)

// Buffer grants a byte slice very straightforward IO methods.
type Buffer []byte

// Read satisfies the io.Reader interface.
func (s *Buffer) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}

	if len(*s) == 0 {
		return 0, io.EOF
	}

	n := copy(p, *s)
	*s = (*s)[n:]

	return n, nil
}

// Write satisfies the io.Writer interface.
func (s *Buffer) Write(p []byte) (int, error) {
	*s = append(*s, p...)

	return len(p), nil
}

// WriteString writes a string to the buffer.
func (s *Buffer) WriteString(str string) (int, error) {
	*s = append(*s, str...)

	return len(str), nil
}

// WriteTo satisfies the io.WriterTo interface.
func (s *Buffer) WriteTo(w io.Writer) (int64, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}

	n, err := w.Write(*s)
	*s = (*s)[n:]

	return int64(n), err
}

// ReadFrom satisfies the io.ReaderFrom interface.
func (s *Buffer) ReadFrom(r io.Reader) (int64, error) {
	var n int64

	for {
		if len(*s) == cap(*s) {
			*s = append(*s, 0)[:len(*s)]
		}

		m, err := r.Read((*s)[len(*s):cap(*s)])
		*s = (*s)[:len(*s)+m]
		n += int64(m)

		if err != nil {
			if errors.Is(err, io.EOF) {
				return n, nil
			}

			return n, err
		}
	}
}

// ReadByte satisfies the io.ByteReader interface.
func (s *Buffer) ReadByte() (byte, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}

	b := (*s)[0]
	*s = (*s)[1:]

	return b, nil
}

// ReadRune satisfies the io.RuneReader interface.
func (s *Buffer) ReadRune() (rune, int, error) {
	if len(*s) == 0 {
		return 0, 0, io.EOF
	}

	r, n := utf8.DecodeRune(*s)
	*s = (*s)[n:]

	return r, n, nil
}

// WriteByte satisfies the io.ByteWriter interface.
func (s *Buffer) WriteByte(b byte) error {
	*s = append(*s, b)

	return nil
}

// Peek returns the next n bytes without advancing the buffer.
func (s *Buffer) Peek(n int) ([]byte, error) {
	if n > len(*s) {
		return *s, io.EOF
	}

	return (*s)[:n], nil
}

// Close satisfies the io.Closer interface.
func (s *Buffer) Close() error {
	*s = nil

	return nil
}

// ReadMem holds a byte slice for reading.
type ReadMem struct {
	data []byte
	pos  int64
}

// Open uses a byte slice for reading.
func Open(data []byte) *ReadMem {
	return &ReadMem{data: data}
}

// Read implements io.Reader.
func (b *ReadMem) Read(p []byte) (int, error) {
	n, err := b.ReadAt(p, b.pos)
	b.pos += int64(n)

	if n > 0 {
		err = nil
	}

	return n, err
}

// ReadAt implements io.ReaderAt.
func (b *ReadMem) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative position")
	}

	if off >= int64(len(b.data)) {
		return 0, io.EOF
	}

	n := copy(p, b.data[off:])
	if n < len(p) {
		return n, io.EOF
	}

	return n, nil
}

// Seek implements io.Seeker.
func (b *ReadMem) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += b.pos
	case io.SeekEnd:
		offset += int64(len(b.data))
	}

	if offset < 0 {
		return b.pos, errors.New("negative position")
	}

	b.pos = offset

	return offset, nil
}

// WriteMem holds a pointer to a byte slice for writing.
type WriteMem struct {
	data *[]byte
	pos  int64
}

// Create uses a byte slice for writing; it is truncated first.
func Create(data *[]byte) *WriteMem {
	*data = (*data)[:0]

	return &WriteMem{data: data}
}

// Write implements io.Writer.
func (b *WriteMem) Write(p []byte) (int, error) {
	n, err := b.WriteAt(p, b.pos)
	b.pos += int64(n)

	return n, err
}

// WriteAt implements io.WriterAt.
func (b *WriteMem) WriteAt(p []byte, off int64) (int, error) {
	end := int(off) + len(p)
	if end > len(*b.data) {
		*b.data = append(*b.data, make([]byte, end-len(*b.data))...)
	}

	return copy((*b.data)[off:], p), nil
}
