// Package byteio is a stand-in for vimagination.zapto.org/byteio v1.0.0, which
// cannot be fetched in the sandbox. It reproduces the documented behaviour of
// the endian readers and writers: fixed-size values are read with io.ReadFull
// semantics, and the Sticky variants remember the first error, after which
// reads return zero values and writes do nothing.
//
// Code generated by gen.py. DO NOT EDIT.
package byteio

import (
	"io"
	"math"
)

// EndianReader is the interface of the non-sticky readers.
type EndianReader interface {
	io.Reader
	ReadUint8() (uint8, int, error)
	ReadUint16() (uint16, int, error)
	ReadUint32() (uint32, int, error)
	ReadUint64() (uint64, int, error)
}

// EndianWriter is the interface of the non-sticky writers.
type EndianWriter interface {
	io.Writer
	WriteUint8(uint8) (int, error)
	WriteUint16(uint16) (int, error)
	WriteUint32(uint32) (int, error)
	WriteUint64(uint64) (int, error)
}

// StickyEndianReader is the interface of the sticky readers.
type StickyEndianReader interface {
	io.Reader
	ReadUint8() uint8
	ReadUint16() uint16
	ReadUint32() uint32
	ReadUint64() uint64
}

// StickyEndianWriter is the interface of the sticky writers.
type StickyEndianWriter interface {
	io.Writer
	WriteUint8(uint8)
	WriteUint16(uint16)
	WriteUint32(uint32)
	WriteUint64(uint64)
}

// BigEndianReader wraps a io.Reader to read integers.
type BigEndianReader struct {
	io.Reader
	buffer [8]byte
}

// StickyBigEndianReader wraps a io.Reader to read integers, storing the first error.
type StickyBigEndianReader struct {
	io.Reader
	buffer [8]byte
	Err    error
	Count  int64
}

// BigEndianWriter wraps a io.Writer to write integers.
type BigEndianWriter struct {
	io.Writer
	buffer [8]byte
}

// StickyBigEndianWriter wraps a io.Writer to write integers, storing the first error.
type StickyBigEndianWriter struct {
	io.Writer
	buffer [8]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (e *StickyBigEndianReader) Read(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}

// GetCount returns the number of bytes read.
func (e *StickyBigEndianReader) GetCount() int64 { return e.Count }

// GetError returns the stored error.
func (e *StickyBigEndianReader) GetError() error { return e.Err }

func (e *StickyBigEndianReader) fill(n int) bool {
	if e.Err != nil {
		return false
	}

	var m int

	m, e.Err = io.ReadFull(e.Reader, e.buffer[:n])
	e.Count += int64(m)

	return e.Err == nil
}

// Write implements io.Writer.
func (e *StickyBigEndianWriter) Write(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}

// GetCount returns the number of bytes written.
func (e *StickyBigEndianWriter) GetCount() int64 { return e.Count }

// GetError returns the stored error.
func (e *StickyBigEndianWriter) GetError() error { return e.Err }

func (e *StickyBigEndianWriter) flush(n int) {
	if e.Err != nil {
		return
	}

	var m int

	m, e.Err = e.Writer.Write(e.buffer[:n])
	e.Count += int64(m)
}

// ReadBool reads a boolean.
func (e *BigEndianReader) ReadBool() (bool, int, error) {
	v, n, err := e.ReadUint8()

	return v != 0, n, err
}

// ReadBool reads a boolean.
func (e *StickyBigEndianReader) ReadBool() bool { return e.ReadUint8() != 0 }

// WriteBool writes a boolean.
func (e *BigEndianWriter) WriteBool(b bool) (int, error) {
	if b {
		return e.WriteUint8(1)
	}

	return e.WriteUint8(0)
}

// WriteBool writes a boolean.
func (e *StickyBigEndianWriter) WriteBool(b bool) {
	if b {
		e.WriteUint8(1)
	} else {
		e.WriteUint8(0)
	}
}

// ReadBytes reads size bytes.
func (e *BigEndianReader) ReadBytes(size int) ([]byte, int, error) {
	p := make([]byte, size)
	n, err := io.ReadFull(e.Reader, p)

	return p[:n], n, err
}

// ReadBytes reads size bytes.
func (e *StickyBigEndianReader) ReadBytes(size int) []byte {
	if e.Err != nil {
		return nil
	}

	p := make([]byte, size)

	var n int

	n, e.Err = io.ReadFull(e.Reader, p)
	e.Count += int64(n)

	return p[:n]
}

// ReadString reads a string of the given size.
func (e *BigEndianReader) ReadString(size int) (string, int, error) {
	p, n, err := e.ReadBytes(size)

	return string(p), n, err
}

// ReadString reads a string of the given size.
func (e *StickyBigEndianReader) ReadString(size int) string { return string(e.ReadBytes(size)) }

// WriteBytes writes the bytes.
func (e *BigEndianWriter) WriteBytes(p []byte) (int, error) { return e.Writer.Write(p) }

// WriteBytes writes the bytes.
func (e *StickyBigEndianWriter) WriteBytes(p []byte) { e.Write(p) }

// WriteString writes the string.
func (e *BigEndianWriter) WriteString(s string) (int, error) { return io.WriteString(e.Writer, s) }

// WriteString writes the string.
func (e *StickyBigEndianWriter) WriteString(s string) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = io.WriteString(e.Writer, s)
	e.Count += int64(n)

	return n, e.Err
}

// ReadUint8 reads a 8 bit unsigned integer.
func (e *BigEndianReader) ReadUint8() (uint8, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:1])
	if err != nil {
		return 0, n, err
	}

	return uint8(e.buffer[0]), n, nil
}

// ReadInt8 reads a 8 bit signed integer.
func (e *BigEndianReader) ReadInt8() (int8, int, error) {
	v, n, err := e.ReadUint8()

	return int8(v), n, err
}

// ReadUint8 reads a 8 bit unsigned integer.
func (e *StickyBigEndianReader) ReadUint8() uint8 {
	if !e.fill(1) {
		return 0
	}

	return uint8(e.buffer[0])
}

// ReadInt8 reads a 8 bit signed integer.
func (e *StickyBigEndianReader) ReadInt8() int8 { return int8(e.ReadUint8()) }

// WriteUint8 writes a 8 bit unsigned integer.
func (e *BigEndianWriter) WriteUint8(v uint8) (int, error) {
	e.buffer[0] = byte(v)

	return e.Writer.Write(e.buffer[:1])
}

// WriteInt8 writes a 8 bit signed integer.
func (e *BigEndianWriter) WriteInt8(v int8) (int, error) { return e.WriteUint8(uint8(v)) }

// WriteUint8 writes a 8 bit unsigned integer.
func (e *StickyBigEndianWriter) WriteUint8(v uint8) {
	e.buffer[0] = byte(v)

	e.flush(1)
}

// WriteInt8 writes a 8 bit signed integer.
func (e *StickyBigEndianWriter) WriteInt8(v int8) { e.WriteUint8(uint8(v)) }

// ReadUint16 reads a 16 bit unsigned integer.
func (e *BigEndianReader) ReadUint16() (uint16, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:2])
	if err != nil {
		return 0, n, err
	}

	return uint16(e.buffer[0])<<8 | uint16(e.buffer[1]), n, nil
}

// ReadInt16 reads a 16 bit signed integer.
func (e *BigEndianReader) ReadInt16() (int16, int, error) {
	v, n, err := e.ReadUint16()

	return int16(v), n, err
}

// ReadUint16 reads a 16 bit unsigned integer.
func (e *StickyBigEndianReader) ReadUint16() uint16 {
	if !e.fill(2) {
		return 0
	}

	return uint16(e.buffer[0])<<8 | uint16(e.buffer[1])
}

// ReadInt16 reads a 16 bit signed integer.
func (e *StickyBigEndianReader) ReadInt16() int16 { return int16(e.ReadUint16()) }

// WriteUint16 writes a 16 bit unsigned integer.
func (e *BigEndianWriter) WriteUint16(v uint16) (int, error) {
	e.buffer[0] = byte(v >> 8)
	e.buffer[1] = byte(v)

	return e.Writer.Write(e.buffer[:2])
}

// WriteInt16 writes a 16 bit signed integer.
func (e *BigEndianWriter) WriteInt16(v int16) (int, error) { return e.WriteUint16(uint16(v)) }

// WriteUint16 writes a 16 bit unsigned integer.
func (e *StickyBigEndianWriter) WriteUint16(v uint16) {
	e.buffer[0] = byte(v >> 8)
	e.buffer[1] = byte(v)

	e.flush(2)
}

// WriteInt16 writes a 16 bit signed integer.
func (e *StickyBigEndianWriter) WriteInt16(v int16) { e.WriteUint16(uint16(v)) }

// ReadUint24 reads a 24 bit unsigned integer.
func (e *BigEndianReader) ReadUint24() (uint32, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:3])
	if err != nil {
		return 0, n, err
	}

	return uint32(e.buffer[0])<<16 | uint32(e.buffer[1])<<8 | uint32(e.buffer[2]), n, nil
}

// ReadInt24 reads a 24 bit signed integer.
func (e *BigEndianReader) ReadInt24() (int32, int, error) {
	v, n, err := e.ReadUint24()

	return int32(v<<8) >> 8, n, err
}

// ReadUint24 reads a 24 bit unsigned integer.
func (e *StickyBigEndianReader) ReadUint24() uint32 {
	if !e.fill(3) {
		return 0
	}

	return uint32(e.buffer[0])<<16 | uint32(e.buffer[1])<<8 | uint32(e.buffer[2])
}

// ReadInt24 reads a 24 bit signed integer.
func (e *StickyBigEndianReader) ReadInt24() int32 { return int32(e.ReadUint24()<<8) >> 8 }

// WriteUint24 writes a 24 bit unsigned integer.
func (e *BigEndianWriter) WriteUint24(v uint32) (int, error) {
	e.buffer[0] = byte(v >> 16)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v)

	return e.Writer.Write(e.buffer[:3])
}

// WriteInt24 writes a 24 bit signed integer.
func (e *BigEndianWriter) WriteInt24(v int32) (int, error) { return e.WriteUint24(uint32(v)) }

// WriteUint24 writes a 24 bit unsigned integer.
func (e *StickyBigEndianWriter) WriteUint24(v uint32) {
	e.buffer[0] = byte(v >> 16)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v)

	e.flush(3)
}

// WriteInt24 writes a 24 bit signed integer.
func (e *StickyBigEndianWriter) WriteInt24(v int32) { e.WriteUint24(uint32(v)) }

// ReadUint32 reads a 32 bit unsigned integer.
func (e *BigEndianReader) ReadUint32() (uint32, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:4])
	if err != nil {
		return 0, n, err
	}

	return uint32(e.buffer[0])<<24 | uint32(e.buffer[1])<<16 | uint32(e.buffer[2])<<8 | uint32(e.buffer[3]), n, nil
}

// ReadInt32 reads a 32 bit signed integer.
func (e *BigEndianReader) ReadInt32() (int32, int, error) {
	v, n, err := e.ReadUint32()

	return int32(v), n, err
}

// ReadUint32 reads a 32 bit unsigned integer.
func (e *StickyBigEndianReader) ReadUint32() uint32 {
	if !e.fill(4) {
		return 0
	}

	return uint32(e.buffer[0])<<24 | uint32(e.buffer[1])<<16 | uint32(e.buffer[2])<<8 | uint32(e.buffer[3])
}

// ReadInt32 reads a 32 bit signed integer.
func (e *StickyBigEndianReader) ReadInt32() int32 { return int32(e.ReadUint32()) }

// WriteUint32 writes a 32 bit unsigned integer.
func (e *BigEndianWriter) WriteUint32(v uint32) (int, error) {
	e.buffer[0] = byte(v >> 24)
	e.buffer[1] = byte(v >> 16)
	e.buffer[2] = byte(v >> 8)
	e.buffer[3] = byte(v)

	return e.Writer.Write(e.buffer[:4])
}

// WriteInt32 writes a 32 bit signed integer.
func (e *BigEndianWriter) WriteInt32(v int32) (int, error) { return e.WriteUint32(uint32(v)) }

// WriteUint32 writes a 32 bit unsigned integer.
func (e *StickyBigEndianWriter) WriteUint32(v uint32) {
	e.buffer[0] = byte(v >> 24)
	e.buffer[1] = byte(v >> 16)
	e.buffer[2] = byte(v >> 8)
	e.buffer[3] = byte(v)

	e.flush(4)
}

// WriteInt32 writes a 32 bit signed integer.
func (e *StickyBigEndianWriter) WriteInt32(v int32) { e.WriteUint32(uint32(v)) }

// ReadUint40 reads a 40 bit unsigned integer.
func (e *BigEndianReader) ReadUint40() (uint64, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:5])
	if err != nil {
		return 0, n, err
	}

	return uint64(e.buffer[0])<<32 | uint64(e.buffer[1])<<24 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<8 | uint64(e.buffer[4]), n, nil
}

// ReadInt40 reads a 40 bit signed integer.
func (e *BigEndianReader) ReadInt40() (int64, int, error) {
	v, n, err := e.ReadUint40()

	return int64(v<<24) >> 24, n, err
}

// ReadUint40 reads a 40 bit unsigned integer.
func (e *StickyBigEndianReader) ReadUint40() uint64 {
	if !e.fill(5) {
		return 0
	}

	return uint64(e.buffer[0])<<32 | uint64(e.buffer[1])<<24 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<8 | uint64(e.buffer[4])
}

// ReadInt40 reads a 40 bit signed integer.
func (e *StickyBigEndianReader) ReadInt40() int64 { return int64(e.ReadUint40()<<24) >> 24 }

// WriteUint40 writes a 40 bit unsigned integer.
func (e *BigEndianWriter) WriteUint40(v uint64) (int, error) {
	e.buffer[0] = byte(v >> 32)
	e.buffer[1] = byte(v >> 24)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 8)
	e.buffer[4] = byte(v)

	return e.Writer.Write(e.buffer[:5])
}

// WriteInt40 writes a 40 bit signed integer.
func (e *BigEndianWriter) WriteInt40(v int64) (int, error) { return e.WriteUint40(uint64(v)) }

// WriteUint40 writes a 40 bit unsigned integer.
func (e *StickyBigEndianWriter) WriteUint40(v uint64) {
	e.buffer[0] = byte(v >> 32)
	e.buffer[1] = byte(v >> 24)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 8)
	e.buffer[4] = byte(v)

	e.flush(5)
}

// WriteInt40 writes a 40 bit signed integer.
func (e *StickyBigEndianWriter) WriteInt40(v int64) { e.WriteUint40(uint64(v)) }

// ReadUint48 reads a 48 bit unsigned integer.
func (e *BigEndianReader) ReadUint48() (uint64, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:6])
	if err != nil {
		return 0, n, err
	}

	return uint64(e.buffer[0])<<40 | uint64(e.buffer[1])<<32 | uint64(e.buffer[2])<<24 | uint64(e.buffer[3])<<16 | uint64(e.buffer[4])<<8 | uint64(e.buffer[5]), n, nil
}

// ReadInt48 reads a 48 bit signed integer.
func (e *BigEndianReader) ReadInt48() (int64, int, error) {
	v, n, err := e.ReadUint48()

	return int64(v<<16) >> 16, n, err
}

// ReadUint48 reads a 48 bit unsigned integer.
func (e *StickyBigEndianReader) ReadUint48() uint64 {
	if !e.fill(6) {
		return 0
	}

	return uint64(e.buffer[0])<<40 | uint64(e.buffer[1])<<32 | uint64(e.buffer[2])<<24 | uint64(e.buffer[3])<<16 | uint64(e.buffer[4])<<8 | uint64(e.buffer[5])
}

// ReadInt48 reads a 48 bit signed integer.
func (e *StickyBigEndianReader) ReadInt48() int64 { return int64(e.ReadUint48()<<16) >> 16 }

// WriteUint48 writes a 48 bit unsigned integer.
func (e *BigEndianWriter) WriteUint48(v uint64) (int, error) {
	e.buffer[0] = byte(v >> 40)
	e.buffer[1] = byte(v >> 32)
	e.buffer[2] = byte(v >> 24)
	e.buffer[3] = byte(v >> 16)
	e.buffer[4] = byte(v >> 8)
	e.buffer[5] = byte(v)

	return e.Writer.Write(e.buffer[:6])
}

// WriteInt48 writes a 48 bit signed integer.
func (e *BigEndianWriter) WriteInt48(v int64) (int, error) { return e.WriteUint48(uint64(v)) }

// WriteUint48 writes a 48 bit unsigned integer.
func (e *StickyBigEndianWriter) WriteUint48(v uint64) {
	e.buffer[0] = byte(v >> 40)
	e.buffer[1] = byte(v >> 32)
	e.buffer[2] = byte(v >> 24)
	e.buffer[3] = byte(v >> 16)
	e.buffer[4] = byte(v >> 8)
	e.buffer[5] = byte(v)

	e.flush(6)
}

// WriteInt48 writes a 48 bit signed integer.
func (e *StickyBigEndianWriter) WriteInt48(v int64) { e.WriteUint48(uint64(v)) }

// ReadUint56 reads a 56 bit unsigned integer.
func (e *BigEndianReader) ReadUint56() (uint64, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:7])
	if err != nil {
		return 0, n, err
	}

	return uint64(e.buffer[0])<<48 | uint64(e.buffer[1])<<40 | uint64(e.buffer[2])<<32 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<16 | uint64(e.buffer[5])<<8 | uint64(e.buffer[6]), n, nil
}

// ReadInt56 reads a 56 bit signed integer.
func (e *BigEndianReader) ReadInt56() (int64, int, error) {
	v, n, err := e.ReadUint56()

	return int64(v<<8) >> 8, n, err
}

// ReadUint56 reads a 56 bit unsigned integer.
func (e *StickyBigEndianReader) ReadUint56() uint64 {
	if !e.fill(7) {
		return 0
	}

	return uint64(e.buffer[0])<<48 | uint64(e.buffer[1])<<40 | uint64(e.buffer[2])<<32 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<16 | uint64(e.buffer[5])<<8 | uint64(e.buffer[6])
}

// ReadInt56 reads a 56 bit signed integer.
func (e *StickyBigEndianReader) ReadInt56() int64 { return int64(e.ReadUint56()<<8) >> 8 }

// WriteUint56 writes a 56 bit unsigned integer.
func (e *BigEndianWriter) WriteUint56(v uint64) (int, error) {
	e.buffer[0] = byte(v >> 48)
	e.buffer[1] = byte(v >> 40)
	e.buffer[2] = byte(v >> 32)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 16)
	e.buffer[5] = byte(v >> 8)
	e.buffer[6] = byte(v)

	return e.Writer.Write(e.buffer[:7])
}

// WriteInt56 writes a 56 bit signed integer.
func (e *BigEndianWriter) WriteInt56(v int64) (int, error) { return e.WriteUint56(uint64(v)) }

// WriteUint56 writes a 56 bit unsigned integer.
func (e *StickyBigEndianWriter) WriteUint56(v uint64) {
	e.buffer[0] = byte(v >> 48)
	e.buffer[1] = byte(v >> 40)
	e.buffer[2] = byte(v >> 32)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 16)
	e.buffer[5] = byte(v >> 8)
	e.buffer[6] = byte(v)

	e.flush(7)
}

// WriteInt56 writes a 56 bit signed integer.
func (e *StickyBigEndianWriter) WriteInt56(v int64) { e.WriteUint56(uint64(v)) }

// ReadUint64 reads a 64 bit unsigned integer.
func (e *BigEndianReader) ReadUint64() (uint64, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:8])
	if err != nil {
		return 0, n, err
	}

	return uint64(e.buffer[0])<<56 | uint64(e.buffer[1])<<48 | uint64(e.buffer[2])<<40 | uint64(e.buffer[3])<<32 | uint64(e.buffer[4])<<24 | uint64(e.buffer[5])<<16 | uint64(e.buffer[6])<<8 | uint64(e.buffer[7]), n, nil
}

// ReadInt64 reads a 64 bit signed integer.
func (e *BigEndianReader) ReadInt64() (int64, int, error) {
	v, n, err := e.ReadUint64()

	return int64(v), n, err
}

// ReadUint64 reads a 64 bit unsigned integer.
func (e *StickyBigEndianReader) ReadUint64() uint64 {
	if !e.fill(8) {
		return 0
	}

	return uint64(e.buffer[0])<<56 | uint64(e.buffer[1])<<48 | uint64(e.buffer[2])<<40 | uint64(e.buffer[3])<<32 | uint64(e.buffer[4])<<24 | uint64(e.buffer[5])<<16 | uint64(e.buffer[6])<<8 | uint64(e.buffer[7])
}

// ReadInt64 reads a 64 bit signed integer.
func (e *StickyBigEndianReader) ReadInt64() int64 { return int64(e.ReadUint64()) }

// WriteUint64 writes a 64 bit unsigned integer.
func (e *BigEndianWriter) WriteUint64(v uint64) (int, error) {
	e.buffer[0] = byte(v >> 56)
	e.buffer[1] = byte(v >> 48)
	e.buffer[2] = byte(v >> 40)
	e.buffer[3] = byte(v >> 32)
	e.buffer[4] = byte(v >> 24)
	e.buffer[5] = byte(v >> 16)
	e.buffer[6] = byte(v >> 8)
	e.buffer[7] = byte(v)

	return e.Writer.Write(e.buffer[:8])
}

// WriteInt64 writes a 64 bit signed integer.
func (e *BigEndianWriter) WriteInt64(v int64) (int, error) { return e.WriteUint64(uint64(v)) }

// WriteUint64 writes a 64 bit unsigned integer.
func (e *StickyBigEndianWriter) WriteUint64(v uint64) {
	e.buffer[0] = byte(v >> 56)
	e.buffer[1] = byte(v >> 48)
	e.buffer[2] = byte(v >> 40)
	e.buffer[3] = byte(v >> 32)
	e.buffer[4] = byte(v >> 24)
	e.buffer[5] = byte(v >> 16)
	e.buffer[6] = byte(v >> 8)
	e.buffer[7] = byte(v)

	e.flush(8)
}

// WriteInt64 writes a 64 bit signed integer.
func (e *StickyBigEndianWriter) WriteInt64(v int64) { e.WriteUint64(uint64(v)) }

// ReadFloat32 reads a 32 bit float.
func (e *BigEndianReader) ReadFloat32() (float32, int, error) {
	v, n, err := e.ReadUint32()

	return math.Float32frombits(v), n, err
}

// ReadFloat32 reads a 32 bit float.
func (e *StickyBigEndianReader) ReadFloat32() float32 { return math.Float32frombits(e.ReadUint32()) }

// WriteFloat32 writes a 32 bit float.
func (e *BigEndianWriter) WriteFloat32(v float32) (int, error) {
	return e.WriteUint32(math.Float32bits(v))
}

// WriteFloat32 writes a 32 bit float.
func (e *StickyBigEndianWriter) WriteFloat32(v float32) { e.WriteUint32(math.Float32bits(v)) }

// ReadFloat64 reads a 64 bit float.
func (e *BigEndianReader) ReadFloat64() (float64, int, error) {
	v, n, err := e.ReadUint64()

	return math.Float64frombits(v), n, err
}

// ReadFloat64 reads a 64 bit float.
func (e *StickyBigEndianReader) ReadFloat64() float64 { return math.Float64frombits(e.ReadUint64()) }

// WriteFloat64 writes a 64 bit float.
func (e *BigEndianWriter) WriteFloat64(v float64) (int, error) {
	return e.WriteUint64(math.Float64bits(v))
}

// WriteFloat64 writes a 64 bit float.
func (e *StickyBigEndianWriter) WriteFloat64(v float64) { e.WriteUint64(math.Float64bits(v)) }

// ReadString8 reads a string prefixed with its length as a 8 bit integer.
func (e *BigEndianReader) ReadString8() (string, int, error) {
	l, n, err := e.ReadUint8()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString8 reads a string prefixed with its length as a 8 bit integer.
func (e *StickyBigEndianReader) ReadString8() string { return e.ReadString(int(e.ReadUint8())) }

// WriteString8 writes a string prefixed with its length as a 8 bit integer.
func (e *BigEndianWriter) WriteString8(s string) (int, error) {
	n, err := e.WriteUint8(uint8(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString8 writes a string prefixed with its length as a 8 bit integer.
func (e *StickyBigEndianWriter) WriteString8(s string) {
	e.WriteUint8(uint8(len(s)))
	e.WriteString(s)
}

// ReadString16 reads a string prefixed with its length as a 16 bit integer.
func (e *BigEndianReader) ReadString16() (string, int, error) {
	l, n, err := e.ReadUint16()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString16 reads a string prefixed with its length as a 16 bit integer.
func (e *StickyBigEndianReader) ReadString16() string { return e.ReadString(int(e.ReadUint16())) }

// WriteString16 writes a string prefixed with its length as a 16 bit integer.
func (e *BigEndianWriter) WriteString16(s string) (int, error) {
	n, err := e.WriteUint16(uint16(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString16 writes a string prefixed with its length as a 16 bit integer.
func (e *StickyBigEndianWriter) WriteString16(s string) {
	e.WriteUint16(uint16(len(s)))
	e.WriteString(s)
}

// ReadString24 reads a string prefixed with its length as a 24 bit integer.
func (e *BigEndianReader) ReadString24() (string, int, error) {
	l, n, err := e.ReadUint24()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString24 reads a string prefixed with its length as a 24 bit integer.
func (e *StickyBigEndianReader) ReadString24() string { return e.ReadString(int(e.ReadUint24())) }

// WriteString24 writes a string prefixed with its length as a 24 bit integer.
func (e *BigEndianWriter) WriteString24(s string) (int, error) {
	n, err := e.WriteUint24(uint32(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString24 writes a string prefixed with its length as a 24 bit integer.
func (e *StickyBigEndianWriter) WriteString24(s string) {
	e.WriteUint24(uint32(len(s)))
	e.WriteString(s)
}

// ReadString32 reads a string prefixed with its length as a 32 bit integer.
func (e *BigEndianReader) ReadString32() (string, int, error) {
	l, n, err := e.ReadUint32()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString32 reads a string prefixed with its length as a 32 bit integer.
func (e *StickyBigEndianReader) ReadString32() string { return e.ReadString(int(e.ReadUint32())) }

// WriteString32 writes a string prefixed with its length as a 32 bit integer.
func (e *BigEndianWriter) WriteString32(s string) (int, error) {
	n, err := e.WriteUint32(uint32(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString32 writes a string prefixed with its length as a 32 bit integer.
func (e *StickyBigEndianWriter) WriteString32(s string) {
	e.WriteUint32(uint32(len(s)))
	e.WriteString(s)
}

// ReadString40 reads a string prefixed with its length as a 40 bit integer.
func (e *BigEndianReader) ReadString40() (string, int, error) {
	l, n, err := e.ReadUint40()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString40 reads a string prefixed with its length as a 40 bit integer.
func (e *StickyBigEndianReader) ReadString40() string { return e.ReadString(int(e.ReadUint40())) }

// WriteString40 writes a string prefixed with its length as a 40 bit integer.
func (e *BigEndianWriter) WriteString40(s string) (int, error) {
	n, err := e.WriteUint40(uint64(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString40 writes a string prefixed with its length as a 40 bit integer.
func (e *StickyBigEndianWriter) WriteString40(s string) {
	e.WriteUint40(uint64(len(s)))
	e.WriteString(s)
}

// ReadString48 reads a string prefixed with its length as a 48 bit integer.
func (e *BigEndianReader) ReadString48() (string, int, error) {
	l, n, err := e.ReadUint48()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString48 reads a string prefixed with its length as a 48 bit integer.
func (e *StickyBigEndianReader) ReadString48() string { return e.ReadString(int(e.ReadUint48())) }

// WriteString48 writes a string prefixed with its length as a 48 bit integer.
func (e *BigEndianWriter) WriteString48(s string) (int, error) {
	n, err := e.WriteUint48(uint64(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString48 writes a string prefixed with its length as a 48 bit integer.
func (e *StickyBigEndianWriter) WriteString48(s string) {
	e.WriteUint48(uint64(len(s)))
	e.WriteString(s)
}

// ReadString56 reads a string prefixed with its length as a 56 bit integer.
func (e *BigEndianReader) ReadString56() (string, int, error) {
	l, n, err := e.ReadUint56()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString56 reads a string prefixed with its length as a 56 bit integer.
func (e *StickyBigEndianReader) ReadString56() string { return e.ReadString(int(e.ReadUint56())) }

// WriteString56 writes a string prefixed with its length as a 56 bit integer.
func (e *BigEndianWriter) WriteString56(s string) (int, error) {
	n, err := e.WriteUint56(uint64(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString56 writes a string prefixed with its length as a 56 bit integer.
func (e *StickyBigEndianWriter) WriteString56(s string) {
	e.WriteUint56(uint64(len(s)))
	e.WriteString(s)
}

// ReadString64 reads a string prefixed with its length as a 64 bit integer.
func (e *BigEndianReader) ReadString64() (string, int, error) {
	l, n, err := e.ReadUint64()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString64 reads a string prefixed with its length as a 64 bit integer.
func (e *StickyBigEndianReader) ReadString64() string { return e.ReadString(int(e.ReadUint64())) }

// WriteString64 writes a string prefixed with its length as a 64 bit integer.
func (e *BigEndianWriter) WriteString64(s string) (int, error) {
	n, err := e.WriteUint64(uint64(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString64 writes a string prefixed with its length as a 64 bit integer.
func (e *StickyBigEndianWriter) WriteString64(s string) {
	e.WriteUint64(uint64(len(s)))
	e.WriteString(s)
}

// LittleEndianReader wraps a io.Reader to read integers.
type LittleEndianReader struct {
	io.Reader
	buffer [8]byte
}

// StickyLittleEndianReader wraps a io.Reader to read integers, storing the first error.
type StickyLittleEndianReader struct {
	io.Reader
	buffer [8]byte
	Err    error
	Count  int64
}

// LittleEndianWriter wraps a io.Writer to write integers.
type LittleEndianWriter struct {
	io.Writer
	buffer [8]byte
}

// StickyLittleEndianWriter wraps a io.Writer to write integers, storing the first error.
type StickyLittleEndianWriter struct {
	io.Writer
	buffer [8]byte
	Err    error
	Count  int64
}

// Read implements io.Reader.
func (e *StickyLittleEndianReader) Read(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}

// GetCount returns the number of bytes read.
func (e *StickyLittleEndianReader) GetCount() int64 { return e.Count }

// GetError returns the stored error.
func (e *StickyLittleEndianReader) GetError() error { return e.Err }

func (e *StickyLittleEndianReader) fill(n int) bool {
	if e.Err != nil {
		return false
	}

	var m int

	m, e.Err = io.ReadFull(e.Reader, e.buffer[:n])
	e.Count += int64(m)

	return e.Err == nil
}

// Write implements io.Writer.
func (e *StickyLittleEndianWriter) Write(p []byte) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}

// GetCount returns the number of bytes written.
func (e *StickyLittleEndianWriter) GetCount() int64 { return e.Count }

// GetError returns the stored error.
func (e *StickyLittleEndianWriter) GetError() error { return e.Err }

func (e *StickyLittleEndianWriter) flush(n int) {
	if e.Err != nil {
		return
	}

	var m int

	m, e.Err = e.Writer.Write(e.buffer[:n])
	e.Count += int64(m)
}

// ReadBool reads a boolean.
func (e *LittleEndianReader) ReadBool() (bool, int, error) {
	v, n, err := e.ReadUint8()

	return v != 0, n, err
}

// ReadBool reads a boolean.
func (e *StickyLittleEndianReader) ReadBool() bool { return e.ReadUint8() != 0 }

// WriteBool writes a boolean.
func (e *LittleEndianWriter) WriteBool(b bool) (int, error) {
	if b {
		return e.WriteUint8(1)
	}

	return e.WriteUint8(0)
}

// WriteBool writes a boolean.
func (e *StickyLittleEndianWriter) WriteBool(b bool) {
	if b {
		e.WriteUint8(1)
	} else {
		e.WriteUint8(0)
	}
}

// ReadBytes reads size bytes.
func (e *LittleEndianReader) ReadBytes(size int) ([]byte, int, error) {
	p := make([]byte, size)
	n, err := io.ReadFull(e.Reader, p)

	return p[:n], n, err
}

// ReadBytes reads size bytes.
func (e *StickyLittleEndianReader) ReadBytes(size int) []byte {
	if e.Err != nil {
		return nil
	}

	p := make([]byte, size)

	var n int

	n, e.Err = io.ReadFull(e.Reader, p)
	e.Count += int64(n)

	return p[:n]
}

// ReadString reads a string of the given size.
func (e *LittleEndianReader) ReadString(size int) (string, int, error) {
	p, n, err := e.ReadBytes(size)

	return string(p), n, err
}

// ReadString reads a string of the given size.
func (e *StickyLittleEndianReader) ReadString(size int) string { return string(e.ReadBytes(size)) }

// WriteBytes writes the bytes.
func (e *LittleEndianWriter) WriteBytes(p []byte) (int, error) { return e.Writer.Write(p) }

// WriteBytes writes the bytes.
func (e *StickyLittleEndianWriter) WriteBytes(p []byte) { e.Write(p) }

// WriteString writes the string.
func (e *LittleEndianWriter) WriteString(s string) (int, error) { return io.WriteString(e.Writer, s) }

// WriteString writes the string.
func (e *StickyLittleEndianWriter) WriteString(s string) (int, error) {
	if e.Err != nil {
		return 0, e.Err
	}

	var n int

	n, e.Err = io.WriteString(e.Writer, s)
	e.Count += int64(n)

	return n, e.Err
}

// ReadUint8 reads a 8 bit unsigned integer.
func (e *LittleEndianReader) ReadUint8() (uint8, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:1])
	if err != nil {
		return 0, n, err
	}

	return uint8(e.buffer[0]), n, nil
}

// ReadInt8 reads a 8 bit signed integer.
func (e *LittleEndianReader) ReadInt8() (int8, int, error) {
	v, n, err := e.ReadUint8()

	return int8(v), n, err
}

// ReadUint8 reads a 8 bit unsigned integer.
func (e *StickyLittleEndianReader) ReadUint8() uint8 {
	if !e.fill(1) {
		return 0
	}

	return uint8(e.buffer[0])
}

// ReadInt8 reads a 8 bit signed integer.
func (e *StickyLittleEndianReader) ReadInt8() int8 { return int8(e.ReadUint8()) }

// WriteUint8 writes a 8 bit unsigned integer.
func (e *LittleEndianWriter) WriteUint8(v uint8) (int, error) {
	e.buffer[0] = byte(v)

	return e.Writer.Write(e.buffer[:1])
}

// WriteInt8 writes a 8 bit signed integer.
func (e *LittleEndianWriter) WriteInt8(v int8) (int, error) { return e.WriteUint8(uint8(v)) }

// WriteUint8 writes a 8 bit unsigned integer.
func (e *StickyLittleEndianWriter) WriteUint8(v uint8) {
	e.buffer[0] = byte(v)

	e.flush(1)
}

// WriteInt8 writes a 8 bit signed integer.
func (e *StickyLittleEndianWriter) WriteInt8(v int8) { e.WriteUint8(uint8(v)) }

// ReadUint16 reads a 16 bit unsigned integer.
func (e *LittleEndianReader) ReadUint16() (uint16, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:2])
	if err != nil {
		return 0, n, err
	}

	return uint16(e.buffer[0]) | uint16(e.buffer[1])<<8, n, nil
}

// ReadInt16 reads a 16 bit signed integer.
func (e *LittleEndianReader) ReadInt16() (int16, int, error) {
	v, n, err := e.ReadUint16()

	return int16(v), n, err
}

// ReadUint16 reads a 16 bit unsigned integer.
func (e *StickyLittleEndianReader) ReadUint16() uint16 {
	if !e.fill(2) {
		return 0
	}

	return uint16(e.buffer[0]) | uint16(e.buffer[1])<<8
}

// ReadInt16 reads a 16 bit signed integer.
func (e *StickyLittleEndianReader) ReadInt16() int16 { return int16(e.ReadUint16()) }

// WriteUint16 writes a 16 bit unsigned integer.
func (e *LittleEndianWriter) WriteUint16(v uint16) (int, error) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)

	return e.Writer.Write(e.buffer[:2])
}

// WriteInt16 writes a 16 bit signed integer.
func (e *LittleEndianWriter) WriteInt16(v int16) (int, error) { return e.WriteUint16(uint16(v)) }

// WriteUint16 writes a 16 bit unsigned integer.
func (e *StickyLittleEndianWriter) WriteUint16(v uint16) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)

	e.flush(2)
}

// WriteInt16 writes a 16 bit signed integer.
func (e *StickyLittleEndianWriter) WriteInt16(v int16) { e.WriteUint16(uint16(v)) }

// ReadUint24 reads a 24 bit unsigned integer.
func (e *LittleEndianReader) ReadUint24() (uint32, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:3])
	if err != nil {
		return 0, n, err
	}

	return uint32(e.buffer[0]) | uint32(e.buffer[1])<<8 | uint32(e.buffer[2])<<16, n, nil
}

// ReadInt24 reads a 24 bit signed integer.
func (e *LittleEndianReader) ReadInt24() (int32, int, error) {
	v, n, err := e.ReadUint24()

	return int32(v<<8) >> 8, n, err
}

// ReadUint24 reads a 24 bit unsigned integer.
func (e *StickyLittleEndianReader) ReadUint24() uint32 {
	if !e.fill(3) {
		return 0
	}

	return uint32(e.buffer[0]) | uint32(e.buffer[1])<<8 | uint32(e.buffer[2])<<16
}

// ReadInt24 reads a 24 bit signed integer.
func (e *StickyLittleEndianReader) ReadInt24() int32 { return int32(e.ReadUint24()<<8) >> 8 }

// WriteUint24 writes a 24 bit unsigned integer.
func (e *LittleEndianWriter) WriteUint24(v uint32) (int, error) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)

	return e.Writer.Write(e.buffer[:3])
}

// WriteInt24 writes a 24 bit signed integer.
func (e *LittleEndianWriter) WriteInt24(v int32) (int, error) { return e.WriteUint24(uint32(v)) }

// WriteUint24 writes a 24 bit unsigned integer.
func (e *StickyLittleEndianWriter) WriteUint24(v uint32) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)

	e.flush(3)
}

// WriteInt24 writes a 24 bit signed integer.
func (e *StickyLittleEndianWriter) WriteInt24(v int32) { e.WriteUint24(uint32(v)) }

// ReadUint32 reads a 32 bit unsigned integer.
func (e *LittleEndianReader) ReadUint32() (uint32, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:4])
	if err != nil {
		return 0, n, err
	}

	return uint32(e.buffer[0]) | uint32(e.buffer[1])<<8 | uint32(e.buffer[2])<<16 | uint32(e.buffer[3])<<24, n, nil
}

// ReadInt32 reads a 32 bit signed integer.
func (e *LittleEndianReader) ReadInt32() (int32, int, error) {
	v, n, err := e.ReadUint32()

	return int32(v), n, err
}

// ReadUint32 reads a 32 bit unsigned integer.
func (e *StickyLittleEndianReader) ReadUint32() uint32 {
	if !e.fill(4) {
		return 0
	}

	return uint32(e.buffer[0]) | uint32(e.buffer[1])<<8 | uint32(e.buffer[2])<<16 | uint32(e.buffer[3])<<24
}

// ReadInt32 reads a 32 bit signed integer.
func (e *StickyLittleEndianReader) ReadInt32() int32 { return int32(e.ReadUint32()) }

// WriteUint32 writes a 32 bit unsigned integer.
func (e *LittleEndianWriter) WriteUint32(v uint32) (int, error) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)

	return e.Writer.Write(e.buffer[:4])
}

// WriteInt32 writes a 32 bit signed integer.
func (e *LittleEndianWriter) WriteInt32(v int32) (int, error) { return e.WriteUint32(uint32(v)) }

// WriteUint32 writes a 32 bit unsigned integer.
func (e *StickyLittleEndianWriter) WriteUint32(v uint32) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)

	e.flush(4)
}

// WriteInt32 writes a 32 bit signed integer.
func (e *StickyLittleEndianWriter) WriteInt32(v int32) { e.WriteUint32(uint32(v)) }

// ReadUint40 reads a 40 bit unsigned integer.
func (e *LittleEndianReader) ReadUint40() (uint64, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:5])
	if err != nil {
		return 0, n, err
	}

	return uint64(e.buffer[0]) | uint64(e.buffer[1])<<8 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<32, n, nil
}

// ReadInt40 reads a 40 bit signed integer.
func (e *LittleEndianReader) ReadInt40() (int64, int, error) {
	v, n, err := e.ReadUint40()

	return int64(v<<24) >> 24, n, err
}

// ReadUint40 reads a 40 bit unsigned integer.
func (e *StickyLittleEndianReader) ReadUint40() uint64 {
	if !e.fill(5) {
		return 0
	}

	return uint64(e.buffer[0]) | uint64(e.buffer[1])<<8 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<32
}

// ReadInt40 reads a 40 bit signed integer.
func (e *StickyLittleEndianReader) ReadInt40() int64 { return int64(e.ReadUint40()<<24) >> 24 }

// WriteUint40 writes a 40 bit unsigned integer.
func (e *LittleEndianWriter) WriteUint40(v uint64) (int, error) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 32)

	return e.Writer.Write(e.buffer[:5])
}

// WriteInt40 writes a 40 bit signed integer.
func (e *LittleEndianWriter) WriteInt40(v int64) (int, error) { return e.WriteUint40(uint64(v)) }

// WriteUint40 writes a 40 bit unsigned integer.
func (e *StickyLittleEndianWriter) WriteUint40(v uint64) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 32)

	e.flush(5)
}

// WriteInt40 writes a 40 bit signed integer.
func (e *StickyLittleEndianWriter) WriteInt40(v int64) { e.WriteUint40(uint64(v)) }

// ReadUint48 reads a 48 bit unsigned integer.
func (e *LittleEndianReader) ReadUint48() (uint64, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:6])
	if err != nil {
		return 0, n, err
	}

	return uint64(e.buffer[0]) | uint64(e.buffer[1])<<8 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<32 | uint64(e.buffer[5])<<40, n, nil
}

// ReadInt48 reads a 48 bit signed integer.
func (e *LittleEndianReader) ReadInt48() (int64, int, error) {
	v, n, err := e.ReadUint48()

	return int64(v<<16) >> 16, n, err
}

// ReadUint48 reads a 48 bit unsigned integer.
func (e *StickyLittleEndianReader) ReadUint48() uint64 {
	if !e.fill(6) {
		return 0
	}

	return uint64(e.buffer[0]) | uint64(e.buffer[1])<<8 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<32 | uint64(e.buffer[5])<<40
}

// ReadInt48 reads a 48 bit signed integer.
func (e *StickyLittleEndianReader) ReadInt48() int64 { return int64(e.ReadUint48()<<16) >> 16 }

// WriteUint48 writes a 48 bit unsigned integer.
func (e *LittleEndianWriter) WriteUint48(v uint64) (int, error) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 32)
	e.buffer[5] = byte(v >> 40)

	return e.Writer.Write(e.buffer[:6])
}

// WriteInt48 writes a 48 bit signed integer.
func (e *LittleEndianWriter) WriteInt48(v int64) (int, error) { return e.WriteUint48(uint64(v)) }

// WriteUint48 writes a 48 bit unsigned integer.
func (e *StickyLittleEndianWriter) WriteUint48(v uint64) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 32)
	e.buffer[5] = byte(v >> 40)

	e.flush(6)
}

// WriteInt48 writes a 48 bit signed integer.
func (e *StickyLittleEndianWriter) WriteInt48(v int64) { e.WriteUint48(uint64(v)) }

// ReadUint56 reads a 56 bit unsigned integer.
func (e *LittleEndianReader) ReadUint56() (uint64, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:7])
	if err != nil {
		return 0, n, err
	}

	return uint64(e.buffer[0]) | uint64(e.buffer[1])<<8 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<32 | uint64(e.buffer[5])<<40 | uint64(e.buffer[6])<<48, n, nil
}

// ReadInt56 reads a 56 bit signed integer.
func (e *LittleEndianReader) ReadInt56() (int64, int, error) {
	v, n, err := e.ReadUint56()

	return int64(v<<8) >> 8, n, err
}

// ReadUint56 reads a 56 bit unsigned integer.
func (e *StickyLittleEndianReader) ReadUint56() uint64 {
	if !e.fill(7) {
		return 0
	}

	return uint64(e.buffer[0]) | uint64(e.buffer[1])<<8 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<32 | uint64(e.buffer[5])<<40 | uint64(e.buffer[6])<<48
}

// ReadInt56 reads a 56 bit signed integer.
func (e *StickyLittleEndianReader) ReadInt56() int64 { return int64(e.ReadUint56()<<8) >> 8 }

// WriteUint56 writes a 56 bit unsigned integer.
func (e *LittleEndianWriter) WriteUint56(v uint64) (int, error) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 32)
	e.buffer[5] = byte(v >> 40)
	e.buffer[6] = byte(v >> 48)

	return e.Writer.Write(e.buffer[:7])
}

// WriteInt56 writes a 56 bit signed integer.
func (e *LittleEndianWriter) WriteInt56(v int64) (int, error) { return e.WriteUint56(uint64(v)) }

// WriteUint56 writes a 56 bit unsigned integer.
func (e *StickyLittleEndianWriter) WriteUint56(v uint64) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 32)
	e.buffer[5] = byte(v >> 40)
	e.buffer[6] = byte(v >> 48)

	e.flush(7)
}

// WriteInt56 writes a 56 bit signed integer.
func (e *StickyLittleEndianWriter) WriteInt56(v int64) { e.WriteUint56(uint64(v)) }

// ReadUint64 reads a 64 bit unsigned integer.
func (e *LittleEndianReader) ReadUint64() (uint64, int, error) {
	n, err := io.ReadFull(e.Reader, e.buffer[:8])
	if err != nil {
		return 0, n, err
	}

	return uint64(e.buffer[0]) | uint64(e.buffer[1])<<8 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<32 | uint64(e.buffer[5])<<40 | uint64(e.buffer[6])<<48 | uint64(e.buffer[7])<<56, n, nil
}

// ReadInt64 reads a 64 bit signed integer.
func (e *LittleEndianReader) ReadInt64() (int64, int, error) {
	v, n, err := e.ReadUint64()

	return int64(v), n, err
}

// ReadUint64 reads a 64 bit unsigned integer.
func (e *StickyLittleEndianReader) ReadUint64() uint64 {
	if !e.fill(8) {
		return 0
	}

	return uint64(e.buffer[0]) | uint64(e.buffer[1])<<8 | uint64(e.buffer[2])<<16 | uint64(e.buffer[3])<<24 | uint64(e.buffer[4])<<32 | uint64(e.buffer[5])<<40 | uint64(e.buffer[6])<<48 | uint64(e.buffer[7])<<56
}

// ReadInt64 reads a 64 bit signed integer.
func (e *StickyLittleEndianReader) ReadInt64() int64 { return int64(e.ReadUint64()) }

// WriteUint64 writes a 64 bit unsigned integer.
func (e *LittleEndianWriter) WriteUint64(v uint64) (int, error) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 32)
	e.buffer[5] = byte(v >> 40)
	e.buffer[6] = byte(v >> 48)
	e.buffer[7] = byte(v >> 56)

	return e.Writer.Write(e.buffer[:8])
}

// WriteInt64 writes a 64 bit signed integer.
func (e *LittleEndianWriter) WriteInt64(v int64) (int, error) { return e.WriteUint64(uint64(v)) }

// WriteUint64 writes a 64 bit unsigned integer.
func (e *StickyLittleEndianWriter) WriteUint64(v uint64) {
	e.buffer[0] = byte(v)
	e.buffer[1] = byte(v >> 8)
	e.buffer[2] = byte(v >> 16)
	e.buffer[3] = byte(v >> 24)
	e.buffer[4] = byte(v >> 32)
	e.buffer[5] = byte(v >> 40)
	e.buffer[6] = byte(v >> 48)
	e.buffer[7] = byte(v >> 56)

	e.flush(8)
}

// WriteInt64 writes a 64 bit signed integer.
func (e *StickyLittleEndianWriter) WriteInt64(v int64) { e.WriteUint64(uint64(v)) }

// ReadFloat32 reads a 32 bit float.
func (e *LittleEndianReader) ReadFloat32() (float32, int, error) {
	v, n, err := e.ReadUint32()

	return math.Float32frombits(v), n, err
}

// ReadFloat32 reads a 32 bit float.
func (e *StickyLittleEndianReader) ReadFloat32() float32 { return math.Float32frombits(e.ReadUint32()) }

// WriteFloat32 writes a 32 bit float.
func (e *LittleEndianWriter) WriteFloat32(v float32) (int, error) {
	return e.WriteUint32(math.Float32bits(v))
}

// WriteFloat32 writes a 32 bit float.
func (e *StickyLittleEndianWriter) WriteFloat32(v float32) { e.WriteUint32(math.Float32bits(v)) }

// ReadFloat64 reads a 64 bit float.
func (e *LittleEndianReader) ReadFloat64() (float64, int, error) {
	v, n, err := e.ReadUint64()

	return math.Float64frombits(v), n, err
}

// ReadFloat64 reads a 64 bit float.
func (e *StickyLittleEndianReader) ReadFloat64() float64 { return math.Float64frombits(e.ReadUint64()) }

// WriteFloat64 writes a 64 bit float.
func (e *LittleEndianWriter) WriteFloat64(v float64) (int, error) {
	return e.WriteUint64(math.Float64bits(v))
}

// WriteFloat64 writes a 64 bit float.
func (e *StickyLittleEndianWriter) WriteFloat64(v float64) { e.WriteUint64(math.Float64bits(v)) }

// ReadString8 reads a string prefixed with its length as a 8 bit integer.
func (e *LittleEndianReader) ReadString8() (string, int, error) {
	l, n, err := e.ReadUint8()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString8 reads a string prefixed with its length as a 8 bit integer.
func (e *StickyLittleEndianReader) ReadString8() string { return e.ReadString(int(e.ReadUint8())) }

// WriteString8 writes a string prefixed with its length as a 8 bit integer.
func (e *LittleEndianWriter) WriteString8(s string) (int, error) {
	n, err := e.WriteUint8(uint8(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString8 writes a string prefixed with its length as a 8 bit integer.
func (e *StickyLittleEndianWriter) WriteString8(s string) {
	e.WriteUint8(uint8(len(s)))
	e.WriteString(s)
}

// ReadString16 reads a string prefixed with its length as a 16 bit integer.
func (e *LittleEndianReader) ReadString16() (string, int, error) {
	l, n, err := e.ReadUint16()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString16 reads a string prefixed with its length as a 16 bit integer.
func (e *StickyLittleEndianReader) ReadString16() string { return e.ReadString(int(e.ReadUint16())) }

// WriteString16 writes a string prefixed with its length as a 16 bit integer.
func (e *LittleEndianWriter) WriteString16(s string) (int, error) {
	n, err := e.WriteUint16(uint16(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString16 writes a string prefixed with its length as a 16 bit integer.
func (e *StickyLittleEndianWriter) WriteString16(s string) {
	e.WriteUint16(uint16(len(s)))
	e.WriteString(s)
}

// ReadString24 reads a string prefixed with its length as a 24 bit integer.
func (e *LittleEndianReader) ReadString24() (string, int, error) {
	l, n, err := e.ReadUint24()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString24 reads a string prefixed with its length as a 24 bit integer.
func (e *StickyLittleEndianReader) ReadString24() string { return e.ReadString(int(e.ReadUint24())) }

// WriteString24 writes a string prefixed with its length as a 24 bit integer.
func (e *LittleEndianWriter) WriteString24(s string) (int, error) {
	n, err := e.WriteUint24(uint32(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString24 writes a string prefixed with its length as a 24 bit integer.
func (e *StickyLittleEndianWriter) WriteString24(s string) {
	e.WriteUint24(uint32(len(s)))
	e.WriteString(s)
}

// ReadString32 reads a string prefixed with its length as a 32 bit integer.
func (e *LittleEndianReader) ReadString32() (string, int, error) {
	l, n, err := e.ReadUint32()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString32 reads a string prefixed with its length as a 32 bit integer.
func (e *StickyLittleEndianReader) ReadString32() string { return e.ReadString(int(e.ReadUint32())) }

// WriteString32 writes a string prefixed with its length as a 32 bit integer.
func (e *LittleEndianWriter) WriteString32(s string) (int, error) {
	n, err := e.WriteUint32(uint32(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString32 writes a string prefixed with its length as a 32 bit integer.
func (e *StickyLittleEndianWriter) WriteString32(s string) {
	e.WriteUint32(uint32(len(s)))
	e.WriteString(s)
}

// ReadString40 reads a string prefixed with its length as a 40 bit integer.
func (e *LittleEndianReader) ReadString40() (string, int, error) {
	l, n, err := e.ReadUint40()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString40 reads a string prefixed with its length as a 40 bit integer.
func (e *StickyLittleEndianReader) ReadString40() string { return e.ReadString(int(e.ReadUint40())) }

// WriteString40 writes a string prefixed with its length as a 40 bit integer.
func (e *LittleEndianWriter) WriteString40(s string) (int, error) {
	n, err := e.WriteUint40(uint64(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString40 writes a string prefixed with its length as a 40 bit integer.
func (e *StickyLittleEndianWriter) WriteString40(s string) {
	e.WriteUint40(uint64(len(s)))
	e.WriteString(s)
}

// ReadString48 reads a string prefixed with its length as a 48 bit integer.
func (e *LittleEndianReader) ReadString48() (string, int, error) {
	l, n, err := e.ReadUint48()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString48 reads a string prefixed with its length as a 48 bit integer.
func (e *StickyLittleEndianReader) ReadString48() string { return e.ReadString(int(e.ReadUint48())) }

// WriteString48 writes a string prefixed with its length as a 48 bit integer.
func (e *LittleEndianWriter) WriteString48(s string) (int, error) {
	n, err := e.WriteUint48(uint64(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString48 writes a string prefixed with its length as a 48 bit integer.
func (e *StickyLittleEndianWriter) WriteString48(s string) {
	e.WriteUint48(uint64(len(s)))
	e.WriteString(s)
}

// ReadString56 reads a string prefixed with its length as a 56 bit integer.
func (e *LittleEndianReader) ReadString56() (string, int, error) {
	l, n, err := e.ReadUint56()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString56 reads a string prefixed with its length as a 56 bit integer.
func (e *StickyLittleEndianReader) ReadString56() string { return e.ReadString(int(e.ReadUint56())) }

// WriteString56 writes a string prefixed with its length as a 56 bit integer.
func (e *LittleEndianWriter) WriteString56(s string) (int, error) {
	n, err := e.WriteUint56(uint64(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString56 writes a string prefixed with its length as a 56 bit integer.
func (e *StickyLittleEndianWriter) WriteString56(s string) {
	e.WriteUint56(uint64(len(s)))
	e.WriteString(s)
}

// ReadString64 reads a string prefixed with its length as a 64 bit integer.
func (e *LittleEndianReader) ReadString64() (string, int, error) {
	l, n, err := e.ReadUint64()
	if err != nil {
		return "", n, err
	}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}

// ReadString64 reads a string prefixed with its length as a 64 bit integer.
func (e *StickyLittleEndianReader) ReadString64() string { return e.ReadString(int(e.ReadUint64())) }

// WriteString64 writes a string prefixed with its length as a 64 bit integer.
func (e *LittleEndianWriter) WriteString64(s string) (int, error) {
	n, err := e.WriteUint64(uint64(len(s)))
	if err != nil {
		return n, err
	}

	m, err := e.WriteString(s)

	return n + m, err
}

// WriteString64 writes a string prefixed with its length as a 64 bit integer.
func (e *StickyLittleEndianWriter) WriteString64(s string) {
	e.WriteUint64(uint64(len(s)))
	e.WriteString(s)
}
