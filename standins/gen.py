# Generates byteio/byteio.go (committed). Run by hand when the stand-in changes.
out=['''// Package byteio is a stand-in for vimagination.zapto.org/byteio v1.0.0, which
// cannot be fetched in the sandbox. It reproduces the documented behaviour of
// the endian readers and writers: fixed-size values are read with io.ReadFull
// semantics, and the Sticky variants remember the first error, after which
// reads return zero values and writes do nothing.
//
// Code generated by gen.py. DO NOT EDIT.
package byteio

import (
	"io"
	"math"
)

// EndianReader is the interface of the non-sticky readers.
type EndianReader interface {
	io.Reader
	ReadUint8() (uint8, int, error)
	ReadUint16() (uint16, int, error)
	ReadUint32() (uint32, int, error)
	ReadUint64() (uint64, int, error)
}

// EndianWriter is the interface of the non-sticky writers.
type EndianWriter interface {
	io.Writer
	WriteUint8(uint8) (int, error)
	WriteUint16(uint16) (int, error)
	WriteUint32(uint32) (int, error)
	WriteUint64(uint64) (int, error)
}

// StickyEndianReader is the interface of the sticky readers.
type StickyEndianReader interface {
	io.Reader
	ReadUint8() uint8
	ReadUint16() uint16
	ReadUint32() uint32
	ReadUint64() uint64
}

// StickyEndianWriter is the interface of the sticky writers.
type StickyEndianWriter interface {
	io.Writer
	WriteUint8(uint8)
	WriteUint16(uint16)
	WriteUint32(uint32)
	WriteUint64(uint64)
}
''']
sizes=[8,16,24,32,40,48,56,64]
def gt(s):
    for t in (8,16,32,64):
        if s<=t: return t
for end in ('Big','Little'):
    order=lambda n: range(n-1,-1,-1) if end=='Big' else range(n)
    # non sticky reader
    R=f'{end}EndianReader'; SR=f'Sticky{end}EndianReader'; W=f'{end}EndianWriter'; SW=f'Sticky{end}EndianWriter'
    out.append(f'''
// {R} wraps a io.Reader to read integers.
type {R} struct {{
	io.Reader
	buffer [8]byte
}}

// {SR} wraps a io.Reader to read integers, storing the first error.
type {SR} struct {{
	io.Reader
	buffer [8]byte
	Err    error
	Count  int64
}}

// {W} wraps a io.Writer to write integers.
type {W} struct {{
	io.Writer
	buffer [8]byte
}}

// {SW} wraps a io.Writer to write integers, storing the first error.
type {SW} struct {{
	io.Writer
	buffer [8]byte
	Err    error
	Count  int64
}}

// Read implements io.Reader.
func (e *{SR}) Read(p []byte) (int, error) {{
	if e.Err != nil {{
		return 0, e.Err
	}}

	var n int

	n, e.Err = e.Reader.Read(p)
	e.Count += int64(n)

	return n, e.Err
}}

// GetCount returns the number of bytes read.
func (e *{SR}) GetCount() int64 {{ return e.Count }}

// GetError returns the stored error.
func (e *{SR}) GetError() error {{ return e.Err }}

func (e *{SR}) fill(n int) bool {{
	if e.Err != nil {{
		return false
	}}

	var m int

	m, e.Err = io.ReadFull(e.Reader, e.buffer[:n])
	e.Count += int64(m)

	return e.Err == nil
}}

// Write implements io.Writer.
func (e *{SW}) Write(p []byte) (int, error) {{
	if e.Err != nil {{
		return 0, e.Err
	}}

	var n int

	n, e.Err = e.Writer.Write(p)
	e.Count += int64(n)

	return n, e.Err
}}

// GetCount returns the number of bytes written.
func (e *{SW}) GetCount() int64 {{ return e.Count }}

// GetError returns the stored error.
func (e *{SW}) GetError() error {{ return e.Err }}

func (e *{SW}) flush(n int) {{
	if e.Err != nil {{
		return
	}}

	var m int

	m, e.Err = e.Writer.Write(e.buffer[:n])
	e.Count += int64(m)
}}

// ReadBool reads a boolean.
func (e *{R}) ReadBool() (bool, int, error) {{
	v, n, err := e.ReadUint8()

	return v != 0, n, err
}}

// ReadBool reads a boolean.
func (e *{SR}) ReadBool() bool {{ return e.ReadUint8() != 0 }}

// WriteBool writes a boolean.
func (e *{W}) WriteBool(b bool) (int, error) {{
	if b {{
		return e.WriteUint8(1)
	}}

	return e.WriteUint8(0)
}}

// WriteBool writes a boolean.
func (e *{SW}) WriteBool(b bool) {{
	if b {{
		e.WriteUint8(1)
	}} else {{
		e.WriteUint8(0)
	}}
}}

// ReadBytes reads size bytes.
func (e *{R}) ReadBytes(size int) ([]byte, int, error) {{
	p := make([]byte, size)
	n, err := io.ReadFull(e.Reader, p)

	return p[:n], n, err
}}

// ReadBytes reads size bytes.
func (e *{SR}) ReadBytes(size int) []byte {{
	if e.Err != nil {{
		return nil
	}}

	p := make([]byte, size)

	var n int

	n, e.Err = io.ReadFull(e.Reader, p)
	e.Count += int64(n)

	return p[:n]
}}

// ReadString reads a string of the given size.
func (e *{R}) ReadString(size int) (string, int, error) {{
	p, n, err := e.ReadBytes(size)

	return string(p), n, err
}}

// ReadString reads a string of the given size.
func (e *{SR}) ReadString(size int) string {{ return string(e.ReadBytes(size)) }}

// WriteBytes writes the bytes.
func (e *{W}) WriteBytes(p []byte) (int, error) {{ return e.Writer.Write(p) }}

// WriteBytes writes the bytes.
func (e *{SW}) WriteBytes(p []byte) {{ e.Write(p) }}

// WriteString writes the string.
func (e *{W}) WriteString(s string) (int, error) {{ return io.WriteString(e.Writer, s) }}

// WriteString writes the string.
func (e *{SW}) WriteString(s string) (int, error) {{
	if e.Err != nil {{
		return 0, e.Err
	}}

	var n int

	n, e.Err = io.WriteString(e.Writer, s)
	e.Count += int64(n)

	return n, e.Err
}}
''')
    for s in sizes:
        n=s//8
        t=gt(s)
        def expr(buf):
            parts=[]
            for i in range(n):
                sh=8*(n-1-i) if end=='Big' else 8*i
                c=f'uint{t}({buf}[{i}])'
                parts.append(c if sh==0 else f'{c}<<{sh}')
            return ' | '.join(parts)
        def store(buf):
            l=[]
            for i in range(n):
                sh=8*(n-1-i) if end=='Big' else 8*i
                l.append(f'\t{buf}[{i}] = byte(v)' if sh==0 else f'\t{buf}[{i}] = byte(v >> {sh})')
            return '\n'.join(l)
        shx = t-s
        sx = (lambda e: f'int{t}({e})') if shx==0 else (lambda e: f'int{t}({e}<<{shx}) >> {shx}')
        out.append(f'''
// ReadUint{s} reads a {s} bit unsigned integer.
func (e *{R}) ReadUint{s}() (uint{t}, int, error) {{
	n, err := io.ReadFull(e.Reader, e.buffer[:{n}])
	if err != nil {{
		return 0, n, err
	}}

	return {expr('e.buffer')}, n, nil
}}

// ReadInt{s} reads a {s} bit signed integer.
func (e *{R}) ReadInt{s}() (int{t}, int, error) {{
	v, n, err := e.ReadUint{s}()

	return {sx('v')}, n, err
}}

// ReadUint{s} reads a {s} bit unsigned integer.
func (e *{SR}) ReadUint{s}() uint{t} {{
	if !e.fill({n}) {{
		return 0
	}}

	return {expr('e.buffer')}
}}

// ReadInt{s} reads a {s} bit signed integer.
func (e *{SR}) ReadInt{s}() int{t} {{ return {sx(f'e.ReadUint{s}()')} }}

// WriteUint{s} writes a {s} bit unsigned integer.
func (e *{W}) WriteUint{s}(v uint{t}) (int, error) {{
{store('e.buffer')}

	return e.Writer.Write(e.buffer[:{n}])
}}

// WriteInt{s} writes a {s} bit signed integer.
func (e *{W}) WriteInt{s}(v int{t}) (int, error) {{ return e.WriteUint{s}(uint{t}(v)) }}

// WriteUint{s} writes a {s} bit unsigned integer.
func (e *{SW}) WriteUint{s}(v uint{t}) {{
{store('e.buffer')}

	e.flush({n})
}}

// WriteInt{s} writes a {s} bit signed integer.
func (e *{SW}) WriteInt{s}(v int{t}) {{ e.WriteUint{s}(uint{t}(v)) }}
''')
    for s in (32,64):
        out.append(f'''
// ReadFloat{s} reads a {s} bit float.
func (e *{R}) ReadFloat{s}() (float{s}, int, error) {{
	v, n, err := e.ReadUint{s}()

	return math.Float{s}frombits(v), n, err
}}

// ReadFloat{s} reads a {s} bit float.
func (e *{SR}) ReadFloat{s}() float{s} {{ return math.Float{s}frombits(e.ReadUint{s}()) }}

// WriteFloat{s} writes a {s} bit float.
func (e *{W}) WriteFloat{s}(v float{s}) (int, error) {{ return e.WriteUint{s}(math.Float{s}bits(v)) }}

// WriteFloat{s} writes a {s} bit float.
func (e *{SW}) WriteFloat{s}(v float{s}) {{ e.WriteUint{s}(math.Float{s}bits(v)) }}
''')
    for s in (8,16,24,32,40,48,56,64):
        t=gt(s)
        out.append(f'''
// ReadString{s} reads a string prefixed with its length as a {s} bit integer.
func (e *{R}) ReadString{s}() (string, int, error) {{
	l, n, err := e.ReadUint{s}()
	if err != nil {{
		return "", n, err
	}}

	s, m, err := e.ReadString(int(l))

	return s, n + m, err
}}

// ReadString{s} reads a string prefixed with its length as a {s} bit integer.
func (e *{SR}) ReadString{s}() string {{ return e.ReadString(int(e.ReadUint{s}())) }}

// WriteString{s} writes a string prefixed with its length as a {s} bit integer.
func (e *{W}) WriteString{s}(s string) (int, error) {{
	n, err := e.WriteUint{s}(uint{t}(len(s)))
	if err != nil {{
		return n, err
	}}

	m, err := e.WriteString(s)

	return n + m, err
}}

// WriteString{s} writes a string prefixed with its length as a {s} bit integer.
func (e *{SW}) WriteString{s}(s string) {{
	e.WriteUint{s}(uint{t}(len(s)))
	e.WriteString(s)
}}
''')
open('byteio/byteio.go','w').write(''.join(out))
