// Package zstd stands in for the compression library in instrumented code: the
// real one is slow to set up, and what it does is not of interest. The stream
// is a length and a checksum before the plain bytes.
package zstd

import (
	"bytes"
	"encoding/binary"
	"errors"
	"hash/crc32"
	"io"

	"github.com/klauspost/compress/zstd"
)

type (
	EOption      = zstd.EOption
	DOption      = zstd.DOption
	EncoderLevel = zstd.EncoderLevel
)

var (
	WithEncoderLevel       = zstd.WithEncoderLevel
	WithEncoderConcurrency = zstd.WithEncoderConcurrency
	WithEncoderCRC         = zstd.WithEncoderCRC
	WithSingleSegment      = zstd.WithSingleSegment
	WithWindowSize         = zstd.WithWindowSize
	WithZeroFrames         = zstd.WithZeroFrames
	WithLowerEncoderMem    = zstd.WithLowerEncoderMem
	WithDecoderConcurrency = zstd.WithDecoderConcurrency
	WithDecoderLowmem      = zstd.WithDecoderLowmem
	WithDecoderMaxMemory   = zstd.WithDecoderMaxMemory
	WithDecoderMaxWindow   = zstd.WithDecoderMaxWindow
	EncoderLevelFromZstd   = zstd.EncoderLevelFromZstd
)

const (
	SpeedFastest           = zstd.SpeedFastest
	SpeedDefault           = zstd.SpeedDefault
	SpeedBetterCompression = zstd.SpeedBetterCompression
	SpeedBestCompression   = zstd.SpeedBestCompression
)

var errCorrupt = errors.New("zstd: corrupt input")

type Encoder struct {
	w      io.Writer
	b      bytes.Buffer
	closed bool
}

func NewWriter(w io.Writer, _ ...EOption) (*Encoder, error) { return &Encoder{w: w}, nil }

func (e *Encoder) Write(p []byte) (int, error)         { return e.b.Write(p) }
func (e *Encoder) ReadFrom(r io.Reader) (int64, error) { return e.b.ReadFrom(r) }
func (e *Encoder) Flush() error                        { return nil }
func (e *Encoder) Reset(w io.Writer)                   { e.w, e.closed = w, false; e.b.Reset() }
func (e *Encoder) EncodeAll(src, dst []byte) []byte    { return append(dst, frame(src)...) }
func (e *Encoder) Close() error {
	if e.closed || e.w == nil {
		return nil
	}
	e.closed = true
	_, err := e.w.Write(frame(e.b.Bytes()))
	return err
}

func frame(src []byte) []byte {
	h := binary.LittleEndian.AppendUint32(nil, uint32(len(src)))
	h = binary.LittleEndian.AppendUint32(h, crc32.ChecksumIEEE(src))
	return append(h, src...)
}

func unframe(b []byte) (data, rest []byte, err error) {
	if len(b) < 8 || len(b)-8 < int(binary.LittleEndian.Uint32(b)) {
		return nil, nil, io.ErrUnexpectedEOF
	}
	n := int(binary.LittleEndian.Uint32(b))
	data, rest = b[8:8+n], b[8+n:]
	if crc32.ChecksumIEEE(data) != binary.LittleEndian.Uint32(b[4:]) {
		return nil, nil, errCorrupt
	}
	return data, rest, nil
}

type Decoder struct {
	r    io.Reader
	data *bytes.Reader
	err  error
}

func NewReader(r io.Reader, _ ...DOption) (*Decoder, error) { return &Decoder{r: r}, nil }

func (d *Decoder) load() {
	if d.data != nil || d.err != nil {
		return
	}
	b, err := io.ReadAll(d.r)
	var all []byte
	for err == nil && len(b) > 0 {
		var x []byte
		x, b, err = unframe(b)
		all = append(all, x...)
	}
	d.err = err
	d.data = bytes.NewReader(all)
}

func (d *Decoder) Read(p []byte) (int, error) {
	if d.r == nil {
		return 0, errors.New("zstd: decoder closed")
	}
	if d.load(); d.err != nil {
		return 0, d.err
	}
	return d.data.Read(p)
}

func (d *Decoder) WriteTo(w io.Writer) (int64, error) {
	if d.load(); d.err != nil {
		return 0, d.err
	}
	return d.data.WriteTo(w)
}

func (d *Decoder) Reset(r io.Reader) error { d.r, d.data, d.err = r, nil, nil; return nil }
func (d *Decoder) Close()                  { d.r = nil }

func (d *Decoder) DecodeAll(in, dst []byte) ([]byte, error) {
	for len(in) > 0 {
		x, rest, err := unframe(in)
		if err != nil {
			return dst, err
		}
		dst, in = append(dst, x...), rest
	}
	return dst, nil
}

type closer struct{ *Decoder }

func (c closer) Close() error { c.Decoder.Close(); return nil }

func (d *Decoder) IOReadCloser() io.ReadCloser { return closer{d} }
