package kit

import "encoding/binary"

// Independent encoder of the on-disk key layout, used as reference.

func RawKey(table, index byte, idx, order, pk []byte) []byte {
	b := []byte{table, index}
	b = binary.BigEndian.AppendUint32(b, uint32(len(idx)))
	b = append(b, idx...)
	b = binary.BigEndian.AppendUint32(b, uint32(len(order)))
	b = append(b, order...)
	return append(b, pk...)
}

// Fields collects numbered fields: each is preceded by its 1-based position.
type Fields struct {
	B []byte
	n byte
}

func (f *Fields) id() { f.n++; f.B = append(f.B, f.n) }

func (f *Fields) U64(v uint64) *Fields { f.id(); f.B = binary.BigEndian.AppendUint64(f.B, v); return f }
func (f *Fields) U32(v uint32) *Fields { f.id(); f.B = binary.BigEndian.AppendUint32(f.B, v); return f }
func (f *Fields) U16(v uint16) *Fields { f.id(); f.B = binary.BigEndian.AppendUint16(f.B, v); return f }
func (f *Fields) U8(v byte) *Fields    { f.id(); f.B = append(f.B, v); return f }
func (f *Fields) Bytes(v []byte) *Fields {
	f.id()
	f.B = append(f.B, v...)
	return f
}
func (f *Fields) Str(v string) *Fields { return f.Bytes([]byte(v)) }

func (f *Fields) I64(v int64) *Fields {
	f.id()
	switch {
	case v > 0:
		f.B = append(f.B, 2)
		f.B = binary.BigEndian.AppendUint64(f.B, uint64(v))
	case v == 0:
		f.B = append(f.B, 1, 0, 0, 0, 0, 0, 0, 0, 0)
	default:
		f.B = append(f.B, 0)
		// distance from the smallest value, so larger values sort later
		f.B = binary.BigEndian.AppendUint64(f.B, uint64(v)-1)
	}
	return f
}
