ID="serialize-frees-buffer"; PROPERTY="C23"
NEEDS="a msgpack serialiser with pooled encoders and buffers and two values serialised one after the other"
BREAKS="the bytes of the first value are overwritten by the second"
EDITS=[("serializers/msgp.go","""		err := enc.Encode(i)
		if err != nil {
			return nil, err
		}

		m.Encoder.Put(enc)

		return buff.Bytes(), nil
""","""		err := enc.Encode(i)
		if err != nil {
			return nil, err
		}

		m.Encoder.Put(enc)
		defer m.freeBuffer(buff)

		return buff.Bytes(), nil
""")]
DEMO="""package demo
import ("testing";"bytes";"sync";"github.com/go-bond/bond/serializers";"github.com/go-bond/bond/utils";"github.com/vmihailenco/msgpack/v5")
func TestDemo(t *testing.T) {
	s := &serializers.MsgpackSerializer{
		Encoder: &utils.SyncPoolWrapper[*msgpack.Encoder]{Pool: sync.Pool{New: func() any { return msgpack.NewEncoder(nil) }}},
		Buffer:  utils.NewPreAllocatedPool[bytes.Buffer](func() any { return *bytes.NewBuffer(make([]byte, 0, 4096)) }, 1),
	}
	a, err := s.Serialize(&Row{ID: 1, S: "aaaa"})
	Must(t, err)
	was := string(a)
	_, err = s.Serialize(&Row{ID: 2, S: "bbbb"})
	Must(t, err)
	if string(a) != was { t.Fatal(a) }
}
"""
