ID="cbor-decmode"; PROPERTY="C23"
NEEDS="a CBOR serializer with a configured decoding mode whose options matter for the record, such as a tag set"
BREAKS="the configured mode is ignored when reading, records with tagged values come back with another type"
EDITS=[("serializers/cbor.go","		return c.DecMode.Unmarshal(b, i)","		return cbor.Unmarshal(b, i)")]
DEMO="""package demo
import ("testing";"reflect";"github.com/fxamacker/cbor/v2";"github.com/go-bond/bond/serializers")
type colour struct { R, G, B int }
type holder struct { V any }
func TestDemo(t *testing.T) {
	ts := cbor.NewTagSet()
	Must(t, ts.Add(cbor.TagOptions{DecTag: cbor.DecTagRequired, EncTag: cbor.EncTagRequired}, reflect.TypeOf(colour{}), 1234))
	em, err := cbor.EncOptions{}.EncModeWithTags(ts)
	Must(t, err)
	dm, err := cbor.DecOptions{}.DecModeWithTags(ts)
	Must(t, err)
	s := &serializers.CBORSerializer{EncMode: em, DecMode: dm}
	b, err := s.Serialize(holder{V: colour{1, 2, 3}})
	Must(t, err)
	var h holder
	Must(t, s.Deserialize(b, &h))
	if h.V != (colour{1, 2, 3}) { t.Fatalf("%#v", h.V) }
}
"""
