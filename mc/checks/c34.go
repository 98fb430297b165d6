package checks

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode"

	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"verif.local/mc/x"
)

func init() {
	x.Register(&x.Check{ID: "C34", Run: c34,
		Rule: "every message type x every pair of fields x every pair of values through the binary form against protobuf's own codec, in both directions, into buffers and used messages; every cut, every byte of an encoded message replaced by each interesting value, every field number x wire type as an unknown or wrongly typed field"})
}

// wire is a message with a binary form of its own.
type wire interface {
	proto.Message
	MarshalVT() ([]byte, error)
	MarshalToVT([]byte) (int, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	UnmarshalVT([]byte) error
	SizeVT() int
}

// wireScalars adds to the JSON values those at the limits of the binary form: lengths
// around the size of a length prefix and numbers of every encoded size.
func wireScalars(fd protoreflect.FieldDescriptor) []protoreflect.Value {
	out := scalars(fd)
	switch fd.Kind() {
	case protoreflect.StringKind:
		for _, n := range []int{127, 128, 16383, 16384} {
			out = append(out, protoreflect.ValueOfString(strings.Repeat("w", n)))
		}
	case protoreflect.BytesKind:
		for _, n := range []int{127, 128, 16383, 16384} {
			out = append(out, protoreflect.ValueOfBytes(bytes.Repeat([]byte{0x80}, n)))
		}
	case protoreflect.EnumKind:
		for _, n := range []int32{99, 127, 128, 300, 1 << 14, math.MaxInt32, -1, math.MinInt32} {
			out = append(out, protoreflect.ValueOfEnum(protoreflect.EnumNumber(n)))
		}
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		for s := uint(7); s < 64; s += 7 {
			out = append(out, protoreflect.ValueOfUint64(1<<s-1), protoreflect.ValueOfUint64(1<<s))
		}
		out = append(out, protoreflect.ValueOfUint64(0x0123456789abcdef))
	}
	return out
}

func wireValues(m protoreflect.Message, fd protoreflect.FieldDescriptor, depth int) []protoreflect.Value {
	if fd.IsMap() || fd.Kind() == protoreflect.MessageKind {
		return values(m, fd, depth)
	}
	es := wireScalars(fd)
	if !fd.IsList() {
		return es
	}
	var out []protoreflect.Value
	for i := range es {
		for _, pick := range [][]int{{i}, {i, i + 1, i}} {
			l := m.NewField(fd)
			for _, p := range pick {
				l.List().Append(es[p%len(es)])
			}
			out = append(out, l)
		}
	}
	return out
}

// fullMessage sets every field (one of each oneof) to its n-th value.
func fullMessage(t protoreflect.MessageType, n int) protoreflect.Message {
	m := t.New()
	fs := t.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if o := fs.Get(i).ContainingOneof(); o != nil && !o.IsSynthetic() && m.WhichOneof(o) != nil && i%2 == n%2 {
			continue
		}
		if vs := values(m, fs.Get(i), 1); len(vs) > 1 {
			m.Set(fs.Get(i), vs[1+n%(len(vs)-1)])
		}
	}
	return m
}

func sameWire(a, b proto.Message) bool { return proto.Equal(a, b) }

func hasMap(d protoreflect.MessageDescriptor) bool {
	for i := 0; i < d.Fields().Len(); i++ {
		if fd := d.Fields().Get(i); fd.IsMap() || (fd.Message() != nil && fd.Message() != d && hasMap(fd.Message())) {
			return true
		}
	}
	return false
}

// agree compares how both codecs read a text.
func agree(t protoreflect.MessageType, b []byte, written, altered bool) (string, string) {
	ref, got := t.New().Interface(), t.New().Interface().(wire)
	e1 := proto.UnmarshalOptions{}.Unmarshal(b, ref)
	in := append([]byte{}, b...)
	e2 := got.UnmarshalVT(in)
	if !bytes.Equal(in, b) {
		return "", "reading modified the text"
	}
	if !written && hasMap(t.Descriptor()) {
		// what a damaged map entry stands for is left open
		return "open", ""
	}
	switch {
	case e1 == nil && e2 != nil && !written:
		return "refused", ""
	case e1 == nil && e2 != nil:
		return "", fmt.Sprintf("%x is a message %v and is refused: %v", b, ref, e2)
	case e1 != nil && e2 == nil:
		if strings.Contains(e1.Error(), "UTF-8") {
			return "utf8", ""
		}
		if altered {
			return "open", "" // fields it does not know of are not looked into
		}
		return "", fmt.Sprintf("%x is not a message (%v) and is read as %v", b, e1, got)
	case e1 != nil:
		return "refused", ""
	}
	for i := range in {
		in[i] ^= 0x55 // what was read must not alias the text
	}
	if !written {
		// a reader may drop or keep fields it does not know of, written in unusual ways
		forget(ref.ProtoReflect())
		forget(got.ProtoReflect())
	}
	if !sameWire(ref, got) {
		return "", fmt.Sprintf("%x is %v and is read as %v", b, ref, got)
	}
	return "read", ""
}

// newerFields are fields a message of this version does not know of, as any writer would write them.
func newerFields(fs protoreflect.FieldDescriptors) [][]byte {
	out := [][]byte{nil}
	for _, num := range []protowire.Number{protowire.Number(fs.Len()) + 40, 2047, 2048, 1 << 18, 1 << 25, protowire.MaxValidNumber} {
		if fs.ByNumber(num) != nil || (num >= protowire.FirstReservedNumber && num <= protowire.LastReservedNumber) {
			continue
		}
		out = append(out, protowire.AppendVarint(protowire.AppendTag(nil, num, protowire.VarintType), uint64(num)))
	}
	n := protowire.Number(fs.Len()) + 41
	group := func(n protowire.Number, inner []byte) []byte {
		return protowire.AppendGroup(protowire.AppendTag(nil, n, protowire.StartGroupType), n, inner)
	}
	deep := []byte(nil)
	for i := 0; i < 5; i++ {
		deep = group(n+protowire.Number(i), append(deep, protowire.AppendVarint(protowire.AppendTag(nil, 1, protowire.VarintType), 1)...))
	}
	return append(out,
		protowire.AppendVarint(protowire.AppendTag(nil, n, protowire.VarintType), math.MaxUint64),
		protowire.AppendFixed64(protowire.AppendTag(nil, n, protowire.Fixed64Type), math.MaxUint64),
		protowire.AppendFixed32(protowire.AppendTag(nil, n, protowire.Fixed32Type), math.MaxUint32),
		protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), nil),
		protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), bytes.Repeat([]byte{4}, 127)),
		protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), bytes.Repeat([]byte{0x84}, 20000)),
		group(n, nil), group(n, group(n, nil)), deep,
	)
}

// withUnknown returns copies of a message with the fields added at its top, and in each message directly inside.
func withUnknown(m protoreflect.Message, b []byte) []protoreflect.Message {
	if len(b) == 0 {
		return nil
	}
	top := proto.Clone(m.Interface()).ProtoReflect()
	top.SetUnknown(b)
	out := []protoreflect.Message{top}
	for i, fs := 0, m.Descriptor().Fields(); i < fs.Len(); i++ {
		fd := fs.Get(i)
		if fd.IsMap() || fd.Kind() != protoreflect.MessageKind || !m.Has(fd) {
			continue
		}
		in := proto.Clone(m.Interface()).ProtoReflect()
		if fd.IsList() {
			in.Mutable(fd).List().Get(0).Message().SetUnknown(b)
		} else {
			in.Mutable(fd).Message().SetUnknown(b)
		}
		out = append(out, in)
	}
	return out
}

// forget drops the unknown fields of a message and of those in it.
func forget(m protoreflect.Message) {
	m.SetUnknown(nil)
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap() || fd.Kind() != protoreflect.MessageKind:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				forget(v.List().Get(i).Message())
			}
		default:
			forget(v.Message())
		}
		return true
	})
}

// getter is the accessor of a field.
func getter(m proto.Message, fd protoreflect.FieldDescriptor) reflect.Value {
	name, up := "", true
	for _, r := range string(fd.Name()) {
		switch {
		case r == '_':
			up = true
			continue
		case up:
			r = unicode.ToUpper(r)
		}
		name, up = name+string(r), unicode.IsDigit(r)
	}
	return reflect.ValueOf(m).MethodByName("Get" + name)
}

// got tells if an accessor answers the value of a field.
func got(fd protoreflect.FieldDescriptor, have reflect.Value, want protoreflect.Value) bool {
	one := func(fd protoreflect.FieldDescriptor, have reflect.Value, want protoreflect.Value) bool {
		switch fd.Kind() {
		case protoreflect.MessageKind:
			return proto.Equal(have.Interface().(proto.Message), want.Message().Interface())
		case protoreflect.EnumKind:
			return have.Int() == int64(want.Enum()) && (fd.Enum().Values().ByNumber(want.Enum()) == nil ||
				fmt.Sprint(have.Interface()) == string(fd.Enum().Values().ByNumber(want.Enum()).Name()))
		case protoreflect.BytesKind:
			return bytes.Equal(have.Bytes(), want.Bytes())
		}
		return reflect.DeepEqual(have.Interface(), want.Interface())
	}
	switch {
	case fd.IsMap():
		ok := have.Len() == want.Map().Len()
		want.Map().Range(func(k protoreflect.MapKey, v protoreflect.Value) bool {
			h := have.MapIndex(reflect.ValueOf(k.Interface()))
			ok = ok && h.IsValid() && one(fd.MapValue(), h, v)
			return ok
		})
		return ok
	case fd.IsList():
		ok := have.Len() == want.List().Len()
		for i := 0; ok && i < have.Len(); i++ {
			ok = one(fd, have.Index(i), want.List().Get(i))
		}
		return ok
	}
	return one(fd, have, want)
}

func c34(c *x.Ctx) {
	for _, t := range messageTypes() {
		t := t
		name := string(t.Descriptor().FullName())
		if _, ok := t.New().Interface().(wire); !ok {
			c.Note("no binary form: " + name)
			continue
		}
		fs := t.Descriptor().Fields()
		used := fullMessage(t, 1).Interface()
		reads := func(b []byte, want proto.Message) bool {
			m := t.New().Interface()
			return proto.Unmarshal(b, m) == nil && sameWire(m, want)
		}
		over := func(m, old proto.Message) string {
			text, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
			if err != nil {
				return err.Error()
			}
			into, ref := proto.Clone(old).(wire), proto.Clone(old)
			if err := into.UnmarshalVT(text); err != nil {
				return "reading into a used message: " + err.Error()
			}
			if err := (proto.UnmarshalOptions{Merge: true}).Unmarshal(text, ref); err != nil {
				return err.Error()
			}
			if !sameWire(into, ref) {
				return fmt.Sprintf("reading %v into %v gives %v, want %v", m, old, into, ref)
			}
			return ""
		}
		check := func(m protoreflect.Message) string {
			c.Step()
			w := m.Interface().(wire)
			before := proto.Clone(w)
			b, err := w.MarshalVT()
			if err != nil {
				return "writing: " + err.Error()
			}
			if !sameWire(before, w) {
				return "writing modified the message"
			}
			if n := w.SizeVT(); n != len(b) {
				return fmt.Sprintf("the size is %d, the form has %d bytes", n, len(b))
			}
			back := t.New().Interface()
			if err := proto.Unmarshal(b, back); err != nil {
				return fmt.Sprintf("the form %x of %v is no message: %v", b, before, err)
			}
			if !sameWire(back, before) {
				return fmt.Sprintf("the form of %v is one of %v", before, back)
			}
			std, err := proto.MarshalOptions{Deterministic: true}.Marshal(before)
			if err != nil {
				return err.Error()
			}
			for _, text := range [][]byte{b, std} {
				if _, msg := agree(t, text, true, false); msg != "" {
					return msg
				}
				into := proto.Clone(used).(wire)
				ref := proto.Clone(used)
				if err := into.UnmarshalVT(text); err != nil {
					return "reading into a used message: " + err.Error()
				}
				if err := (proto.UnmarshalOptions{Merge: true}).Unmarshal(text, ref); err != nil {
					return err.Error()
				}
				if !sameWire(into, ref) {
					return fmt.Sprintf("reading %v into %v gives %v, want %v", before, used, into, ref)
				}
			}
			// into larger buffers: at the end, at the beginning, nothing else touched
			for _, extra := range []int{0, 1, 9} {
				buf := bytes.Repeat([]byte{0xaa}, len(b)+extra)
				n, err := w.MarshalToSizedBufferVT(buf)
				if err != nil || n != len(b) || !reads(buf[extra:], before) || !bytes.Equal(buf[:extra], bytes.Repeat([]byte{0xaa}, extra)) {
					return fmt.Sprintf("at the end of a buffer: %d bytes %x %v, want %x", n, buf, err, b)
				}
				buf = bytes.Repeat([]byte{0xaa}, len(b)+extra)
				n, err = w.MarshalToVT(buf)
				if err != nil || n != len(b) || !reads(buf[:n], before) || !bytes.Equal(buf[n:], bytes.Repeat([]byte{0xaa}, extra)) {
					return fmt.Sprintf("in a buffer: %d bytes %x %v, want %x", n, buf, err, b)
				}
			}
			return ""
		}
		c.Case(name+" empty", func() string { return check(t.New()) })
		// the accessors of a message, set and not
		for i := 0; i < fs.Len(); i++ {
			i := i
			fd := fs.Get(i)
			c.Case(fmt.Sprintf("%s accessor of %s", name, fd.Name()), func() string {
				if !getter(t.New().Interface(), fd).IsValid() {
					return "there is none"
				}
				none := reflect.Zero(reflect.TypeOf(t.New().Interface())).Interface().(proto.Message)
				zero := func(m proto.Message, j int) bool {
					v := getter(m, fs.Get(j)).Call(nil)[0]
					if fs.Get(j).IsMap() || fs.Get(j).IsList() || fs.Get(j).Kind() == protoreflect.BytesKind {
						return v.Len() == 0
					}
					return v.IsZero()
				}
				if !zero(none, i) || !zero(t.New().Interface(), i) {
					return "has a value without one being set"
				}
				for _, v := range wireValues(t.New(), fd, 2) {
					c.Step()
					m := t.New()
					m.Set(fd, v)
					if !got(fd, getter(m.Interface(), fd).Call(nil)[0], v) {
						return fmt.Sprintf("gives %v, want %v", getter(m.Interface(), fd).Call(nil)[0], v)
					}
					for j := 0; j < fs.Len(); j++ {
						if j != i && !zero(m.Interface(), j) {
							return fmt.Sprintf("%s has a value with %s set", fs.Get(j).Name(), fd.Name())
						}
					}
					r := m.Interface().(interface{ Reset() })
					r.Reset()
					if !sameWire(m.Interface(), t.New().Interface()) {
						return "a forgotten message is not empty"
					}
				}
				return ""
			})
		}
		for i := 0; i < fs.Len(); i++ {
			vi := wireValues(t.New(), fs.Get(i), 2)
			for j := i; j < fs.Len(); j++ {
				vj := wireValues(t.New(), fs.Get(j), 1)
				if i == j {
					vj = []protoreflect.Value{{}}
				} else if !c.Thorough() && len(vj) > 3 {
					vj = vj[:3]
				}
				for a, v1 := range vi {
					if i != j && a > c.Q(5, 12) {
						break
					}
					for b, v2 := range vj {
						i, j, v1, v2 := i, j, v1, v2
						c.Case(fmt.Sprintf("%s %s#%d %s#%d", name, fs.Get(i).Name(), a, fs.Get(j).Name(), b), func() string {
							m := t.New()
							m.Set(fs.Get(i), v1)
							if i != j {
								m.Set(fs.Get(j), v2)
							}
							c.State(name)
							return check(m)
						})
					}
				}
			}
		}
		// one value of a field read over another one, for the members of a oneof also across them
		for i := 0; i < fs.Len(); i++ {
			for j := 0; j < fs.Len(); j++ {
				o := fs.Get(i).ContainingOneof()
				if i != j && (o == nil || o.IsSynthetic() || fs.Get(j).ContainingOneof() != o) {
					continue
				}
				i, j := i, j
				c.Case(fmt.Sprintf("%s %s over %s", name, fs.Get(i).Name(), fs.Get(j).Name()), func() string {
					for _, v1 := range wireValues(t.New(), fs.Get(i), 2) {
						for _, v2 := range wireValues(t.New(), fs.Get(j), 2) {
							c.Step()
							m, old := t.New(), t.New()
							m.Set(fs.Get(i), v1)
							old.Set(fs.Get(j), v2)
							if msg := over(m.Interface(), old.Interface()); msg != "" {
								return msg
							}
						}
					}
					return ""
				})
			}
		}
		// what a newer version adds is kept, at the top and in the messages inside
		for n := 0; n < 2; n++ {
			n := n
			c.Case(fmt.Sprintf("%s fields of a newer version %d", name, n), func() string {
				newer := newerFields(fs)
				for i, f1 := range newer {
					for j, f2 := range newer {
						if j > 0 && i != 0 && j != (i+1)%len(newer) && !c.Thorough() {
							continue
						}
						for _, m := range withUnknown(fullMessage(t, n), append(append([]byte{}, f1...), f2...)) {
							c.Step()
							if msg := check(m); msg != "" {
								return msg
							}
							if msg := over(m.Interface(), m.Interface()); msg != "" {
								return msg
							}
							// before the fields it knows
							std, err := proto.MarshalOptions{Deterministic: true}.Marshal(fullMessage(t, n).Interface())
							if err != nil {
								return err.Error()
							}
							text := append(append(append(append([]byte{}, f1...), std...), f2...), f1...)
							if _, msg := agree(t, text, true, false); msg != "" {
								return msg
							}
						}
					}
				}
				return ""
			})
		}
		// other texts
		for n := 0; n < c.Q(2, 4); n++ {
			n := n
			c.Case(fmt.Sprintf("%s cut and altered %d", name, n), func() string {
				b, err := proto.MarshalOptions{Deterministic: true}.Marshal(fullMessage(t, n).Interface())
				if err != nil {
					return err.Error()
				}
				if msg := check(fullMessage(t, n)); msg != "" {
					return msg
				}
				for k := 0; k <= len(b); k++ {
					c.Step()
					o, msg := agree(t, b[:k], false, false)
					if msg != "" {
						return msg
					}
					c.Outcome("cut " + o)
				}
				alt := []byte{0, 1, 2, 8, 0x7f, 0x80, 0xff}
				for k := range b {
					for _, v := range append([]byte{b[k] ^ 1, b[k] ^ 2, b[k] ^ 4, b[k] ^ 8, b[k] + 1, b[k] - 1}, alt...) {
						c.Step()
						m := append([]byte{}, b...)
						m[k] = v
						o, msg := agree(t, m, false, true)
						if msg != "" {
							return msg
						}
						c.Outcome("altered " + o)
					}
				}
				return ""
			})
		}
		// one field of every number and wire type, alone, twice and before a known one
		for num := 1; num <= fs.Len()+3; num++ {
			num := num
			c.Case(fmt.Sprintf("%s number %d", name, num), func() string {
				var bodies [][]byte
				n := protowire.Number(num)
				for _, v := range []uint64{0, 1, 300, math.MaxUint64} {
					bodies = append(bodies, protowire.AppendVarint(protowire.AppendTag(nil, n, protowire.VarintType), v))
				}
				bodies = append(bodies, protowire.AppendFixed64(protowire.AppendTag(nil, n, protowire.Fixed64Type), 77),
					protowire.AppendFixed32(protowire.AppendTag(nil, n, protowire.Fixed32Type), 77),
					protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), nil),
					protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), []byte("abc")),
					protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), []byte{8, 1}),
					protowire.AppendBytes(protowire.AppendTag(nil, n, protowire.BytesType), bytes.Repeat([]byte{8, 1}, 100)),
					protowire.AppendTag(nil, n, protowire.EndGroupType),
					protowire.AppendTag(nil, n, protowire.StartGroupType),
					append(protowire.AppendTag(nil, n, protowire.BytesType), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1),
					append(protowire.AppendTag(nil, n, protowire.BytesType), 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f),
					append(protowire.AppendTag(nil, n, protowire.BytesType), 5, 'a'),
				)
				full, err := proto.MarshalOptions{Deterministic: true}.Marshal(used)
				if err != nil {
					return err.Error()
				}
				for i, b := range bodies {
					for _, text := range [][]byte{b, append(append([]byte{}, b...), b...), append(append([]byte{}, b...), full...), append(append([]byte{}, full...), b...), append(append([]byte{}, b...), bodies[(i+1)%len(bodies)]...)} {
						c.Step()
						o, msg := agree(t, text, false, false)
						if msg != "" {
							return msg
						}
						c.Outcome("field " + o)
					}
				}
				return ""
			})
		}
	}
}
