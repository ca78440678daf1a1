//go:build go1.23

package vh

import (
	"encoding/json"
	"strings"

	"pgregory.net/rapid"
)

// JSON is a JSON text as a tree that keeps the order and repetition of members.
type JSON struct {
	Kind byte // '{', '[', or 0: Raw is a scalar
	Keys []string
	Sub  []*JSON
	Raw  string
}

// ParseJSON parses a valid JSON text.
func ParseJSON(text string) *JSON {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var val func() *JSON
	scalar := func(v interface{}) string {
		b, err := json.Marshal(v)
		if err != nil {
			Infra("json: %v", err)
		}
		return string(b)
	}
	val = func() *JSON {
		t, err := dec.Token()
		if err != nil {
			Infra("json: %v", err)
		}
		d, ok := t.(json.Delim)
		if !ok {
			return &JSON{Raw: scalar(t)}
		}
		n := &JSON{Kind: byte(d)}
		for dec.More() {
			if d == '{' {
				k, err := dec.Token()
				if err != nil {
					Infra("json: %v", err)
				}
				n.Keys = append(n.Keys, k.(string))
			}
			n.Sub = append(n.Sub, val())
		}
		if _, err := dec.Token(); err != nil {
			Infra("json: %v", err)
		}
		return n
	}
	return val()
}

func (n *JSON) write(b *strings.Builder) {
	switch n.Kind {
	case 0:
		b.WriteString(n.Raw)
	case '[':
		b.WriteByte('[')
		for i, s := range n.Sub {
			if i > 0 {
				b.WriteByte(',')
			}
			s.write(b)
		}
		b.WriteByte(']')
	case '{':
		b.WriteByte('{')
		for i, s := range n.Sub {
			if i > 0 {
				b.WriteByte(',')
			}
			k, _ := json.Marshal(n.Keys[i])
			b.Write(k)
			b.WriteByte(':')
			s.write(b)
		}
		b.WriteByte('}')
	}
}

func (n *JSON) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

// Copy copies the tree.
func (n *JSON) Copy() *JSON {
	o := &JSON{Kind: n.Kind, Raw: n.Raw, Keys: append([]string{}, n.Keys...)}
	for _, s := range n.Sub {
		o.Sub = append(o.Sub, s.Copy())
	}
	return o
}

func (n *JSON) all(out []*JSON) []*JSON {
	out = append(out, n)
	for _, s := range n.Sub {
		out = s.all(out)
	}
	return out
}

// Get is the first member called key, or nil.
func (n *JSON) Get(key string) *JSON {
	for i, k := range n.Keys {
		if k == key {
			return n.Sub[i]
		}
	}
	return nil
}

var oddScalars = []string{"null", "0", "-1", "1", "true", "false", `""`, `"AA=="`, `"x"`, "[]", "{}", "[null]", `{"":null}`, "1e400", "1.5",
	"18446744073709551615", "18446744073709551616", "-9223372036854775808", "100", "101", "102", "103", "104", "105", "106", "200", "4294967295", "4294967296",
	`"\u0000"`, `"\ud800"`, "[[]]", "[0]", `["AA=="]`}

// MutateJSON changes the structure of the text in one to n places.
func MutateJSON(rt *rapid.T, root *JSON, n int) (*JSON, string) {
	root = root.Copy()
	var what []string
	for k := rapid.IntRange(1, n).Draw(rt, "jsonEdits"); k > 0; k-- {
		nodes := root.all(nil)
		x := nodes[rapid.IntRange(0, len(nodes)-1).Draw(rt, "node")]
		op := rapid.IntRange(0, 9).Draw(rt, "jsonOp")
		if len(x.Sub) == 0 && op < 7 {
			op = 7 + op%3
		}
		at := 0
		if len(x.Sub) > 0 {
			at = rapid.IntRange(0, len(x.Sub)-1).Draw(rt, "at")
		}
		switch op {
		case 0, 1: // remove
			x.Sub = append(x.Sub[:at:at], x.Sub[at+1:]...)
			name := ""
			if x.Kind == '{' {
				name = x.Keys[at]
				x.Keys = append(x.Keys[:at:at], x.Keys[at+1:]...)
			}
			what = append(what, "remove "+name)
		case 2: // null
			x.Sub[at] = &JSON{Raw: "null"}
			what = append(what, "null")
		case 3: // repeat
			c := x.Sub[at].Copy()
			x.Sub = append(x.Sub, c)
			if x.Kind == '{' {
				x.Keys = append(x.Keys, x.Keys[at])
			}
			what = append(what, "repeat")
		case 4: // truncate
			x.Sub = x.Sub[:at]
			if x.Kind == '{' {
				x.Keys = x.Keys[:at]
			}
			what = append(what, "truncate")
		case 5: // another key, or a key in other letters
			if x.Kind == '{' {
				x.Keys[at] = rapid.SampledFrom([]string{strings.ToUpper(x.Keys[at]), strings.ToLower(x.Keys[at]), "x", "", "Error", "DirectoryResponse", "Ad", "tree"}).Draw(rt, "key")
				what = append(what, "rename")
				break
			}
			fallthrough
		case 6: // swap two parts
			j := rapid.IntRange(0, len(x.Sub)-1).Draw(rt, "j")
			x.Sub[at], x.Sub[j] = x.Sub[j], x.Sub[at]
			what = append(what, "swap")
		case 7: // another scalar
			*x = JSON{Raw: rapid.SampledFrom(oddScalars).Draw(rt, "scalar")}
			what = append(what, "scalar "+x.Raw)
		case 8: // a part from elsewhere
			*x = *nodes[rapid.IntRange(0, len(nodes)-1).Draw(rt, "from")].Copy()
			what = append(what, "graft")
		case 9: // change a scalar's text
			if x.Kind != 0 || len(x.Raw) < 2 {
				*x = JSON{Raw: `"AAAA"`}
				what = append(what, "scalar")
				break
			}
			b := []byte(x.Raw)
			i := rapid.IntRange(0, len(b)-1).Draw(rt, "char")
			switch rapid.IntRange(0, 2).Draw(rt, "charOp") {
			case 0:
				b[i] = rapid.SampledFrom([]byte("AZaz09+/=\"\\-. ")).Draw(rt, "ch")
			case 1:
				b = append(b[:i:i], b[i+1:]...)
			case 2: // drop the middle: shorter bytes
				j := rapid.IntRange(i, len(b)-1).Draw(rt, "end")
				b = append(b[:i:i], b[j:]...)
			}
			*x = JSON{Raw: string(b)}
			what = append(what, "text")
		}
	}
	return root, strings.Join(what, ", ")
}

// MutateText makes arbitrary bytes from a JSON text.
func MutateText(rt *rapid.T, root *JSON) ([]byte, string) {
	switch rapid.IntRange(0, 9).Draw(rt, "textOp") {
	case 0:
		return []byte(root.String()), "unchanged"
	case 1:
		t := root.String()
		return []byte(t[:rapid.IntRange(0, len(t)).Draw(rt, "cut")]), "cut off"
	case 2:
		return Mutate(rt, "raw", []byte(root.String())), "raw change"
	case 3:
		return append([]byte(root.String()), rapid.SampledFrom([]string{"x", "{}", "\n", "\x00", "null", "]"}).Draw(rt, "tail")...), "something after it"
	case 4:
		return Bytes(rt, "raw", 200), "arbitrary bytes"
	case 5:
		n := rapid.IntRange(1, 12000).Draw(rt, "depth")
		return []byte(strings.Repeat(rapid.SampledFrom([]string{"[", `{"Error":`, `{"DirectoryResponse":`}).Draw(rt, "open"), n)), "nested"
	}
	m, what := MutateJSON(rt, root, 4)
	return []byte(m.String()), what
}
