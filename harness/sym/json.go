package sym

// JSON is a parsed JSON value. Kind is one of '{', '[', '"', '0', 't', 'f'
// and 'n'.
type JSON struct {
	Kind byte
	Str  []byte // the text of a string, the digits of a number
	Keys [][]byte
	Vals []*JSON
}

// Get is the member of the object (the last one of the name), or nil.
func (j *JSON) Get(key string) *JSON {
	if j == nil || j.Kind != '{' {
		return nil
	}
	for i := len(j.Keys) - 1; i >= 0; i-- {
		if string(j.Keys[i]) == key {
			return j.Vals[i]
		}
	}
	return nil
}

// IsStr says whether the value is the string.
func (j *JSON) IsStr(s []byte) bool {
	return j != nil && j.Kind == '"' && len(j.Str) == len(s) && Eq(j.Str, s)
}

type jsonReader struct {
	b []byte
	i int
}

// ParseJSON parses a JSON text; nil if it is not well-formed. (Interpreted by
// the symbolic engine, not intercepted.)
func ParseJSON(b []byte) *JSON {
	r := &jsonReader{b: b}
	v := r.value()
	r.space()
	if v == nil || r.i != len(b) {
		return nil
	}
	return v
}

// JSONValid says whether the text is well-formed.
func JSONValid(b []byte) bool { return ParseJSON(b) != nil }

func (r *jsonReader) peek() byte {
	if r.i < len(r.b) {
		return r.b[r.i]
	}
	return 0
}

func (r *jsonReader) space() {
	for r.i < len(r.b) {
		switch r.b[r.i] {
		case ' ', '\t', '\n', '\r':
			r.i++
		default:
			return
		}
	}
}

func (r *jsonReader) word(s string) bool {
	if len(r.b)-r.i < len(s) {
		return false
	}
	for k := 0; k < len(s); k++ {
		if r.b[r.i+k] != s[k] {
			return false
		}
	}
	r.i += len(s)
	return true
}

func (r *jsonReader) digits() bool {
	n := 0
	for r.i < len(r.b) && r.b[r.i] >= '0' && r.b[r.i] <= '9' {
		r.i++
		n++
	}
	return n > 0
}

func (r *jsonReader) value() *JSON {
	r.space()
	c := r.peek()
	switch {
	case c == '"':
		s, ok := r.str()
		if !ok {
			return nil
		}
		return &JSON{Kind: '"', Str: s}
	case c == 't' && r.word("true"), c == 'f' && r.word("false"), c == 'n' && r.word("null"):
		return &JSON{Kind: c}
	case c == '-' || c >= '0' && c <= '9':
		at := r.i
		if c == '-' {
			r.i++
		}
		if r.peek() == '0' {
			r.i++
		} else if !r.digits() {
			return nil
		}
		if r.peek() == '.' {
			r.i++
			if !r.digits() {
				return nil
			}
		}
		if r.peek() == 'e' || r.peek() == 'E' {
			r.i++
			if r.peek() == '+' || r.peek() == '-' {
				r.i++
			}
			if !r.digits() {
				return nil
			}
		}
		return &JSON{Kind: '0', Str: r.b[at:r.i]}
	case c == '[':
		r.i++
		v := &JSON{Kind: c}
		if r.space(); r.peek() == ']' {
			r.i++
			return v
		}
		for {
			x := r.value()
			if x == nil {
				return nil
			}
			v.Vals = append(v.Vals, x)
			r.space()
			c := r.peek()
			r.i++
			if c == ']' {
				return v
			}
			if c != ',' {
				return nil
			}
		}
	case c == '{':
		r.i++
		v := &JSON{Kind: c}
		if r.space(); r.peek() == '}' {
			r.i++
			return v
		}
		for {
			r.space()
			if r.peek() != '"' {
				return nil
			}
			k, ok := r.str()
			if !ok {
				return nil
			}
			r.space()
			if r.peek() != ':' {
				return nil
			}
			r.i++
			x := r.value()
			if x == nil {
				return nil
			}
			v.Keys, v.Vals = append(v.Keys, k), append(v.Vals, x)
			r.space()
			c := r.peek()
			r.i++
			if c == '}' {
				return v
			}
			if c != ',' {
				return nil
			}
		}
	}
	return nil
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func (r *jsonReader) hex4() int {
	if len(r.b)-r.i < 4 {
		return -1
	}
	v := 0
	for k := 0; k < 4; k++ {
		h := hexVal(r.b[r.i+k])
		if h < 0 {
			return -1
		}
		v = v<<4 | h
	}
	r.i += 4
	return v
}

func appendRune(s []byte, v int) []byte {
	switch {
	case v < 0x80:
		return append(s, byte(v))
	case v < 0x800:
		return append(s, byte(0xc0|v>>6), byte(0x80|v&63))
	case v < 0x10000:
		return append(s, byte(0xe0|v>>12), byte(0x80|v>>6&63), byte(0x80|v&63))
	}
	return append(s, byte(0xf0|v>>18), byte(0x80|v>>12&63), byte(0x80|v>>6&63), byte(0x80|v&63))
}

// str reads a string, whose first quote is next.
func (r *jsonReader) str() (s []byte, ok bool) {
	s = []byte{}
	for r.i++; r.i < len(r.b); {
		c := r.b[r.i]
		r.i++
		switch {
		case c == '"':
			return s, true
		case c < 0x20:
			return nil, false
		case c != '\\':
			s = append(s, c)
			continue
		}
		c = r.peek()
		r.i++
		switch c {
		case '"', '\\', '/':
			s = append(s, c)
		case 'b':
			s = append(s, '\b')
		case 'f':
			s = append(s, '\f')
		case 'n':
			s = append(s, '\n')
		case 'r':
			s = append(s, '\r')
		case 't':
			s = append(s, '\t')
		case 'u':
			v := r.hex4()
			if v < 0 {
				return nil, false
			}
			if v >= 0xd800 && v < 0xdc00 && r.word("\\u") {
				w := r.hex4()
				if w < 0 {
					return nil, false
				}
				if w >= 0xdc00 && w < 0xe000 {
					v = 0x10000 + (v-0xd800)<<10 + (w - 0xdc00)
				} else {
					s, v = appendRune(s, 0xfffd), w
				}
			}
			if v >= 0xd800 && v < 0xe000 {
				v = 0xfffd
			}
			s = appendRune(s, v)
		default:
			return nil, false
		}
	}
	return nil, false
}

// UTF8 says whether the text is valid UTF-8.
func UTF8(s []byte) bool {
	for i := 0; i < len(s); {
		if s[i] < 0x80 {
			i++
			continue
		}
		n := utf8Len(s[i:])
		if n == 0 {
			return false
		}
		i += n
	}
	return true
}
