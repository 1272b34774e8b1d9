package ref

import "strings"

// Reader is the reference reader for possibly malformed objects.  It is a direct transcription of the
// documented rules (PDF 7.2, 7.3 plus the salvage rules of properties C04 and C05) over a byte slice,
// with none of the implementation's buffering, unreading and seeking.
type Reader struct {
	B    []byte
	P    int
	Errs map[string]bool
	// Depth limits nesting like the implementation's documented limit.
	quiet bool
}

const (
	EInvalidKey    = "invalid dictionary key type"
	EInvalidHex    = "invalid hex string character"
	EInvalidName   = "invalid name escape character"
	EInvalidOctal  = "invalid octal in string"
	EMissingValue  = "missing dictionary value"
	EUnclosedArray = "unclosed array"
	EUnclosedDict  = "unclosed dictionary"
	EUnclosedHex   = "unclosed hex string"
	EUnclosedStrm  = "unclosed stream"
	EUnclosedStr   = "unclosed string"
	EUnclosedEsc   = "unclosed escape in string"
	EUnclosedOct   = "unclosed octal in string"
	EUnneededName  = "unnecessary espace sequence in name"
	EUnneededStr   = "unnecessary espace sequence in string"
)

type end int

const (
	none end = iota
	endFile
	endArray
	endDict
	endHex
	endString
)

func NewReader(b []byte) *Reader { return &Reader{B: b, Errs: map[string]bool{}} }

func (r *Reader) err(s string) {
	if !r.quiet {
		r.Errs[s] = true
	}
}

func IsWS(b byte) bool    { return b == 0 || b == 9 || b == 10 || b == 12 || b == 13 || b == 32 }
func IsDelim(b byte) bool { return strings.IndexByte("()<>[]/%", b) >= 0 }
func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}
func hexVal(b byte) byte {
	switch {
	case b <= '9':
		return b - '0'
	case b >= 'a':
		return b - 'a' + 10
	}
	return b - 'A' + 10
}

func (r *Reader) eof() bool { return r.P >= len(r.B) }

// Space skips white space and comments.
func (r *Reader) Space() {
	for !r.eof() {
		b := r.B[r.P]
		if IsWS(b) {
			r.P++
		} else if b == '%' {
			for !r.eof() && r.B[r.P] != '\n' && r.B[r.P] != '\r' {
				r.P++
			}
		} else {
			return
		}
	}
}

func (r *Reader) word() string {
	s := r.P
	for !r.eof() && !IsWS(r.B[r.P]) && !IsDelim(r.B[r.P]) {
		r.P++
	}
	return string(r.B[s:r.P])
}

// Object reads one object; e tells why there is none.
func (r *Reader) Object() (v V, e end) {
	r.Space()
	if r.eof() {
		return Null, endFile
	}
	rest := r.B[r.P:]
	two := func(s string) bool { return len(rest) >= 2 && string(rest[:2]) == s }
	switch {
	case rest[0] == '/':
		return r.name(), none
	case rest[0] == '[':
		return r.array(), none
	case rest[0] == ']':
		r.P++
		return Null, endArray
	case rest[0] == '(':
		return r.literal(), none
	case rest[0] == ')':
		r.P++
		return Null, endString
	case two("<<"):
		return r.dict(), none
	case two(">>"):
		r.P += 2
		return Null, endDict
	case rest[0] == '<':
		return r.hex(), none
	case rest[0] == '>':
		r.P++
		return Null, endHex
	case rest[0] >= '0' && rest[0] <= '9' || rest[0] == '+' || rest[0] == '-' || rest[0] == '.':
		n := r.number()
		save := r.P
		if g, ok := r.integer(); ok {
			r.Space()
			if r.word() == "R" {
				return Ref{int(float64(n)), g}, none
			}
		}
		r.P = save
		return n, none
	}
	return Key(r.word()), none
}

func (r *Reader) integer() (int, bool) {
	r.Space()
	n, ok := 0, false
	for !r.eof() && r.B[r.P] >= '0' && r.B[r.P] <= '9' {
		n = n*10 + int(r.B[r.P]-'0')
		r.P++
		ok = true
	}
	return n, ok
}

func (r *Reader) number() Num {
	neg := false
	if r.B[r.P] == '-' || r.B[r.P] == '+' {
		neg = r.B[r.P] == '-'
		r.P++
	}
	v, scale, real := 0.0, 1.0, false
	for ; !r.eof(); r.P++ {
		b := r.B[r.P]
		if b == '.' && !real {
			real = true
		} else if b >= '0' && b <= '9' {
			v = v*10 + float64(b-'0')
			if real {
				scale *= 10
			}
		} else {
			break
		}
	}
	v /= scale
	if neg {
		v = -v
	}
	return Num(v)
}

func (r *Reader) name() Name {
	r.P++
	var s []byte
	for !r.eof() && !IsWS(r.B[r.P]) && !IsDelim(r.B[r.P]) {
		b := r.B[r.P]
		r.P++
		if b == '#' {
			d := [2]byte{'0', '0'}
			for i := 0; i < 2; i++ {
				if r.eof() {
					break
				}
				if !isHex(r.B[r.P]) {
					r.err(EInvalidName)
					break
				}
				d[i] = r.B[r.P]
				r.P++
			}
			b = hexVal(d[0])<<4 | hexVal(d[1])
			if b > 32 && b < 127 && b != '#' && !IsDelim(b) {
				r.err(EUnneededName)
			}
		}
		s = append(s, b)
	}
	return Name(s)
}

func (r *Reader) array() Arr {
	r.P++
	a := Arr{}
	for {
		v, e := r.Object()
		if e == endFile {
			r.err(EUnclosedArray)
			return a
		}
		if e == endArray {
			return a
		}
		a = append(a, v)
	}
}

func (r *Reader) dict() Dict {
	r.P += 2
	d := Dict{}
	for {
		k, e := r.Object()
		if e == endFile {
			r.err(EUnclosedDict)
			return d
		}
		if e == endDict {
			return d
		}
		n, ok := k.(Name)
		if !ok {
			r.err(EInvalidKey)
			continue
		}
		v, e := r.Object()
		if e == endFile || e == endDict {
			r.err(EMissingValue)
			return d
		}
		d = append(d, KV{string(n), v})
	}
}

func (r *Reader) hex() Str {
	r.P++
	var digits []byte
	closed := false
	for !r.eof() {
		b := r.B[r.P]
		r.P++
		if b == '>' {
			closed = true
			break
		}
		if IsWS(b) {
			continue
		}
		if !isHex(b) {
			r.err(EInvalidHex)
			continue
		}
		digits = append(digits, b)
	}
	if !closed {
		r.err(EUnclosedHex)
	}
	if len(digits)%2 == 1 {
		digits = append(digits, '0')
	}
	var s []byte
	for i := 0; i < len(digits); i += 2 {
		s = append(s, hexVal(digits[i])<<4|hexVal(digits[i+1]))
	}
	return Str(s)
}

func (r *Reader) literal() Str {
	r.P++
	var s []byte
	depth := 1
	for {
		if r.eof() {
			r.err(EUnclosedStr)
			return Str(s)
		}
		b := r.B[r.P]
		r.P++
		switch b {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return Str(s)
			}
		case '\\':
			if r.eof() {
				r.err(EUnclosedEsc)
				return Str(append(s, '\\'))
			}
			c := r.B[r.P]
			r.P++
			switch {
			case c == '\n':
			case c == '\r':
				if r.eof() {
					r.err(EUnclosedEsc)
					return Str(s)
				}
				if r.B[r.P] == '\n' {
					r.P++
				}
			case c >= '0' && c <= '7':
				v := int(c - '0')
				for i := 0; i < 2; i++ {
					if r.eof() {
						r.err(EUnclosedOct)
						break
					}
					o := r.B[r.P]
					if o < '0' || o > '7' {
						break
					}
					if v*8+int(o-'0') > 255 {
						r.err(EInvalidOctal)
						break
					}
					v = v*8 + int(o-'0')
					r.P++
				}
				if v > 32 && v < 127 && v != '\\' && v != '(' && v != ')' {
					r.err(EUnneededStr)
				}
				s = append(s, byte(v))
			default:
				if i := strings.IndexByte("nrtbf", c); i >= 0 {
					c = "\n\r\t\b\f"[i]
				}
				s = append(s, c)
			}
			continue
		}
		s = append(s, b)
	}
}

// Doc reads the object behind "n g obj" (already consumed) and its stream, as the object model of a whole
// document would: value, stream payload (nil if none).
func (r *Reader) Indirect() (V, []byte) {
	v, e := r.Object()
	_ = e
	r.Space()
	if r.word() != "stream" {
		return v, nil
	}
	// up to the line end
	for {
		if r.eof() {
			r.err(EUnclosedStrm)
			return v, []byte{}
		}
		b := r.B[r.P]
		r.P++
		if b == '\n' {
			break
		}
		if b == '\r' {
			if r.eof() {
				r.err(EUnclosedStrm)
				return v, []byte{}
			}
			if r.B[r.P] == '\n' {
				r.P++
			}
			break
		}
	}
	data := string(r.B[r.P:])
	i := strings.Index(data, "endstream")
	if i < 0 {
		r.err(EUnclosedStrm)
		r.P = len(r.B)
		return v, []byte(data)
	}
	r.P += i + len("endstream")
	data = data[:i]
	if strings.HasSuffix(data, "\r\n") {
		data = data[:len(data)-2]
	} else if strings.HasSuffix(data, "\n") || strings.HasSuffix(data, "\r") {
		data = data[:len(data)-1]
	}
	return v, []byte(data)
}

// Parse reads one well-formed value.
func Parse(b []byte) V {
	r := NewReader(b)
	v, _ := r.Object()
	return v
}
