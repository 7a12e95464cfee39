package hl

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// Val is a RESP value, decoded independently of the code under test.
type Val struct {
	Kind byte // + - : $ *
	S    string
	N    int64
	A    []Val
	Null bool
}

// ErrShort means the bytes end inside the value.
var ErrShort = errors.New("the bytes end inside the value")

// Decode decodes one value strictly and returns how many bytes it took.
func Decode(b string) (Val, int, error) {
	i := strings.Index(b, "\r\n")
	if i < 0 {
		return Val{}, 0, ErrShort
	}
	if i == 0 {
		return Val{}, 0, errors.New("empty line")
	}
	head, pos := b[1:i], i+2
	v := Val{Kind: b[0]}
	switch b[0] {
	case '+', '-':
		if strings.ContainsAny(head, "\r\n") {
			return v, 0, fmt.Errorf("line break inside %q", head)
		}
		v.S = head
		return v, pos, nil
	case ':':
		n, err := strconv.ParseInt(head, 10, 64)
		if err != nil {
			return v, 0, err
		}
		v.N = n
		return v, pos, nil
	case '$':
		n, err := strconv.ParseInt(head, 10, 64)
		if err != nil || n < -1 || n > 1<<40 {
			return v, 0, fmt.Errorf("bulk length %q", head)
		}
		if n == -1 {
			v.Null = true
			return v, pos, nil
		}
		if int64(len(b)-pos) < n+2 {
			return v, 0, ErrShort
		}
		v.S = b[pos : pos+int(n)]
		if b[pos+int(n):pos+int(n)+2] != "\r\n" {
			return v, 0, fmt.Errorf("bulk string without terminator")
		}
		return v, pos + int(n) + 2, nil
	case '*':
		n, err := strconv.ParseInt(head, 10, 64)
		if err != nil || n < -1 || n > 1<<40 {
			return v, 0, fmt.Errorf("array length %q", head)
		}
		if n == -1 {
			v.Null = true
			return v, pos, nil
		}
		for k := int64(0); k < n; k++ {
			x, m, err := Decode(b[pos:])
			if err != nil {
				return v, 0, err
			}
			v.A = append(v.A, x)
			pos += m
		}
		return v, pos, nil
	}
	return v, 0, fmt.Errorf("unknown type byte %q", b[0])
}

// DecodeOne decodes bytes that must be exactly one value.
func DecodeOne(b string) (Val, error) {
	v, n, err := Decode(b)
	if err != nil {
		return v, err
	}
	if n != len(b) {
		return v, fmt.Errorf("%d bytes after the value", len(b)-n)
	}
	return v, nil
}

// DecodeAll decodes a sequence of values; rest is what follows the last complete one.
func DecodeAll(b string) (vs []Val, rest string, err error) {
	for b != "" {
		v, n, err := Decode(b)
		if err == ErrShort {
			return vs, b, nil
		}
		if err != nil {
			return vs, b, err
		}
		vs = append(vs, v)
		b = b[n:]
	}
	return vs, "", nil
}

// Encode is the canonical encoding of a value.
func (v Val) Encode() string {
	switch v.Kind {
	case '+', '-':
		return string(v.Kind) + v.S + "\r\n"
	case ':':
		return ":" + strconv.FormatInt(v.N, 10) + "\r\n"
	case '$':
		if v.Null {
			return "$-1\r\n"
		}
		return "$" + strconv.Itoa(len(v.S)) + "\r\n" + v.S + "\r\n"
	}
	if v.Null {
		return "*-1\r\n"
	}
	var b strings.Builder
	b.WriteString("*" + strconv.Itoa(len(v.A)) + "\r\n")
	for _, x := range v.A {
		b.WriteString(x.Encode())
	}
	return b.String()
}

func (v Val) String() string {
	switch v.Kind {
	case '+', '-':
		return fmt.Sprintf("%c%q", v.Kind, v.S)
	case ':':
		return strconv.FormatInt(v.N, 10)
	case '$':
		if v.Null {
			return "null"
		}
		return strconv.Quote(v.S)
	}
	if v.Null {
		return "null-array"
	}
	return fmt.Sprint(v.A)
}

// Equal compares two values (a null array and an empty array differ).
func (v Val) Equal(w Val) bool {
	if v.Kind != w.Kind || v.S != w.S || v.N != w.N || v.Null != w.Null || len(v.A) != len(w.A) {
		return false
	}
	for i := range v.A {
		if !v.A[i].Equal(w.A[i]) {
			return false
		}
	}
	return true
}

// Bulk, Arr and Cmd build values.
func Bulk(s string) Val { return Val{Kind: '$', S: s} }
func Arr(a ...Val) Val  { return Val{Kind: '*', A: a} }
func Cmd(a ...string) Val {
	v := Val{Kind: '*'}
	for _, x := range a {
		v.A = append(v.A, Bulk(x))
	}
	return v
}

// Collide holds pairs of different texts that have the same value under a common hash
// function (FNV of 64 and 32 bits, CRC, Adler, multiplicative and additive sums).
var Collide = [][2]string{
	{"2525f0679148d5e1", "0d0b7d6222178a26"}, {"781f49de", "401021bf"}, {"d6b94437", "a5846ecc"}, {"8755d764", "4170cb18"},
	{"c2c5802e", "4c2c6c25"}, {"0cb1f505", "912208a7"}, {"57c7e8dd", "ae345e04"}, {"cc623a9b", "08d12dfd"},
}
