// Package h holds the harnesses, one or more for each property.
package h

import (
	"fmt"
	"runtime"
	"unicode/utf8"

	"github.com/lyraproj/hiera/api"
	"github.com/lyraproj/hiera/zzverif/sym"
)

// a segment of the specified grammar
type seg struct {
	text  string
	isInt bool
	n     int
}

// specKey is the grammar of C01, written independently of the implementation: it walks the bytes once,
// collecting the text of the current segment and whether any of it was quoted.
func specKey(s string) (segs []seg, ok bool) {
	var cur []byte
	quoted := false
	i := 0
	flush := func() bool {
		if !quoted {
			if len(cur) == 0 {
				return false
			}
			if n, isInt := specInt32(cur); isInt {
				if len(segs) == 0 {
					return false
				}
				segs = append(segs, seg{isInt: true, n: n})
				cur, quoted = nil, false
				return true
			}
		}
		segs = append(segs, seg{text: string(cur)})
		cur, quoted = nil, false
		return true
	}
	for i < len(s) {
		c := s[i]
		i++
		if c == '.' {
			if !flush() {
				return nil, false
			}
			continue
		}
		if c == '\'' || c == '"' {
			quoted = true
			closed := false
			for i < len(s) {
				d := s[i]
				i++
				if d == c {
					closed = true
					break
				}
				cur = append(cur, d)
			}
			if !closed {
				return nil, false
			}
			continue
		}
		cur = append(cur, c)
	}
	if !flush() {
		return nil, false
	}
	return segs, true
}

// specInt32 says whether b is a decimal integer that fits 32 bits.
func specInt32(b []byte) (int, bool) {
	neg := false
	if b[0] == '-' || b[0] == '+' {
		neg = b[0] == '-'
		b = b[1:]
	}
	if len(b) == 0 {
		return 0, false
	}
	n := 0
	for _, c := range b {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
		if n > 1<<33 {
			return 0, false
		}
	}
	if neg {
		n = -n
	}
	if n < -(1<<31) || n >= 1<<31 {
		return 0, false
	}
	return n, true
}

// try runs f and returns the error it panics with; a run time error is never acceptable.
func try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if re, ok := r.(runtime.Error); ok {
				sym.Assert(false, "crashed with a run time error: "+re.Error())
			}
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// tryAny is try for functions of dgo that report a bad value by a failed type assertion.
func tryAny(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// C01Parse compares api.NewKey with the grammar for every short string.
func C01Parse() {
	s := sym.String(0, sym.Bound("len", 5), sym.AlphabetKey)
	checkKey(s)
}

// C01Long checks longer keys made of template pieces: text, integers, quotes and dots.
func C01Long() {
	n := sym.Bound("pieces", 4)
	s := ""
	for i := 0; i < n; i++ {
		switch sym.Choice(6) {
		case 0:
			s += "."
		case 1:
			s += sym.String(1, 1, "")
		case 2:
			s += string([]byte{sym.Byte("0123456789"), sym.Byte("0123456789")})
		case 3:
			q := sym.Byte("'\"")
			s += string([]byte{q}) + sym.String(0, 2, sym.AlphabetKey) + string([]byte{q})
		case 4:
			s += "429496729" + string([]byte{sym.Byte("0123456789")})
		case 5:
			s += "214748364" + string([]byte{sym.Byte("0123456789")})
		}
	}
	checkKey(s)
}

func checkKey(s string) {
	sym.Assume(utf8.ValidString(s))
	want, ok := specKey(s)
	var k api.Key
	err := try(func() { k = api.NewKey(s) })
	if err != nil {
		sym.Reach("rejected")
		sym.Observe("error " + err.Error())
		sym.Assert(!ok, "a key of the grammar is rejected")
		return
	}
	sym.Reach("accepted")
	sym.Assert(ok, "a key outside the grammar is accepted")
	parts := k.Parts()
	sym.Observe(fmt.Sprint(len(parts)))
	sym.Assert(len(parts) == len(want), "wrong number of segments")
	for i, w := range want {
		switch p := parts[i].(type) {
		case int:
			sym.Assert(w.isInt, "a literal segment became an index")
			sym.Assert(p == w.n, "wrong index")
		case string:
			sym.Assert(!w.isInt, "an index segment became text")
			sym.Assert(p == w.text, "wrong segment text")
			sym.Observe(p)
		default:
			sym.Assert(false, "segment is neither text nor index")
		}
	}
	sym.Assert(k.Source() == s, "source text changed")
	sym.Assert(k.Root() == want[0].text, "root is not the first segment")
}
