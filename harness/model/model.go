// Package model holds Go definitions the symbolic executor uses in place of
// standard-library functions whose own code is unsuited for symbolic execution
// (assembly, formatting). They are validated against the originals by the
// engine's self test.
package model

import (
	"bytes"
	"io"
	"os"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

type errorString struct{ s string }

func (e *errorString) Error() string { return e.s }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

// ---- helpers the executor implements
func fold(r rune) rune                   { panic("model") }
func typeName(x interface{}) string      { panic("model") }
func itoa(n int64) string                { panic("model") }
func opaque() string                     { panic("model") }
func intOf(x interface{}) (int64, bool)  { panic("model") }
func strOf(x interface{}) (string, bool) { panic("model") }
func boolOf(x interface{}) (bool, bool)  { panic("model") }

func format(verb byte, x interface{}) string {
	if verb == 'T' {
		return typeName(x)
	}
	if verb == 'd' {
		if n, ok := intOf(x); ok {
			return itoa(n)
		}
		return opaque()
	}
	if x == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	}
	s, ok := "", false
	if er, isErr := x.(error); isErr {
		s, ok = er.Error(), true
	} else if st, isSt := x.(interface{ String() string }); isSt {
		s, ok = st.String(), true
	} else {
		s, ok = strOf(x)
	}
	switch verb {
	case 'v', 's':
		if ok {
			return s
		}
		if verb == 'v' {
			if n, isInt := intOf(x); isInt {
				return itoa(n)
			}
			if b, isB := boolOf(x); isB {
				if b {
					return "true"
				}
				return "false"
			}
		}
		return opaque()
	case 'q':
		if ok {
			return Quote(s)
		}
		return opaque()
	}
	return opaque()
}

func Sprintf(f string, a ...interface{}) string {
	res := ""
	n := 0
	start := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		res += f[start:i]
		i++
		if i >= len(f) {
			return res + "%!(NOVERB)"
		}
		left, zero, width, prec := false, false, 0, -1
		for ; i < len(f) && (f[i] == '-' || f[i] == '0'); i++ {
			left, zero = left || f[i] == '-', zero || f[i] == '0'
		}
		for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
			width = width*10 + int(f[i]-'0')
		}
		if i < len(f) && f[i] == '.' {
			prec = 0
			for i++; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
				prec = prec*10 + int(f[i]-'0')
			}
		}
		if i >= len(f) {
			return res + "%!(NOVERB)"
		}
		start = i + 1
		switch f[i] {
		case '%':
			res += "%"
		case 'd', 's', 'v', 'q', 'T', 'w', 'c':
			if n >= len(a) {
				res += "%!" + f[i:i+1] + "(MISSING)"
			} else {
				v := f[i]
				if v == 'w' {
					v = 'v'
				}
				x := ""
				if v == 'c' {
					r, ok := intOf(a[n])
					if !ok {
						return opaque()
					}
					x = string(rune(r))
				} else {
					x = format(v, a[n])
				}
				if prec >= 0 {
					if v != 's' {
						return opaque()
					}
					x = firstRunes(x, prec)
				}
				if width > 0 {
					if zero && !left {
						return opaque()
					}
					x = pad(x, width, left)
				}
				res += x
			}
			n++
		default:
			return opaque()
		}
	}
	if start < len(f) {
		res += f[start:]
	}
	if n < len(a) {
		return opaque()
	}
	return res
}

// firstRunes are the first n runes of s.
func firstRunes(s string, n int) string {
	for i := range s {
		if n == 0 {
			return s[:i]
		}
		n--
	}
	return s
}

// pad fills s with blanks to n runes.
func pad(s string, n int, left bool) string {
	for k := utf8.RuneCountInString(s); k < n; k++ {
		if left {
			s += " "
		} else {
			s = " " + s
		}
	}
	return s
}

func Errorf(f string, a ...interface{}) error {
	msg := Sprintf(f, a...)
	n := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' {
			if f[i+1] == 'w' && n < len(a) {
				if er, ok := a[n].(error); ok {
					return &wrapError{msg, er}
				}
			}
			if f[i+1] != '%' {
				n++
			}
			i++
		}
	}
	return &errorString{msg}
}

func Sprint(a ...interface{}) string {
	res := ""
	prev := true
	for i, x := range a {
		_, isS := strOf(x)
		if i > 0 && !isS && !prev {
			res += " "
		}
		prev = isS
		res += format('v', x)
	}
	return res
}

func Sprintln(a ...interface{}) string {
	res := ""
	for i, x := range a {
		if i > 0 {
			res += " "
		}
		res += format('v', x)
	}
	return res + "\n"
}

// out collects what is printed while capturing.
var (
	out       string
	capturing bool
)

func put(s string) (int, error) {
	out += s
	return len(s), nil
}

// Capture is what f prints.
func Capture(f func()) string {
	out, capturing = "", true
	f()
	capturing = false
	return out
}

func Println(a ...interface{}) (int, error) {
	if !capturing {
		return 0, nil
	}
	return put(Sprintln(a...))
}

func Printf(f string, a ...interface{}) (int, error) {
	if !capturing {
		return 0, nil
	}
	return put(Sprintf(f, a...))
}

func Print(a ...interface{}) (int, error) {
	if !capturing {
		return 0, nil
	}
	return put(Sprint(a...))
}

// FileWrite and FileWriteString stand for the standard output.
func FileWrite(f *os.File, b []byte) (int, error) {
	if !capturing || f != os.Stdout {
		return len(b), nil
	}
	return put(string(b))
}

func FileWriteString(f *os.File, s string) (int, error) {
	if !capturing || f != os.Stdout {
		return len(s), nil
	}
	return put(s)
}

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return write(w, Sprintf(f, a...))
}
func Fprintln(w io.Writer, a ...interface{}) (int, error) { return write(w, Sprintln(a...)) }
func Fprint(w io.Writer, a ...interface{}) (int, error)   { return write(w, Sprint(a...)) }

func write(w io.Writer, s string) (int, error) {
	switch x := w.(type) {
	case *strings.Builder:
		return x.WriteString(s)
	case *bytes.Buffer:
		return x.WriteString(s)
	case *os.File:
		return FileWriteString(x, s)
	}
	return w.Write([]byte(s))
}

// ---- strings

func IndexRune(s string, r rune) int {
	if r < 0 || r > 0x10FFFF || (0xD800 <= r && r <= 0xDFFF) {
		return -1
	}
	for i, c := range s {
		if c == r {
			return i
		}
	}
	return -1
}

func ContainsRune(s string, r rune) bool {
	if r < 0 || r > 0x10FFFF || (0xD800 <= r && r <= 0xDFFF) {
		return false
	}
	for _, c := range s {
		if c == r {
			return true
		}
	}
	return false
}

func IndexAny(s, chars string) int {
	for i, c := range s {
		if ContainsRune(chars, c) {
			return i
		}
	}
	return -1
}

func ContainsAny(s, chars string) bool { return IndexAny(s, chars) >= 0 }

func IndexFunc(s string, f func(rune) bool) int {
	for i, c := range s {
		if f(c) {
			return i
		}
	}
	return -1
}

func EqualFold(s, t string) bool {
	i, j := 0, 0
	for i < len(s) && j < len(t) {
		a, n := decode(s[i:])
		b, m := decode(t[j:])
		if fold(a) != fold(b) {
			return false
		}
		i += n
		j += m
	}
	return i == len(s) && j == len(t)
}

func Count(s, sep string) int {
	if len(sep) == 0 {
		return RuneCountInString(s) + 1
	}
	n := 0
	for i := 0; i+len(sep) <= len(s); {
		if s[i:i+len(sep)] == sep {
			n++
			i += len(sep)
		} else {
			i++
		}
	}
	return n
}

func ValidString(s string) bool {
	for i := 0; i < len(s); {
		r, n := decode(s[i:])
		if r == 0xFFFD && n == 1 {
			return false
		}
		i += n
	}
	return true
}

func RuneCountInString(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

func decode(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func Quote(s string) string { return strconv.Quote(s) }

// ---- errors

func assignTo(err error, target interface{}) bool { panic("model") }

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if assignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

func BytesCompare(a, b []byte) int {
	x, y := string(a), string(b)
	if x < y {
		return -1
	}
	if x == y {
		return 0
	}
	return 1
}

// ---- sync: harnesses are sequential

func MutexLock(m *sync.Mutex)        {}
func MutexUnlock(m *sync.Mutex)      {}
func RWMutexLock(m *sync.RWMutex)    {}
func RWMutexUnlock(m *sync.RWMutex)  {}
func RWMutexRLock(m *sync.RWMutex)   {}
func RWMutexRUnlock(m *sync.RWMutex) {}

func LoadInt32(p *int32) int32              { return *p }
func StoreInt32(p *int32, v int32)          { *p = v }
func AddInt32(p *int32, d int32) int32      { *p += d; return *p }
func SwapInt32(p *int32, v int32) (o int32) { o = *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	if *p == o {
		*p = v
		return true
	}
	return false
}

func LoadInt64(p *int64) int64              { return *p }
func StoreInt64(p *int64, v int64)          { *p = v }
func AddInt64(p *int64, d int64) int64      { *p += d; return *p }
func SwapInt64(p *int64, v int64) (o int64) { o = *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	if *p == o {
		*p = v
		return true
	}
	return false
}

func LoadUint32(p *uint32) uint32               { return *p }
func StoreUint32(p *uint32, v uint32)           { *p = v }
func AddUint32(p *uint32, d uint32) uint32      { *p += d; return *p }
func SwapUint32(p *uint32, v uint32) (o uint32) { o = *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	if *p == o {
		*p = v
		return true
	}
	return false
}

func LoadUint64(p *uint64) uint64               { return *p }
func StoreUint64(p *uint64, v uint64)           { *p = v }
func AddUint64(p *uint64, d uint64) uint64      { *p += d; return *p }
func SwapUint64(p *uint64, v uint64) (o uint64) { o = *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	if *p == o {
		*p = v
		return true
	}
	return false
}

// ---- strings

func spaceByte(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'
}

func TrimSpace(s string) string {
	i, j := 0, len(s)
	for i < j {
		if s[i] < utf8.RuneSelf {
			if !spaceByte(s[i]) {
				break
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:j])
		if !unicode.IsSpace(r) {
			break
		}
		i += n
	}
	for i < j {
		if s[j-1] < utf8.RuneSelf {
			if !spaceByte(s[j-1]) {
				break
			}
			j--
			continue
		}
		r, n := utf8.DecodeLastRuneInString(s[i:j])
		if !unicode.IsSpace(r) {
			break
		}
		j -= n
	}
	return s[i:j]
}

// Replacer stands in for strings.Replacer: earlier pairs come first, an empty
// match is not followed by another empty match at the same place.
type Replacer struct{ oldnew []string }

func NewReplacer(oldnew ...string) *Replacer {
	if len(oldnew)%2 == 1 {
		panic("strings.NewReplacer: odd argument count")
	}
	return &Replacer{oldnew: append([]string(nil), oldnew...)}
}

func ReplacerReplace(r *Replacer, s string) string {
	res := ""
	last := 0
	prevEmpty := false
	for i := 0; i <= len(s); {
		hit := -1
		for k := 0; k+1 < len(r.oldnew); k += 2 {
			old := r.oldnew[k]
			if old == "" && prevEmpty {
				continue
			}
			if len(s)-i >= len(old) && s[i:i+len(old)] == old {
				hit = k
				break
			}
		}
		prevEmpty = hit >= 0 && r.oldnew[hit] == ""
		if hit >= 0 {
			res += s[last:i] + r.oldnew[hit+1]
			i += len(r.oldnew[hit])
			last = i
			continue
		}
		i++
	}
	return res + s[last:]
}

func Fields(s string) []string { return strings.FieldsFunc(s, unicode.IsSpace) }

func TrimLeft(s, set string) string {
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if !ContainsRune(set, r) {
			return s[i:]
		}
		i += n
	}
	return ""
}

func TrimRight(s, set string) string {
	for j := len(s); j > 0; {
		r, n := utf8.DecodeLastRuneInString(s[:j])
		if !ContainsRune(set, r) {
			return s[:j]
		}
		j -= n
	}
	return ""
}

func Trim(s, set string) string { return TrimRight(TrimLeft(s, set), set) }
