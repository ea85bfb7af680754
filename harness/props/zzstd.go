package props

import (
	"bytes"
	"container/list"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf8"

	"github.com/aiq/tok/zzverif/vp"
)

// The harnesses of this file belong to no property: they run standard library functions that a
// change of the code under test may come to use, and compare executor and compiled code
// (bin/gosmt check ZZ).

// ZZ_strings: functions of package strings.
func ZZ_strings() {
	t := text(3)
	u := text(2)
	switch vp.Choose(30) {
	case 0:
		vp.ObserveStr("r", strings.NewReplacer("\r\n", "\n", "a", "bb").Replace(t))
	case 1:
		vp.ObserveStr("r", strings.NewReplacer("\r", "\n").Replace(t))
	case 2:
		vp.ObserveStr("r", strings.TrimLeft(t, "ab"))
	case 3:
		vp.ObserveStr("r", strings.TrimRight(t, " \n"))
	case 4:
		vp.ObserveStr("r", strings.TrimPrefix(t, u))
	case 5:
		vp.ObserveStr("r", strings.TrimSuffix(t, u))
	case 6:
		vp.ObserveInt("r", len(strings.Split(t, u)))
	case 7:
		vp.ObserveInt("r", len(strings.SplitN(t, "a", 2)))
	case 8:
		vp.ObserveInt("r", len(strings.Fields(t)))
	case 9:
		vp.ObserveInt("r", strings.LastIndexAny(t, u))
	case 10:
		vp.ObserveInt("r", strings.LastIndexFunc(t, unicode.IsSpace))
	case 11:
		vp.ObserveStr("r", strings.Map(func(r rune) rune {
			if r == 'a' {
				return -1
			}
			return r
		}, t))
	case 12:
		a, b, ok := strings.Cut(t, u)
		vp.ObserveStr("a", a)
		vp.ObserveStr("b", b)
		vp.ObserveBool("ok", ok)
	case 13:
		vp.ObserveStr("r", strings.Repeat(t, 3))
	case 14:
		vp.ObserveStr("r", strings.ReplaceAll(t, "ab", "c"))
	case 15:
		vp.ObserveStr("r", strings.ToLower(t))
	case 16:
		vp.ObserveStr("r", strings.ToUpper(t))
	case 17:
		vp.ObserveStr("r", strings.TrimSpace(t))
	case 18:
		var b strings.Builder
		b.WriteString(t)
		b.WriteByte('x')
		b.WriteRune('\u00e9')
		for _, r := range t {
			b.WriteRune(r)
		}
		vp.ObserveStr("r", b.String())
	case 19:
		r := strings.NewReader(t)
		n := 0
		for {
			_, _, err := r.ReadRune()
			if err != nil {
				break
			}
			n++
		}
		vp.ObserveInt("r", n)
	case 20:
		vp.ObserveBool("r", strings.ContainsFunc(t, unicode.IsUpper))
	case 21:
		vp.ObserveInt("r", len(strings.FieldsFunc(t, func(r rune) bool { return r == ',' })))
	case 22:
		vp.ObserveStr("r", strings.TrimFunc(t, unicode.IsDigit))
	case 23:
		vp.ObserveInt("r", len(strings.SplitAfter(t, "\n")))
	case 24:
		vp.ObserveBool("r", t < u)
	case 25:
		a, ok := strings.CutPrefix(t, u)
		vp.ObserveStr("a", a)
		vp.ObserveBool("ok", ok)
	case 26:
		vp.ObserveInt("r", strings.Index(strings.ToLower(t), "a"))
	case 27:
		vp.ObserveInt("r", strings.IndexByte(t, 'a'))
	case 28:
		vp.ObserveInt("r", strings.Compare(t, u))
	case 29:
		vp.ObserveStr("r", strings.Title(t))
	}
}

// ZZ_bytes: functions of package bytes, unicode and utf8.
func ZZ_bytes() {
	t := text(3)
	b := []byte(t)
	switch vp.Choose(20) {
	case 0:
		vp.ObserveInt("r", bytes.IndexByte(b, 'a'))
	case 1:
		vp.ObserveBool("r", bytes.HasPrefix(b, []byte("ab")))
	case 2:
		vp.ObserveInt("r", utf8.RuneCount(b))
	case 3:
		r, n := utf8.DecodeLastRune(b)
		vp.ObserveInt("r", int(r))
		vp.ObserveInt("n", n)
	case 4:
		vp.ObserveInt("r", len([]rune(t)))
	case 5:
		rs := []rune(t)
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
		vp.ObserveStr("r", string(rs))
	case 6:
		vp.ObserveBool("r", utf8.FullRuneInString(t))
	case 7:
		vp.ObserveBool("r", len(b) > 0 && utf8.RuneStart(b[0]))
	case 8:
		r, _ := utf8.DecodeRuneInString(t)
		vp.ObserveBool("d", unicode.IsDigit(r))
		vp.ObserveBool("l", unicode.IsLetter(r))
	case 9:
		r, _ := utf8.DecodeRuneInString(t)
		vp.ObserveInt("l", int(unicode.ToLower(r)))
		vp.ObserveInt("u", int(unicode.ToUpper(r)))
	case 10:
		r, _ := utf8.DecodeRuneInString(t)
		vp.ObserveInt("f", int(unicode.SimpleFold(r)))
	case 11:
		r, _ := utf8.DecodeRuneInString(t)
		vp.ObserveInt("n", utf8.RuneLen(r))
		vp.ObserveStr("s", string(utf8.AppendRune(nil, r)))
	case 12:
		var buf bytes.Buffer
		buf.WriteString(t)
		buf.WriteByte('x')
		fmt.Fprintf(&buf, "%d-%s", 12, t)
		vp.ObserveStr("s", buf.String())
	case 13:
		vp.ObserveInt("n", bytes.Count(b, []byte("a")))
	case 14:
		e := make([]byte, 4)
		n := utf8.EncodeRune(e, 0x20ac)
		vp.ObserveStr("s", string(e[:n]))
	case 15:
		r, _ := utf8.DecodeRuneInString(t)
		vp.ObserveBool("d", unicode.Is(unicode.Hex_Digit, r))
		vp.ObserveBool("s", unicode.In(r, unicode.Space, unicode.Nd))
	case 16:
		vp.ObserveBool("v", utf8.ValidString(t))
	case 17:
		vp.ObserveInt("c", bytes.Compare(b, []byte("ab")))
	case 18:
		c := append([]byte(nil), b...)
		copy(c, "x")
		vp.ObserveStr("c", string(c))
	case 19:
		vp.ObserveBool("v", bytes.EqualFold(b, []byte("K")))
	}
}

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return len(b[i]) < len(b[j]) }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

type zzErr struct{ n int }

func (e *zzErr) Error() string { return "zz " + strconv.Itoa(e.n) }

// ZZ_other: sort, strconv, errors, sync, maps, closures, defer and recover, goroutine-free channels.
func ZZ_other() {
	t := text(3)
	a, b := int(vp.Byte()), int(vp.Byte())
	switch vp.Choose(30) {
	case 0:
		l := []int{a, b, 5}
		sort.Ints(l)
		vp.ObserveInt("r", l[0]*65536+l[1]*256+l[2])
	case 1:
		l := byLen{t, "ab", "x"}
		sort.Sort(l)
		vp.ObserveStr("r", l[0]+l[1])
	case 2:
		l := byLen{t, "ab", "x"}
		sort.Stable(sort.Reverse(l))
		vp.ObserveStr("r", l[0]+l[1])
	case 3:
		l := []int{1, 5, 9, 100}
		vp.ObserveInt("r", sort.SearchInts(l, a))
	case 4:
		vp.ObserveInt("r", sort.Search(10, func(i int) bool { return i*i >= a }))
	case 5:
		n, err := strconv.Atoi(t)
		vp.ObserveInt("r", n)
		vp.ObserveBool("e", err == nil)
	case 6:
		n, err := strconv.ParseInt(t, 16, 8)
		vp.ObserveInt("r", int(n))
		vp.ObserveBool("e", err == nil)
	case 7:
		n, err := strconv.ParseUint(t, 10, 64)
		vp.ObserveInt("r", int(n))
		vp.ObserveBool("e", errors.Is(err, strconv.ErrSyntax))
	case 8:
		v, err := strconv.ParseBool(t)
		vp.ObserveBool("r", v)
		vp.ObserveBool("e", err == nil)
	case 9:
		vp.ObserveStr("r", strconv.FormatInt(int64(a), 16))
	case 10:
		var e error = fmt.Errorf("x %w", &zzErr{a})
		var z *zzErr
		ok := errors.As(e, &z)
		vp.ObserveBool("ok", ok)
		vp.ObserveInt("n", z.n)
	case 11:
		var once sync.Once
		n := 0
		once.Do(func() { n++ })
		once.Do(func() { n++ })
		vp.ObserveInt("n", n)
	case 12:
		var mu sync.RWMutex
		mu.RLock()
		mu.RUnlock()
		mu.Lock()
		defer mu.Unlock()
		vp.ObserveInt("n", 1)
	case 13:
		var c atomic.Int64
		c.Add(int64(a))
		c.Store(c.Load() + 1)
		vp.ObserveInt("n", int(c.Load()))
	case 14:
		var c int32
		atomic.AddInt32(&c, 3)
		vp.ObserveInt("n", int(atomic.LoadInt32(&c)))
	case 15:
		m := map[rune]int{}
		for i, r := range t {
			if _, ok := m[r]; !ok {
				m[r] = i
			}
		}
		vp.ObserveInt("n", len(m))
		vp.ObserveInt("a", m['a'])
	case 16:
		m := map[string]bool{"a": true, "ab": false}
		v, ok := m[t]
		vp.ObserveBool("v", v)
		vp.ObserveBool("ok", ok)
		delete(m, t)
		vp.ObserveInt("n", len(m))
	case 17:
		l := list.New()
		for _, r := range t {
			l.PushFront(r)
		}
		n := 0
		for e := l.Front(); e != nil; e = e.Next() {
			n = n*3 + int(e.Value.(rune))
		}
		vp.ObserveInt("n", n)
	case 18:
		vp.ObserveInt("n", bits.Len(uint(a))+bits.OnesCount8(uint8(b)))
	case 19:
		hi, lo := bits.Mul64(uint64(a)<<60, uint64(b))
		vp.ObserveInt("n", int(hi^lo))
	case 20:
		vp.ObserveBool("n", a > math.MaxInt8)
	case 21:
		r := func() (res int) {
			defer func() {
				if x := recover(); x != nil {
					res = 7
				}
			}()
			return int(t[a])
		}()
		vp.ObserveInt("n", r)
	case 22:
		l := []int{a, b}
		sort.Slice(l, func(i, j int) bool { return l[i] > l[j] })
		vp.ObserveInt("n", l[0])
	case 23:
		if vp.Bool() {
			vp.ObserveStr("s", fmt.Sprintf("%s|%.1s|%5.2s|%-4s|%4d|%-3d|%c|%3c|%.0s|%3q", t, t, "abc", t, b, a, 'x', rune(a), t, "a"))
			return
		}
		vp.ObserveStr("s", fmt.Sprintf("%s|%v|%d|%5d|%-3s|%x|%c|%+v|%08b", t, a, b, 7, "a", 255, 'x', 3, 5))
	case 24:
		vp.ObserveStr("s", fmt.Sprint(a, b, t))
	case 25:
		type pair struct{ a, b int }
		m := map[pair]string{{1, 2}: "x"}
		vp.ObserveStr("s", m[pair{a, b}])
	case 26:
		n := 0
	loop:
		for i := 0; i < 3; i++ {
			switch {
			case i == a:
				continue loop
			case i == b:
				break loop
			}
			n += i + 1
		}
		vp.ObserveInt("n", n)
	case 27:
		var arr [4]int
		arr[a&3] = b
		c := arr
		c[0]++
		vp.ObserveInt("n", arr[0]+c[0])
	case 28:
		var x interface{} = a
		if vp.Bool() {
			x = t
		}
		switch v := x.(type) {
		case int:
			vp.ObserveInt("n", v)
		case fmt.Stringer:
			vp.ObserveInt("n", 1)
		case string:
			vp.ObserveStr("n", v)
		}
	case 29:
		ch := make(chan int, 2)
		ch <- a
		ch <- b
		close(ch)
		n := 0
		for v := range ch {
			n += v
		}
		vp.ObserveInt("n", n)
	}
}
