// Package models holds Go models of library functions whose real code is out
// of the engine's reach (formatting through reflection, assembly).  The engine
// interprets them in place of the originals.
package models

import (
	"errors"
	"io"
	"sync"
)

// ---- provided by the engine

func printed()                                     {}
func isStd(w any) bool                             { return false }
func lazySprintf(format string, args []any) string { return doSprintf(format, args) }
func typeName(v any) string                        { return "" }
func kindOf(v any) int                             { return 0 }
func intOf(v any) uint64                           { return 0 }
func strOf(v any) string                           { return "" }
func lenAny(v any) int                             { return 0 }
func swapAny(v any, i, j int)                      {}
func quietly(f func())                             { f() }
func parallel() bool                               { return false }

// ---- formatting

const digitsL = "0123456789abcdef"
const digitsU = "0123456789ABCDEF"

func udec(u uint64) string {
	if u < 10 {
		return string([]byte{byte(u) + '0'})
	}
	var b []byte
	for u > 0 {
		b = append(b, byte(u%10)+'0')
		u /= 10
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func sdec(u uint64) string {
	if int64(u) < 0 {
		return "-" + udec(-u)
	}
	return udec(u)
}

func hex(u uint64, dig string, min int) string {
	var b []byte
	for u > 0 || len(b) < min {
		b = append(b, dig[u&15])
		u >>= 4
	}
	if len(b) == 0 {
		b = append(b, '0')
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func quote(s string) string {
	b := []byte{'"'}
	for i, r := range s {
		switch {
		case r == '"' || r == '\\':
			b = append(b, '\\', byte(r))
		case r >= 7 && r <= 13:
			b = append(b, '\\', "abtnvfr"[r-7])
		case r < 0x20 || r == 0x7f:
			b = append(b, '\\', 'x', digitsL[r>>4], digitsL[r&15])
		case r == 0xFFFD && (i+2 >= len(s) || s[i] != 0xEF || s[i+1] != 0xBF || s[i+2] != 0xBD):
			b = append(b, '\\', 'x', digitsL[s[i]>>4], digitsL[s[i]&15])
		case r >= 0x80 && r <= 0xA0 || r == 0xAD:
			b = append(b, '\\', 'u', '0', '0', digitsL[r>>4], digitsL[r&15])
		default:
			b = append(b, string(r)...)
		}
	}
	return string(append(b, '"'))
}

func value(v any) string {
	switch kindOf(v) {
	case 0:
		return "<nil>"
	case 1:
		if intOf(v) != 0 {
			return "true"
		}
		return "false"
	case 2:
		return sdec(intOf(v))
	case 3:
		return udec(intOf(v))
	case 4:
		return strOf(v)
	case 5:
		return v.(error).Error()
	case 6:
		return v.(interface{ String() string }).String()
	case 7:
		if b, ok := v.([]byte); ok {
			r := "["
			for i, x := range b {
				if i > 0 {
					r += " "
				}
				r += udec(uint64(x))
			}
			return r + "]"
		}
	}
	switch x := v.(type) {
	case []string:
		r := "["
		for i, y := range x {
			if i > 0 {
				r += " "
			}
			r += y
		}
		return r + "]"
	case []int:
		r := "["
		for i, y := range x {
			if i > 0 {
				r += " "
			}
			r += sdec(uint64(y))
		}
		return r + "]"
	}
	return "{" + typeName(v) + "}"
}

func text(v any) string {
	if kindOf(v) == 7 {
		if b, ok := v.([]byte); ok {
			return string(b)
		}
	}
	return value(v)
}

func pad(s string, width int, zero, left bool) string {
	n := 0
	for range s {
		n++
	}
	for ; n < width; n++ {
		if left {
			s += " "
		} else if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return s
}

func verb(c byte, v any, width, prec int, zero, left, plus, sharp, space bool) string {
	switch c {
	case 'v':
		if sharp && kindOf(v) == 4 {
			return quote(strOf(v))
		}
		return pad(value(v), width, zero, left)
	case 's':
		s := text(v)
		if prec >= 0 && prec < len(s) {
			n := 0
			for i := range s {
				if n == prec {
					s = s[:i]
					break
				}
				n++
			}
		}
		return pad(s, width, false, left)
	case 'q':
		if k := kindOf(v); k == 2 || k == 3 {
			u := intOf(v)
			if u == '\'' {
				return pad(`'\''`, width, false, left)
			}
			if u == '"' {
				return pad(`'"'`, width, false, left)
			}
			q := quote(string(rune(u)))
			return pad("'"+q[1:len(q)-1]+"'", width, false, left)
		}
		return pad(quote(text(v)), width, false, left)
	case 'd':
		k := kindOf(v)
		if k == 2 || k == 3 || k == 5 || k == 6 {
			s := udec(intOf(v))
			if k != 3 {
				s = sdec(intOf(v))
			}
			sign := ""
			if s[0] == '-' {
				sign, s = "-", s[1:]
			} else if plus {
				sign = "+"
			} else if space {
				sign = " "
			}
			if prec >= 0 {
				s = pad(s, prec, true, false)
			} else if zero && !left {
				s = pad(s, width-len(sign), true, false)
			}
			return pad(sign+s, width, false, left)
		}
		return value(v)
	case 'c':
		u := intOf(v)
		if int64(u) < 0 || u > 0x10FFFF {
			u = 0xFFFD
		}
		return pad(string(rune(u)), width, false, left)
	case 'x', 'X':
		dig := digitsL
		if c == 'X' {
			dig = digitsU
		}
		k := kindOf(v)
		if k == 4 || k == 7 {
			s := text(v)
			var b []byte
			for i := 0; i < len(s) && (prec < 0 || i < prec); i++ {
				if i > 0 && space {
					b = append(b, ' ')
				}
				if sharp && (i == 0 || space) {
					b = append(b, '0', c)
				}
				b = append(b, dig[s[i]>>4], dig[s[i]&15])
			}
			return pad(string(b), width, false, left)
		}
		u := intOf(v)
		neg := ""
		if k == 2 && int64(u) < 0 {
			u = -u
			neg = "-"
		}
		min := 1
		if zero {
			min = width - len(neg)
		}
		if prec >= 0 {
			min = prec
		}
		if sharp {
			neg += "0" + string([]byte{c})
		}
		return pad(neg+hex(u, dig, min), width, false, left)
	case 'b', 'o':
		u := intOf(v)
		neg := ""
		if kindOf(v) == 2 && int64(u) < 0 {
			u, neg = -u, "-"
		}
		sh := 1
		if c == 'o' {
			sh = 3
		}
		d := ""
		for {
			d = string([]byte{'0' + byte(u)&(1<<sh-1)}) + d
			if u >>= sh; u == 0 {
				break
			}
		}
		if zero && !left {
			d = pad(d, width-len(neg), true, false)
		}
		return pad(neg+d, width, false, left)
	case 'U':
		return pad("U+"+hex(intOf(v), digitsU, 4), width, false, left)
	case 't':
		return pad(value(v), width, false, left)
	case 'T':
		return typeName(v)
	case 'w':
		return value(v)
	case 'p':
		return "0xc000000000"
	}
	return "%!" + string([]byte{c}) + "(" + typeName(v) + "=" + value(v) + ")"
}

func doSprintf(format string, args []any) string {
	var b []byte
	ai := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			b = append(b, c)
			continue
		}
		i++
		if i >= len(format) {
			b = append(b, "%!(NOVERB)"...)
			break
		}
		zero, left, plus, sharp, space := false, false, false, false, false
		for i < len(format) {
			f := format[i]
			if f == '0' {
				zero = true
			} else if f == '-' {
				left = true
			} else if f == '+' {
				plus = true
			} else if f == '#' {
				sharp = true
			} else if f == ' ' {
				space = true
			} else {
				break
			}
			i++
		}
		width := 0
		if i < len(format) && format[i] == '*' && ai < len(args) {
			if width = int(intOf(args[ai])); width < 0 {
				width, left = -width, true
			}
			ai++
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		prec := -1
		if i < len(format) && format[i] == '.' {
			prec = 0
			for i++; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				prec = prec*10 + int(format[i]-'0')
			}
		}
		if i >= len(format) {
			b = append(b, "%!(NOVERB)"...)
			break
		}
		v := format[i]
		if v == '%' {
			b = append(b, '%')
			continue
		}
		if ai >= len(args) {
			b = append(b, "%!"...)
			b = append(b, v)
			b = append(b, "(MISSING)"...)
			continue
		}
		b = append(b, verb(v, args[ai], width, prec, zero, left, plus, sharp, space)...)
		ai++
	}
	return string(b)
}

// Sprintf models fmt.Sprintf.
func Sprintf(format string, args ...any) string { return lazySprintf(format, args) }

func sprint(args []any, spaces bool) string {
	s := ""
	for i, a := range args {
		if i > 0 && (spaces || (kindOf(a) != 4 && kindOf(args[i-1]) != 4)) {
			s += " "
		}
		s += value(a)
	}
	return s
}

// Sprint models fmt.Sprint.
func Sprint(args ...any) string { return sprint(args, false) }

// Sprintln models fmt.Sprintln.
func Sprintln(args ...any) string { return sprint(args, true) + "\n" }

type fmtError struct {
	s string
	w error
}

func (e *fmtError) Error() string { return e.s }
func (e *fmtError) Unwrap() error { return e.w }

// Errorf models fmt.Errorf.
func Errorf(format string, args ...any) error {
	var w error
	ai := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			if format[i] == '%' {
				continue
			}
			if format[i] == 'w' && ai < len(args) {
				w, _ = args[ai].(error)
			}
			ai++
		}
	}
	return &fmtError{lazySprintf(format, args), w}
}

// Fprintf models fmt.Fprintf.
func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	if isStd(w) {
		printed()
		return 0, nil
	}
	return w.Write([]byte(lazySprintf(format, args)))
}

// Fprint models fmt.Fprint.
func Fprint(w io.Writer, args ...any) (int, error) {
	if isStd(w) {
		printed()
		return 0, nil
	}
	return w.Write([]byte(sprint(args, false)))
}

// Fprintln models fmt.Fprintln.
func Fprintln(w io.Writer, args ...any) (int, error) {
	if isStd(w) {
		printed()
		return 0, nil
	}
	return w.Write([]byte(sprint(args, true) + "\n"))
}

// Appendf models fmt.Appendf.
func Appendf(b []byte, format string, args ...any) []byte {
	return append(b, lazySprintf(format, args)...)
}

// Append models fmt.Append.
func Append(b []byte, args ...any) []byte { return append(b, sprint(args, false)...) }

// Printf, Print and Println only count.
func Printf(format string, args ...any) (int, error) { printed(); return 0, nil }
func Print(args ...any) (int, error)                 { printed(); return 0, nil }
func Println(args ...any) (int, error)               { printed(); return 0, nil }
func Logf(format string, args ...any)                { printed() }
func Log(args ...any)                                { printed() }

func asTarget(err error, target any) bool { return false }
func comparable(v any) bool               { return true }

// ErrorsIs models errors.Is.
func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return errorsIs(err, target, comparable(target))
}

func errorsIs(err, target error, cmp bool) bool {
	for {
		if cmp && comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, y := range x.Unwrap() {
				if errorsIs(y, target, cmp) {
					return true
				}
			}
			return false
		}
		if err = errors.Unwrap(err); err == nil {
			return false
		}
	}
}

// ErrorsAs models errors.As.
func ErrorsAs(err error, target any) bool {
	for err != nil {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		if x, ok := err.(interface{ Unwrap() []error }); ok {
			for _, y := range x.Unwrap() {
				if ErrorsAs(y, target) {
					return true
				}
			}
			return false
		}
		err = errors.Unwrap(err)
	}
	return false
}

// ---- bytes and strings

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func Index(a, b []byte) int { return IndexString(string(a), string(b)) }

func IndexString(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func StringsCount(s, sub string) int {
	if len(sub) == 0 {
		n := 1
		for range s {
			n++
		}
		return n
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}

func BytesCount(s, sub []byte) int { return StringsCount(string(s), string(sub)) }

func ReplaceAll(s, old, nw string) string { return Replace(s, old, nw, -1) }

func Replace(s, old, nw string, n int) string {
	if len(old) == 0 {
		panic("models: Replace of empty string")
	}
	r := ""
	i := 0
	for i < len(s) {
		if n != 0 && i+len(old) <= len(s) && s[i:i+len(old)] == old {
			r += nw
			i += len(old)
			n--
			continue
		}
		r += s[i : i+1]
		i++
	}
	return r
}

func IndexRune(s string, r rune) int {
	if r >= 0 && r < 0x80 {
		return IndexByteString(s, byte(r))
	}
	for i, x := range s {
		if x == r {
			return i
		}
	}
	return -1
}

func ContainsRune(s string, r rune) bool { return IndexRune(s, r) >= 0 }

func ToUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

func ToLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func IsSpace(r rune) bool {
	return r == ' ' || (r >= 9 && r <= 13) || r == 0x85 || r == 0xA0
}

// right for all bytes
func IsLetter(r rune) bool {
	return (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || r == 0xAA || r == 0xB5 || r == 0xBA || r >= 0xC0 && r != 0xD7 && r != 0xF7
}
func IsDigit(r rune) bool { return r >= '0' && r <= '9' }
func IsPrint(r rune) bool { return r >= 32 && r < 127 || r >= 0xA1 && r != 0xAD }

func IsControl(r rune) bool {
	return r >= 0 && r < 32 || r >= 127 && r < 160
}
func IsUpper(r rune) bool {
	return r >= 'A' && r <= 'Z' || r >= 0xC0 && r <= 0xDE && r != 0xD7
}
func IsLower(r rune) bool {
	return r >= 'a' && r <= 'z' || r == 0xB5 || r >= 0xDF && r <= 0xFF && r != 0xF7
}
func IsGraphic(r rune) bool { return r == 0xA0 || IsPrint(r) }
func IsPunct(r rune) bool {
	return r > 32 && r < 127 && IndexByteString("!\"#%&'()*,-./:;?@[\\]_{}", byte(r)) >= 0 ||
		r == 0xA1 || r == 0xA7 || r == 0xAB || r == 0xB6 || r == 0xB7 || r == 0xBB || r == 0xBF
}

func BytesEqualFold(a, b []byte) bool { return ToLower(string(a)) == ToLower(string(b)) }

// SortSlice models sort.Slice.
func SortSlice(x any, less func(i, j int) bool) {
	n := lenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAny(x, j, j-1)
		}
	}
}

// ---- what the sync package keeps

// (initialisers of this package do not run)
var pools map[*sync.Pool][]any

// PoolGet gives what was put last.
func PoolGet(p *sync.Pool) (x any) {
	if l := pools[p]; len(l) > 0 && !parallel() {
		quietly(func() {
			x = l[len(l)-1]
			pools[p] = l[:len(l)-1]
		})
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, x any) {
	if x == nil || parallel() {
		return
	}
	quietly(func() {
		if pools == nil {
			pools = map[*sync.Pool][]any{}
		}
		pools[p] = append(pools[p], x)
	})
}

var maps map[*sync.Map]map[any]any

func MapLoad(m *sync.Map, k any) (any, bool) {
	v, ok := maps[m][k]
	return v, ok
}

func MapStore(m *sync.Map, k, v any) {
	quietly(func() {
		if maps == nil {
			maps = map[*sync.Map]map[any]any{}
		}
		if maps[m] == nil {
			maps[m] = map[any]any{}
		}
		maps[m][k] = v
	})
}

func MapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	if old, ok := maps[m][k]; ok {
		return old, true
	}
	MapStore(m, k, v)
	return v, false
}

func MapDelete(m *sync.Map, k any) { quietly(func() { delete(maps[m], k) }) }

func MapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	old, ok := maps[m][k]
	MapDelete(m, k)
	return old, ok
}

func MapSwap(m *sync.Map, k, v any) (any, bool) {
	old, ok := maps[m][k]
	MapStore(m, k, v)
	return old, ok
}

func MapRange(m *sync.Map, f func(k, v any) bool) {
	for k, v := range maps[m] {
		if !f(k, v) {
			return
		}
	}
}

func MapClear(m *sync.Map) { quietly(func() { delete(maps, m) }) }
