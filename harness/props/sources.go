package props

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/parser"

	"verif/harness/sym"
)

var errBroken = errors.New("broken reader")

// pieces is a reader that hands out its data as the solver likes.
type pieces struct {
	data  []byte
	calls int
	most  int
	fail  bool // fail instead of reporting the end
	err   error
	few   bool
}

func (r *pieces) Read(p []byte) (int, error) {
	end := io.EOF
	if r.fail {
		end = r.err
	}
	if len(r.data) == 0 {
		return 0, end
	}
	n := len(r.data)
	if n > len(p) {
		n = len(p)
	}
	if r.calls < r.most {
		i := 0
		if !r.few {
			i = sym.Int("read"+strconv.Itoa(r.calls), 0, n)
		} else {
			i = []int{0, 1, n / 3, n - 1, n}[sym.Int("some"+strconv.Itoa(r.calls), 0, 4)]
		}
		n = sym.Concrete(i)
		r.calls++
	}
	copy(p, r.data[:n])
	if n < len(p) { // what is behind may be used as scratch space
		p[n] = 'b'
	}
	r.data = r.data[n:]
	if len(r.data) == 0 && sym.Decide(sym.Bool("together")) {
		return n, end
	}
	return n, nil
}

// slow gives a byte at a time, and often nothing.
type slow struct {
	data []byte
	wait int
	n    int
}

func (r *slow) Read(p []byte) (int, error) {
	r.n++
	if r.n%r.wait != 0 || len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	p[0] = r.data[0]
	r.data = r.data[1:]
	return 1, nil
}

// onlyReader hides everything but Read.
type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

// dressed is a reader with methods that say nothing about what is to be read,
// as a reader of another format, a buffer or a file may have.
type dressed struct {
	io.Reader
	size int
}

func (d dressed) Len() int                { return d.size }
func (d dressed) Size() int64             { return int64(d.size) }
func (d dressed) Cap() int                { return d.size }
func (d dressed) Buffered() int           { return d.size }
func (d dressed) Bytes() []byte           { return []byte("a reader") }
func (d dressed) String() string          { return "a reader" }
func (d dressed) Text() string            { return "a reader" }
func (d dressed) Name() string            { return "a reader" }
func (d dressed) GoString() string        { return "a reader" }
func (d dressed) Error() string           { return "a reader" }
func (d dressed) Available() int          { return d.size }
func (d dressed) AvailableBuffer() []byte { return nil }
func (d dressed) Close() error            { return errBroken }
func (d dressed) Sync() error             { return errBroken }

// C06_Forms: the same bytes in every form.
func C06_Forms() {
	_, table, names := fixedParser(sym.Shard("grammar", len(fixedGrammars)))
	p := parser.NewLL1Parser(table, names)
	text := sym.Bytes("x", sym.Shard("x", 8))
	want := parse(p, string(text))
	skip := 0
	var src any
	check := func() {}
	switch sym.Shard("form", 15) {
	case 0:
		sym.Freeze("source", text)
		src = text
	case 1:
		src = bytes.NewBuffer(text)
	case 2: // a buffer some of which has been read, with room behind
		skip = sym.Concrete(sym.Int("skip", 0, 3))
		b := bytes.NewBuffer(make([]byte, 0, 64))
		b.WriteString("zzz"[:skip])
		b.Write(text)
		got := b.Next(skip)
		sym.Assert(len(got) == skip, "harness")
		src = b
		check = func() {
			left := b.Bytes()
			sym.Assert(len(left) == 0 || bytes.Equal(left, text), "the buffer's content changes")
		}
	case 3:
		src = strings.NewReader(string(text))
	case 4:
		r := bytes.NewReader(append([]byte("ab"), text...))
		r.ReadByte()
		r.ReadByte()
		src = r
	case 5:
		src = &pieces{data: text, most: 3}
	case 6:
		src = onlyReader{&pieces{data: text, most: 2}}
	case 7:
		h := len(text) / 2
		src = io.MultiReader(bytes.NewReader(text[:h]), strings.NewReader(string(text[h:])))
	case 9: // the remainder of a buffered reader
		r := bufio.NewReaderSize(&pieces{data: append([]byte("xy"), text...), most: 2}, 16)
		r.ReadByte()
		r.ReadByte()
		src = r
	case 10: // a part of a part
		r := io.NewSectionReader(bytes.NewReader(append(append([]byte("abc"), text...), "abc"...)), 2, int64(len(text))+1)
		r.Seek(1, io.SeekStart)
		src = r
	case 11:
		src = dressed{&pieces{data: text, most: 2}, sym.Concrete(sym.Int("size", -1, len(text)+1))}
	case 12:
		src = &io.LimitedReader{R: &pieces{data: append(append([]byte(nil), text...), 'z'), most: 2}, N: int64(len(text))}
	case 14: // a reader that has nothing to give for a while
		src = &slow{data: append([]byte(nil), text...), wait: 150}
	case 13: // a buffer that is not a *bytes.Buffer
		src = struct{ *bytes.Buffer }{bytes.NewBuffer(text)}
	case 8: // used twice: the parser must not keep the caller's slice
		src = append([]byte(nil), text...)
	}
	got := parse(p, src)
	sym.Assert(same(want, got), "another form of the source gives another result")
	check()
	if b, ok := src.([]byte); ok && sym.Shard("form", 15) == 8 {
		for i := range b {
			b[i] = 'Z'
		}
		sym.Assert(same(want, got), "the result changes with the source")
		sym.Assert(same(want, parse(p, text)), "an earlier source is still used")
	}
	if want.err == nil {
		sym.Reach("C06 accepted")
	} else {
		sym.Reach("C06 rejected")
	}
	sym.Observe("accepted", got.err == nil)
}

// passing is a failure that says it may pass.
type passing struct{}

func (passing) Error() string   { return "try again" }
func (passing) Timeout() bool   { return true }
func (passing) Temporary() bool { return true }

// C06_Failing: a reader's failure is the parse's.
func C06_Failing() {
	_, table, names := fixedParser(sym.Shard("grammar", len(fixedGrammars)))
	p := parser.NewLL1Parser(table, names)
	text := sym.Bytes("x", sym.Shard("x", 8))
	err := []error{
		errBroken, io.ErrUnexpectedEOF, fmt.Errorf("connection lost: %w", io.EOF), errors.New("EOF"), passing{},
		io.ErrNoProgress, io.ErrClosedPipe, bufio.ErrTooLong, io.ErrShortBuffer,
	}[sym.Shard("err", 9)]
	r := &pieces{data: text, most: 2, fail: true, err: err}
	got := parse(p, r)
	sym.Assert(got.err != nil, "a reader's failure is not reported")
	sym.Assert(got.root == nil && got.names == nil, "an error comes with a result")
	sym.Reach("C06 failing")
}

type myString string

// C06_Unsupported: anything else is an error.
func C06_Unsupported() {
	p := parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{0: {0: {}}}, map[int]string{0: "S"})
	var nilBuffer *bytes.Buffer
	s := ""
	srcs := []any{
		nil, nilBuffer, 0, 'a', 1.5, true, errBroken, []string{"a"}, []rune{}, [0]byte{}, struct{}{}, &s,
		myString(""), map[int]byte{}, func() {}, bytes.Buffer{}, strings.Builder{},
	}
	i := sym.Shard("which", 32)
	if i >= len(srcs) {
		return
	}
	var got result
	panicked, msg := sym.Catch(func() { got = parse(p, srcs[i]) })
	sym.Assert(!panicked, "parsing panics: "+msg)
	sym.Assert(got.err != nil, "an unsupported source is parsed")
	sym.Assert(got.root == nil && got.names == nil, "an error comes with a result")
	sym.Reach("C06 unsupported")
	// the empty sources there are
	for _, src := range []any{"", []byte{}, []byte(nil), &bytes.Buffer{}, strings.NewReader("")} {
		sym.Assert(parse(p, src).err == nil, "an empty source is not parsed")
	}
}

// C06_Long: more data than any buffer on the way.
func C06_Long() {
	n := sym.Shard("n", 200000)

	p := parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{
		0: {'a': {parser.OpTerminal("a"), parser.OpNonTerminal(1)}, 0: {}, 'b': {parser.OpTerminal("b")}},
		1: {'a': {parser.OpNonTerminal(0)}, 'b': {parser.OpNonTerminal(0)}, 0: {}},
	}, map[int]string{0: "S"})
	text := make([]byte, n)
	for i := range text {
		text[i] = 'a'
	}
	at := sym.Shard("at", 4)
	odd := []int{n - 1, n / 2, 511, 512}[at]
	if odd >= n || odd < 0 {
		odd = 0
	}
	text[odd] = sym.Byte("odd")
	want := odd == n-1 && text[odd] == 'b' || text[odd] == 'a'
	var src any
	switch sym.Shard("form", 6) {
	case 0:
		src = string(text)
	case 1:
		src = text
	case 2:
		src = bytes.NewBuffer(text)
	case 3:
		src = strings.NewReader(string(text))
	case 4:
		src = onlyReader{bytes.NewReader(text)}
	case 5:
		src = &pieces{data: text, most: 1, few: true}
	}
	got := parse(p, src)
	sym.Assert((got.err == nil) == want, "a long source is not read as it is")
	if got.err == nil {
		sym.Assert(got.root.End() == n, "the tree does not span the source")
		sym.Reach("C06 long")
	}
}

func init() {
	reg("C06_Forms", C06_Forms)
	reg("C06_Failing", C06_Failing)
	reg("C06_Unsupported", C06_Unsupported)
	reg("C06_Long", C06_Long)
}
