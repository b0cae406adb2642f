package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"

	"stompmc/mc"
	"stompmc/mc/time"
	"stompmc/stomp"
	"stompmc/stomp/frame"
)

// The codec and the other sequential parts have no schedules: each execution
// enumerates a part of the inputs or operation sequences.

// batch spreads n cases over executions; the bound's shards take their share.
func batch(n, parts int, f func(i int)) {
	if parts > n {
		parts = n
	}
	if parts < 1 {
		return
	}
	b := mc.Choose(parts)
	c := 0
	for i := b; i < n; i += parts {
		f(i)
		if c++; c%64 == 0 {
			mc.Count(0, 0)
		}
	}
	mc.Count(int64(c), 0)
	mc.Outcome("done")
}

var allCommands = []string{"CONNECT", "STOMP", "CONNECTED", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT", "DISCONNECT", "MESSAGE", "RECEIPT", "ERROR"}

func toLib(f *F) *frame.Frame {
	if f == nil {
		return nil
	}
	l := frame.New(f.Cmd)
	for _, e := range f.H {
		l.Header.Add(e[0], e[1])
	}
	l.Body = f.Body
	return l
}

func sameFrame(l *frame.Frame, f *F) string {
	switch {
	case l == nil && f == nil:
		return ""
	case l == nil:
		return "a heart-beat"
	case f == nil:
		return "a frame " + l.Command
	case l.Command != f.Cmd:
		return fmt.Sprintf("command %q", l.Command)
	case fmt.Sprintf("%q", hdr(l.Header)) != fmt.Sprintf("%q", f.H):
		return fmt.Sprintf("headers %q", hdr(l.Header))
	case !bytes.Equal(l.Body, f.Body):
		return fmt.Sprintf("body %q", l.Body)
	}
	return ""
}

// words over strings
func strWords(alpha []string, lo, hi int) []string {
	var out []string
	level := []string{""}
	for l := 0; l <= hi; l++ {
		if l >= lo {
			out = append(out, level...)
		}
		var next []string
		for _, w := range level {
			for _, a := range alpha {
				next = append(next, w+a)
			}
		}
		level = next
	}
	return out
}

// ---------------------------------------------------------------- F01

// roundTrip writes fs through a writer and reads them through a reader.
func roundTrip(fs []*F, wsize, rsize int) string {
	var buf bytes.Buffer
	w := frame.NewWriterSize(&buf, wsize)
	for _, f := range fs {
		l := toLib(f)
		var before string
		if l != nil {
			before = fmt.Sprintf("%q %q", hdr(l.Header), l.Body)
		}
		if err := w.Write(l); err != nil {
			return fmt.Sprintf("writing %v fails: %v", f, err)
		}
		if l != nil && (fmt.Sprintf("%q %q", hdr(l.Header), l.Body) != before || l.Command != f.Cmd) {
			return fmt.Sprintf("writing %v changes it", f)
		}
	}
	raw := append([]byte(nil), buf.Bytes()...)
	r := frame.NewReaderSize(&buf, rsize)
	var got []*frame.Frame
	for i, f := range fs {
		l, err := r.Read()
		if err != nil {
			return fmt.Sprintf("reading frame %d of %q fails: %v", i, raw, err)
		}
		if d := sameFrame(l, f); d != "" {
			return fmt.Sprintf("frame %d, %v, is read as %s (%q)", i, f, d, raw)
		}
		got = append(got, l)
	}
	if l, err := r.Read(); err == nil {
		return fmt.Sprintf("something is read after the end of %q: %v", raw, l)
	}
	// frames read before are not touched by later reads
	for i, f := range fs {
		if d := sameFrame(got[i], f); d != "" {
			return fmt.Sprintf("frame %d, %v, turned into %s later", i, f, d)
		}
	}
	mc.Count(0, int64(2*len(fs)))
	return ""
}

func f01One(deep int) {
	sp := []string{"a", "\\", ":", "\n", "\r"}
	names := strWords(sp, 1, 2)
	vals := strWords(sp, 0, 2)
	if deep > 0 {
		names = strWords(append(sp, "n", "c"), 1, 3)
		vals = strWords(append(sp, "n", "c"), 0, 3)
	}
	n := len(names) * len(vals)
	batch(n, 64, func(i int) {
		name, val := names[i%len(names)], vals[i/len(names)]
		f := fr("SEND", name, val)
		if r := roundTrip([]*F{f}, 16, 16); r != "" {
			viol("F01", "%s", r)
		}
		f = fr(allCommands[i%len(allCommands)], name, val, val+"x", name, name, "2").body("b")
		if r := roundTrip([]*F{f, nil, f}, 64, 4096); r != "" {
			viol("F01", "%s", r)
		}
	})
}

// header lists
func f01Headers(deep int) {
	es := [][2]string{{"a", "1"}, {"a", ""}, {"b:\\", "\r\n"}, {"content-type", "x"}, {"\n", "\\n"}, {"a", "\\\\c"}, {" ", " "}, {"A", "\x00"[:0] + "\t"}}
	max := 3 + deep
	n, pow := 0, 1
	for l := 0; l <= max; l++ {
		n += pow
		pow *= len(es)
	}
	batch(n*2, 64, func(i int) {
		cmd := allCommands[i%len(allCommands)]
		k, l, pow := i/2, 0, 1
		for k >= pow {
			k -= pow
			pow *= len(es)
			l++
		}
		f := fr(cmd)
		for j := 0; j < l; j++ {
			f.H = append(f.H, es[k%len(es)])
			k /= len(es)
		}
		if i%2 == 1 {
			f.H = append(f.H, [2]string{"content-length", "5"})
			f.body("\x00\n\x00\r\n")
		} else {
			f.body("text\r\n\nCONNECT\n\n")
		}
		if r := roundTrip([]*F{f, f}, 32, 16); r != "" {
			viol("F01", "%s", r)
		}
	})
}

// bodies: every byte value, sizes around the buffers, every short body
func f01Bodies(deep int) {
	var fs []*F
	withCL := func(b string, pre ...string) *F {
		return fr("MESSAGE", append(append(pre, "content-length", strconv.Itoa(len(b))), "x", "y")...).body(b)
	}
	for c := 0; c < 256; c++ {
		s := string([]byte{byte(c)})
		fs = append(fs, withCL(s), withCL("x"+s+"y"))
		if c != 0 {
			fs = append(fs, fr("SEND").body(s), fr("SEND", "v", s, "n"+s, "w", s, s).body(s+s))
		}
		if c == 0 {
			fs = append(fs, fr("SEND", "v", s, "n"+s, "w"))
		}
	}
	for _, n := range []int{0, 1, 13, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 4080, 4090, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 70001} {
		b := strings.Repeat("0123456789\n:\\", n/13+1)[:n]
		z := []byte(b)
		for i := range z {
			if i%7 == 3 {
				z[i] = 0
			}
		}
		fs = append(fs, fr("SEND", "a", "b").body(b), withCL(b), withCL(string(z)), fr("MESSAGE", "content-length", "00"+strconv.Itoa(n)).body(b), fr("ERROR", "long", b).body("x"), fr("ERROR", "k"+b, "v"), withCL(b, "content-type", "text/plain"), fr("MESSAGE", "content-length", strconv.Itoa(n), "content-length", "3").body(b))
	}
	for _, b := range strWords([]string{"\x00", "\n", "\r", "a"}, 0, 4+deep) {
		fs = append(fs, withCL(b))
		if !strings.Contains(b, "\x00") {
			fs = append(fs, fr("SEND").body(b))
		}
	}
	sizes := []int{16, 17, 64, 4096}
	n := len(fs) * len(sizes) * len(sizes)
	batch(n, 128, func(i int) {
		f := fs[i%len(fs)]
		i /= len(fs)
		if r := roundTrip([]*F{f, fr("ACK", "id", "1"), f, nil}, sizes[i%len(sizes)], sizes[i/len(sizes)]); r != "" {
			if len(r) > 3000 {
				r = r[:3000]
			}
			viol("F01", "%s", r)
		}
	})
}

// f01Huge: more and longer of everything
func f01Huge(deep int) {
	huge := strings.Repeat("0123456789\n:\\abc", 1<<16)
	withCL := func(b string) *F { return fr("SEND", "content-length", strconv.Itoa(len(b)), "x", "y").body(b) }
	mk := []func() *F{
		func() *F {
			many := fr("MESSAGE")
			for i := 0; i < 3000; i++ {
				many.H = append(many.H, [2]string{"A-Custom-Header-Name-" + strings.Repeat("Ab", i%40) + strconv.Itoa(i%1000), strings.Repeat("Cd ", i%50)})
			}
			return many
		},
		func() *F { return fr("SEND").body(huge) },
		func() *F { return withCL(huge + "\x00") },
		func() *F { return fr("SEND", "h", huge) },
		func() *F { return fr("SEND", "H"+huge, "v") },
		func() *F { return withCL(strings.Repeat(huge, 18)) },
	}
	batch(2*len(mk), 12, func(i int) {
		if i >= len(mk) {
			fs := []*F{mk[i-len(mk)](), nil, fr("ACK", "id", "1")}
			got, err := readAllFrames(frame.NewReader(bytes.NewReader(encAll(fs...))), 10)
			if !framesEqual(got, fs) || err != io.EOF {
				viol("F03", "%s of %d header entries, %d bytes body: %d frames are read, error %v", fs[0].Cmd, len(fs[0].H), len(fs[0].Body), len(got), err)
			}
			return
		}
		if r := roundTrip([]*F{mk[i](), fr("ACK", "id", "1")}, 4096, 4096); r != "" {
			if len(r) > 3000 {
				r = r[:3000]
			}
			viol("F01", "%s", r)
		}
	})
}

// sequences of frames and heart-beats
func f01Seq(deep int) {
	pool := []*F{nil, fr("SEND", "destination", "/a"), fr("MESSAGE", "content-length", "2", "a", "b").body("\x00\n"), fr("ERROR").body("text\n"), fr("RECEIPT", "receipt-id", "\n:\\"), fr("SEND", "content-length", "0"), fr("CONNECT", "a", "", "a", "x")}
	max := 4 + deep
	n := wordCount("0123456", 1, max)
	batch(n, 64, func(i int) {
		var fs []*F
		for _, ch := range nthWord("0123456", 1, i) {
			fs = append(fs, pool[ch-'0'])
		}
		if r := roundTrip(fs, 16, 16); r != "" {
			viol("F01", "%s", r)
		}
		if r := roundTrip(fs, 4096, 4096); r != "" {
			viol("F01", "%s", r)
		}
	})
}

// ---------------------------------------------------------------- F02, F03

// chunked delivers data in pieces ending at the given offsets.
type chunked struct {
	data    []byte
	cuts    []int
	pos     int
	withEOF bool // the last piece comes together with io.EOF
	empty   bool // an empty read before each piece
	end     error
	gap     bool
}

func (c *chunked) Read(p []byte) (int, error) {
	end := io.EOF
	if c.end != nil {
		end = c.end
	}
	if c.empty && !c.gap {
		c.gap = true
		return 0, nil
	}
	c.gap = false
	if c.pos == len(c.data) {
		return 0, end
	}
	n := len(c.data)
	for _, k := range c.cuts {
		if k > c.pos {
			n = min(n, k)
		}
	}
	n = copy(p, c.data[c.pos:n])
	c.pos += n
	if c.pos == len(c.data) && c.withEOF {
		return n, end
	}
	return n, nil
}

// readAllFrames reads until an error; ok is false if there is none.
func readAllFrames(r *frame.Reader, limit int) (out []*F, err error) {
	for i := 0; i <= limit; i++ {
		l, e := r.Read()
		if e != nil {
			if l != nil {
				viol("F02,F03", "a frame is returned together with the error %v", e)
			}
			return out, e
		}
		if l == nil {
			out = append(out, nil)
			continue
		}
		out = append(out, &F{Cmd: l.Command, H: hdr(l.Header), Body: append([]byte(nil), l.Body...)})
	}
	return out, nil
}

// refDecode is the independent decoder; bad tells that the stream is
// malformed or cut within a frame where it stops.
func refDecode(b []byte) (out []*F, bad bool) {
	for len(b) > 0 {
		line, rest, ok := refLine(b)
		if !ok {
			return out, true
		}
		b = rest
		if line == "" {
			out = append(out, nil)
			continue
		}
		if !has(allCommands, line) {
			return out, true
		}
		f := &F{Cmd: line}
		for {
			line, rest, ok = refLine(b)
			if !ok {
				return out, true
			}
			b = rest
			if line == "" {
				break
			}
			i := strings.IndexByte(line, ':')
			if i <= 0 {
				return out, true
			}
			k, err1 := unesc(line[:i])
			v, err2 := unesc(line[i+1:])
			if err1 != nil || err2 != nil {
				panic("invalid escape in a test input")
			}
			f.H = append(f.H, [2]string{k, v})
		}
		n := bytes.IndexByte(b, 0)
		if cl, ok := f.Has("content-length"); ok {
			n = 0
			if cl == "" {
				return out, true
			}
			for _, d := range []byte(cl) {
				if d < '0' || d > '9' || n > 1<<27 {
					return out, true
				}
				n = n*10 + int(d-'0')
			}
			if len(b) <= n || b[n] != 0 {
				return out, true
			}
		} else if n < 0 {
			return out, true
		}
		f.Body = b[:n]
		b = b[n+1:]
		out = append(out, f)
	}
	return out, false
}

func refLine(b []byte) (string, []byte, bool) {
	i := bytes.IndexByte(b, '\n')
	if i < 0 {
		return "", nil, false
	}
	l := b[:i]
	if len(l) > 0 && l[len(l)-1] == '\r' {
		l = l[:len(l)-1]
	}
	return string(l), b[i+1:], true
}

func framesEqual(a, b []*F) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			continue
		}
		if x.Cmd != y.Cmd || len(x.H) != len(y.H) || !bytes.Equal(x.Body, y.Body) {
			return false
		}
		for j := range x.H {
			if x.H[j] != y.H[j] {
				return false
			}
		}
	}
	return true
}

// checkStream compares the reader with the reference on one stream.
func checkStream(tags string, in []byte, src io.Reader, size int, want []*F, how func() string) {
	got, err := readAllFrames(frame.NewReaderSize(src, size), len(in)+1)
	if !framesEqual(got, want) {
		viol(tags, "%q%s is read as %v instead of %v", in, how(), got, want)
	}
	if err == nil {
		viol(tags, "%q%s: no error at the end", in, how())
	}
}

var streams = []string{
	"SEND\n\n\x00",
	"\nSEND\na:b\n\nxy\x00\n",
	"MESSAGE\r\na:b\r\ncontent-length:3\r\n\r\n\x00\r\n\x00\r\n\r\n",
	"SEND\ncontent-length:2\n\nabcd\x00",
	"SEND\ncontent-length:4\n\nab\x00",
	"SEND\na\\c\\n:\\\\\\r\n\nbody\x00RECEIPT\nreceipt-id:1\n\n\x00",
	"\n\n\n",
	"\r\n\n\r\n",
	"FOO\n\n\x00",
	"SEND\nab\n\n\x00SEND\n\n\x00",
	"SEND\n:b\n\n\x00",
	"ERROR\nmessage:x\ncontent-length:1x\n\nab\x00",
	"SEND\nx:" + "0123456789012345678901234567890123456789" + "\n\n0123456789012345678901234\x00\nACK\nid:1\n\n\x00",
	"SEND\ncontent-length:35\n\n01234567890\x00234567890123456789\n1234\x00\x00\nACK\nid:1\n\n\x00",
	"SEND\ncontent-length:0\n\n\x00SEND\ncontent-length:0\n\n\x00",
	"\rSEND\n\n\x00",
	"SEND \n\n\x00",
	"SEND\n\r\r\n\n\x00",
	"CONNECTED\nversion:1.2\nheart-beat:0,0\n\n\x00\n\nMESSAGE\nsubscription:1\nmessage-id:2\ndestination:/q\n\nhello\x00",
}

// all splits into up to three reads, byte by byte, with EOF attached, with
// empty reads; all cuts
func f02Splits(deep int) {
	type cs struct {
		s     int
		size  int
		mode  int
		first int
	}
	var cases []cs
	for s := range streams {
		for _, size := range []int{16, 17, 32, 4096} {
			for mode := 0; mode < 6; mode++ {
				for c := 0; c <= len(streams[s]); c++ {
					cases = append(cases, cs{s, size, mode, c})
				}
			}
		}
	}
	other := errors.New("transport error")
	batch(len(cases), 256, func(i int) {
		k := cases[i]
		in := []byte(streams[k.s])
		want, _ := refDecode(in)
		run := func(data []byte, want []*F, cuts []int) {
			c := &chunked{data: data, cuts: cuts, withEOF: k.mode&1 == 1, empty: k.mode >= 4}
			if k.mode&2 != 0 {
				c.end = other
			}
			checkStream("F02", data, c, k.size, want, func() string { return fmt.Sprintf(" (reads end at %v, mode %d, buffer %d)", cuts, k.mode, k.size) })
			mc.Count(0, 1)
		}
		// split at first and any later places
		for j := k.first; j <= len(in); j++ {
			run(in, want, []int{k.first, j})
			if deep > 0 {
				for l := j + 1; l <= len(in); l++ {
					run(in, want, []int{k.first, j, l})
				}
			}
		}
		// byte by byte, cut at first
		cut := in[:k.first]
		w, _ := refDecode(cut)
		if len(w) > len(want) {
			panic("reference decoder")
		}
		var all []int
		for j := range cut {
			all = append(all, j)
		}
		run(cut, w, all)
		run(cut, w, nil)
		run(cut, w, []int{k.first / 2})
	})
}

// large frames in pieces
func f02Large(deep int) {
	var ins [][]byte
	big := strings.Repeat("0123456789abcdef", 600)
	for _, n := range []int{4000, 4096, 5000, 9000} {
		ins = append(ins, encAll(fr("SEND", "destination", "/d").body(big[:n]), nil, fr("MESSAGE", "content-length", strconv.Itoa(n)).body(big[:n]), fr("SEND", "h", big[:n])))
	}
	steps := []int{1, 2, 3, 7, 15, 16, 17, 100, 1000, 4095, 4096, 4097, 8192}
	sizes := []int{16, 4096, 10000}
	batch(len(ins)*len(steps)*len(sizes)*4, 128, func(i int) {
		in := ins[i%len(ins)]
		i /= len(ins)
		st := steps[i%len(steps)]
		i /= len(steps)
		size := sizes[i%len(sizes)]
		mode := i / len(sizes)
		var cuts []int
		for k := st; k < len(in); k += st {
			cuts = append(cuts, k)
		}
		want, _ := refDecode(in)
		data := in
		if mode >= 2 {
			data = in[:len(in)-1]
			want, _ = refDecode(data)
		}
		src := &stepReader{data: data, step: st, withEOF: mode&1 == 1}
		got, err := readAllFrames(frame.NewReaderSize(src, size), 10)
		if !framesEqual(got, want) || err == nil {
			viol("F02", "large frames in pieces of %d, buffer %d, mode %d: %d frames instead of %d, error %v", st, size, mode, len(got), len(want), err)
		}
		mc.Count(0, 1)
	})
}

type stepReader struct {
	data    []byte
	step    int
	withEOF bool
}

func (s *stepReader) Read(p []byte) (int, error) {
	if len(s.data) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.data[:min(s.step, len(s.data))])
	s.data = s.data[n:]
	if len(s.data) == 0 && s.withEOF {
		return n, io.EOF
	}
	return n, nil
}

// all short strings of tokens against the reference decoder
func f03Tokens(deep int) {
	toks := []string{"SEND", "MESSAGE", "X", "\n", "\r\n", "\r", ":", "a", "content-length", "\x00", "1", "\\n", "content-length:1\n"}
	l := 5 + deep
	n := 1
	for i := 0; i < l; i++ {
		n *= len(toks)
	}
	batch(n, 256, func(i int) {
		var in []byte
		// the first part of half of them is a good start
		if i&1 == 1 {
			in = append(in, "SEND\n"...)
		}
		for j := 0; j < l; j++ {
			in = append(in, toks[i%len(toks)]...)
			i /= len(toks)
		}
		want, _ := refDecode(in)
		checkStream("F03", in, bytes.NewReader(in), 16, want, func() string { return "" })
	})
	mc.Count(0, int64(n/256))
}

// content lengths
func f03Length(deep int) {
	vals := strWords([]string{"0", "1", "2", "9", "-", "+", " ", ".", "_", "x", "\\n"}, 0, 3)
	vals = append(vals, "0000000001", "1e1", "0x1", "0b1", "1\r", "٣", "１", "２", "\xff1", "99999999999999999999", "-0", "+0", "18446744073709551617", "18446744073709551616", "-1", "-4294967295", "9223372036854775809")
	bodies := []string{"", "a", "ab", "abcdefghijklmnopqrstuvwxyz", "\x00\x00", "a\x00", "ab\x00\x00", "\x00"}
	for n := 0; n < 30; n++ {
		bodies = append(bodies, strings.Repeat("z", n)+"\x00"+"RECEIPT\nreceipt-id:1\n\n\x00")
	}
	shapes := []string{"SEND\ncontent-length:%s\n\n", "MESSAGE\na:b\ncontent-length:%s\ncontent-length:1\n\n", "ERROR\r\ncontent-length:%s\r\n\r\n"}
	batch(len(vals)*len(bodies)*len(shapes), 64, func(i int) {
		v := vals[i%len(vals)]
		i /= len(vals)
		b := bodies[i%len(bodies)]
		in := []byte(fmt.Sprintf(shapes[i/len(bodies)], v) + b)
		if n, err := strconv.ParseUint(v, 10, 64); err == nil && n > 1000 && n < 1<<32 {
			return // not decided: allocates, or too large for the type
		}
		want, _ := refDecode(in)
		checkStream("F03", in, bytes.NewReader(in), 32, want, func() string { return "" })
		mc.Count(0, 1)
	})
}

// every single byte in every place of a frame replaced by every value
func f03Bytes(deep int) {
	base := []string{"SEND\na:b\n\nbody\x00\nACK\nid:1\n\n\x00", "MESSAGE\r\ncontent-length:4\r\nx:\\n\r\n\r\nbody\x00", "CONNECT\n\n\x00"}
	var pos [][2]int
	for b, s := range base {
		for i := range s {
			pos = append(pos, [2]int{b, i})
		}
	}
	batch(len(pos)*3, 64, func(k int) {
		p := pos[k/3]
		for c := 0; c < 256; c++ {
			in := []byte(base[p[0]])
			switch k % 3 {
			case 0:
				in[p[1]] = byte(c)
			case 1:
				in = append(in[:p[1]:p[1]], append([]byte{byte(c)}, in[p[1]:]...)...)
			case 2:
				in = append(in[:p[1]:p[1]], in[p[1]+1:]...)
				if c > 0 {
					in = append(in, byte(c))
				}
			}
			if bytes.ContainsRune(in, '\\') && !validEscapes(in) {
				continue
			}
			want, _ := refDecode(in)
			checkStream("F03", in, bytes.NewReader(in), 16, want, func() string { return "" })
			mc.Count(0, 1)
		}
	})
}

func validEscapes(in []byte) bool {
	for i := 0; i < len(in); i++ {
		if in[i] != '\\' {
			continue
		}
		if i+1 == len(in) || strings.IndexByte("nrc\\", in[i+1]) < 0 {
			return false
		}
		i++
	}
	return true
}

// ---------------------------------------------------------------- F04

var errTransport = errors.New("transport failed")

// faulty accepts bytes up to a limit, then misbehaves.
type faulty struct {
	got    []byte
	at     int
	mode   int // 0 error, 1 short write without error and then errors, 2 error although all was taken, 3 as 0 but only once, 4 as 1 but only once
	fired  bool
	writes int
}

func (t *faulty) Write(p []byte) (int, error) {
	t.writes++
	if len(t.got)+len(p) <= t.at && !(t.mode == 2 && len(t.got)+len(p) == t.at) || t.fired && t.mode >= 3 {
		t.got = append(t.got, p...)
		return len(p), nil
	}
	n := max(0, min(t.at-len(t.got), len(p)))
	first := !t.fired
	t.fired = true
	t.got = append(t.got, p[:n]...)
	if (t.mode == 1 || t.mode == 4) && first {
		return n, nil
	}
	return n, errTransport
}

func f04Frames() []*F {
	return []*F{nil, fr("SEND", "a", "b").body("xy"), fr("ACK", "id", "1:\n"), fr("MESSAGE", "content-length", "40").body(strings.Repeat("z\x00", 20)), fr("RECEIPT", "receipt-id", strings.Repeat("r", 30)), fr("BEGIN")}
}

func f04Fn(deep int) {
	pool := f04Frames()
	nw := wordCount("012345", 1, 2+deep)
	sizes := []int{1, 16, 17, 64, 4096}
	batch(nw*len(sizes)*5, 128, func(i int) {
		word := nthWord("012345", 1, i%nw)
		i /= nw
		size := sizes[i%len(sizes)]
		mode := i / len(sizes)
		var fs []*F
		var all []byte
		var ends []int
		for _, ch := range word {
			f := pool[ch-'0']
			fs = append(fs, f)
			all = append(all, enc(f)...)
			ends = append(ends, len(all))
		}
		for at := 0; at <= len(all)+1; at++ {
			t := &faulty{at: at, mode: mode}
			w := frame.NewWriterSize(t, size)
			reported := false
			for j, f := range fs {
				err := w.Write(toLib(f))
				if !bytes.HasPrefix(all[:ends[j]], t.got) {
					viol("F04", "frames %v, buffer %d, fault %d at byte %d: %q was written, not a prefix of %q", fs[:j+1], size, mode, at, t.got, all[:ends[j]])
				}
				if err == nil && len(t.got) != ends[j] {
					viol("F04", "frames %v, buffer %d, fault %d at byte %d: write %d reports success, %d of %d bytes were written", fs, size, mode, at, j, len(t.got), ends[j])
				}
				if err != nil {
					reported = true
					if !t.fired {
						viol("F04", "frames %v, buffer %d: write %d fails without a fault: %v", fs, size, j, err)
					}
				}
				if err == nil && t.fired && !reported && t.mode != 4 {
					viol("F04", "frames %v, buffer %d, fault %d at byte %d: write %d reports success, the failure was not reported", fs, size, mode, at, j)
				}
			}
			if t.fired && !reported && len(t.got) != len(all) {
				// a later write has to
				if w.Write(nil) == nil {
					viol("F04", "frames %v, buffer %d, fault %d at byte %d: not reported", fs, size, mode, at)
				}
			}
			mc.Count(0, int64(len(fs)))
		}
	})
}

// the default size and large frames
func f04Large(deep int) {
	sizes := []int{0, 16, 4096}
	ns := []int{4000, 4085, 4086, 4087, 4088, 4096, 8200}
	batch(len(ns)*5*len(sizes), 35, func(i int) {
		n := ns[i%len(ns)]
		i /= len(ns)
		mode := i % 5
		size := sizes[i/5]
		body := strings.Repeat("0123456789", n/10+1)[:n]
		fs := []*F{fr("SEND").body(body), fr("SEND", "h", body), nil}
		all := encAll(fs...)
		for _, at := range []int{0, 1, 4095, 4096, 4097, n, n + 5, n + 6, n + 7, n + 8, 8191, 8192, 8193, 2*n + 8, len(all) - 2, len(all) - 1, len(all), len(all) + 1} {
			t := &faulty{at: at, mode: mode}
			w := frame.NewWriter(t)
			if size > 0 {
				w = frame.NewWriterSize(t, size)
			}
			end := 0
			for j, f := range fs {
				end += len(enc(f))
				err := w.Write(toLib(f))
				if !bytes.HasPrefix(all[:end], t.got) || err == nil && len(t.got) != end || err != nil && !t.fired {
					viol("F04", "frame of %d bytes, buffer %d, fault %d at byte %d: %d bytes written after frame %d, error %v", n, size, mode, at, len(t.got), j, err)
				}
			}
			mc.Count(0, 3)
		}
	})
}

// ---------------------------------------------------------------- F05

type refHeader [][2]string

func (h refHeader) get(k string) (string, bool) {
	for _, e := range h {
		if e[0] == k {
			return e[1], true
		}
	}
	return "", false
}

func refOp(h, other refHeader, op int) refHeader {
	set := func(k, v string) refHeader {
		for i := range h {
			if h[i][0] == k {
				h[i][1] = v
				return h
			}
		}
		return append(h, [2]string{k, v})
	}
	del := func(k string) refHeader {
		var out refHeader
		for _, e := range h {
			if e[0] != k {
				out = append(out, e)
			}
		}
		return out
	}
	switch op {
	case 0:
		return append(h, [2]string{"a", "a"})
	case 1:
		return append(h, [2]string{"a", "b"})
	case 2:
		return append(h, [2]string{"b", ""})
	case 3:
		return set("a", "3")
	case 4:
		return set("content-length", "12")
	case 5:
		return del("a")
	case 6:
		return del("b")
	case 7:
		return append(h, other...)
	case 8:
		return append(h, [2]string{"content-length", "x"})
	case 9:
		return append(h, append(refHeader{}, h...)...)
	}
	return h
}

func libOp(h, other *frame.Header, op int) {
	switch op {
	case 0:
		h.Add("a", "a")
	case 1:
		h.Add("a", "b")
	case 2:
		h.Add("b", "")
	case 3:
		h.Set("a", "3")
	case 4:
		h.Set("content-length", "12")
	case 5:
		h.Del("a")
	case 6:
		h.Del("b")
	case 7:
		h.AddHeader(other)
	case 8:
		h.Add("content-length", "x")
	case 9:
		h.AddHeader(h)
	}
}

const nHop = 10

// observe checks every reading operation.
func observe(h *frame.Header, r refHeader, what func() string) {
	if h.Len() != len(r) {
		viol("F05", "%s: Len is %d instead of %d", what(), h.Len(), len(r))
	}
	for i := range r {
		if k, v := h.GetAt(i); k != r[i][0] || v != r[i][1] {
			viol("F05", "%s: entry %d is %q:%q instead of %q:%q", what(), i, k, v, r[i][0], r[i][1])
		}
	}
	for _, k := range []string{"a", "b", "content-length", "zz", ""} {
		v, ok := r.get(k)
		if g, gok := h.Contains(k); g != v || gok != ok {
			viol("F05", "%s: Contains(%q) is %q, %v", what(), k, g, gok)
		}
		if g := h.Get(k); g != v {
			viol("F05", "%s: Get(%q) is %q", what(), k, g)
		}
		var all []string
		for _, e := range r {
			if e[0] == k {
				all = append(all, e[1])
			}
		}
		if g := h.GetAll(k); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", all) {
			viol("F05", "%s: GetAll(%q) is %q instead of %q", what(), k, g, all)
		}
	}
	n, ok, err := h.ContentLength()
	switch v, has := r.get("content-length"); {
	case !has:
		if ok || err != nil || n != 0 {
			viol("F05", "%s: ContentLength is %v, %v, %v", what(), n, ok, err)
		}
	case v == "12":
		if !ok || err != nil || n != 12 {
			viol("F05", "%s: ContentLength is %v, %v, %v", what(), n, ok, err)
		}
	default:
		if err == nil {
			viol("F05", "%s: ContentLength is %v, %v, without an error", what(), n, ok)
		}
	}
	mc.Count(0, 18)
}

// f05Fn: every sequence over the operations on two headers, one of which may
// become a clone of the other at any time
func f05Fn(deep int) {
	const ops = 2*nHop + 2
	l := 4 + deep
	n := 1
	for i := 0; i < l; i++ {
		n *= ops
	}
	batch(n, 256, func(i int) {
		h := [2]*frame.Header{{}, frame.NewHeader("b", "0")}
		r := [2]refHeader{{}, {{"b", "0"}}}
		seq := i
		for j := 0; j < l; j++ {
			op := i % ops
			i /= ops
			switch {
			case op >= 2*nHop:
				// the one becomes a clone of the other
				k := op - 2*nHop
				h[k] = h[1-k].Clone()
				r[k] = append(refHeader{}, r[1-k]...)
			default:
				k := op / nHop
				libOp(h[k], h[1-k], op%nHop)
				r[k] = refOp(r[k], r[1-k], op%nHop)
			}
			if j >= l-2 {
				what := func() string { return fmt.Sprintf("operations %d (base %d) after %d", seq, ops, j+1) }
				observe(h[0], r[0], what)
				observe(h[1], r[1], what)
			}
		}
	})
}

// constructors, values of content-length, frames and their clones
func f05Frames(deep int) {
	vals := []string{"0", "1", "007", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "+1", "", " 1", "1 ", "x", "1.0", "1e3", "0x10", "1_0", "٣", "-4294967295", "99999999999999999999"}
	entries := strWords([]string{"a", "b", "c"}, 0, 5)
	bodies := []string{"", "x", "\x00y", "0123456789", strings.Repeat("0123456789", 500), strings.Repeat("0123456789", 20000)}
	batch(len(vals)+len(entries)+len(bodies)*8, 32, func(i int) {
		if i < len(vals) {
			v := vals[i]
			h := frame.NewHeader("x", "y", "content-length", v, "content-length", "5")
			n, ok, err := h.ContentLength()
			w, good := new(big.Int).SetString(v, 10)
			good = good && v[0] != '+' && v[0] != '-' && !strings.ContainsAny(v, "_ ") && v[len(v)-1] <= '9'
			if good && (err != nil || !ok || int64(n) != w.Int64()) && w.BitLen() <= 32 {
				viol("F05", "content-length %q is %d, %v, %v", v, n, ok, err)
			}
			if good && err == nil && big.NewInt(int64(n)).Cmp(w) != 0 {
				viol("F05", "content-length %q is accepted as %d", v, n)
			}
			if !good && err == nil {
				viol("F05", "content-length %q is accepted as %d", v, n)
			}
			return
		}
		i -= len(vals)
		if i < len(entries) {
			var l []string
			for _, ch := range entries[i] {
				l = append(l, string(ch))
			}
			src := append(make([]string, 0, 16), l...)
			h := frame.NewHeader(src...)
			var want [][2]string
			for j := 0; j < len(l); j += 2 {
				e := [2]string{l[j], ""}
				if j+1 < len(l) {
					e[1] = l[j+1]
				}
				want = append(want, e)
			}
			// the list passed in is not shared
			_ = append(src, "z", "z")
			for j := range src {
				src[j] = "changed"
			}
			if fmt.Sprint(hdr(h)) != fmt.Sprint(want) {
				viol("F05", "NewHeader(%q) has %v", l, hdr(h))
			}
			if len(l)%2 == 0 {
				f := frame.New("SEND", l...)
				if fmt.Sprint(hdr(f.Header)) != fmt.Sprint(want) || f.Command != "SEND" || len(f.Body) != 0 {
					viol("F05", "New(%q) has %v", l, hdr(f.Header))
				}
			}
			return
		}
		i -= len(entries)
		b := bodies[i/8]
		f := frame.New("SEND", "a", "1", "b", "2")
		if i&1 == 1 {
			f.Body = append(make([]byte, 0, 64), b...)
		} else if b != "" {
			f.Body = []byte(b)
		}
		if i&2 == 2 {
			f.Header = nil
		}
		c := f.Clone()
		if c.Command != f.Command || (c.Header == nil) != (f.Header == nil) || fmt.Sprint(hdr(c.Header)) != fmt.Sprint(hdr(f.Header)) || !bytes.Equal(c.Body, f.Body) {
			viol("F05", "a clone differs: %+v %+v", f, c)
		}
		x, y := f, c
		if i&4 == 4 {
			x, y = c, f
		}
		// nothing done to x shows in y
		if x.Header != nil {
			x.Header.Set("a", "changed")
			x.Header.Add("new", "entry")
			x.Header.Del("b")
		}
		for j := range x.Body {
			x.Body[j] = '!'
		}
		x.Body = append(x.Body, "more"...)
		x.Command = "ACK"
		wb := b
		if y.Command != "SEND" || string(y.Body) != wb || y.Header != nil && fmt.Sprint(hdr(y.Header)) != "[[a 1] [b 2]]" {
			viol("F05", "frame and clone share something: %+v %q %v", y, y.Body, hdr(y.Header))
		}
		mc.Count(0, 8)
	})
}

// ---------------------------------------------------------------- F06

func checkHB(s string) {
	ok := false
	var want [2]*big.Int
	parts := strings.Split(s, ",")
	if len(parts) == 2 {
		ok = true
		for i, p := range parts {
			if p == "" {
				ok = false
			}
			for _, c := range []byte(p) {
				if c < '0' || c > '9' {
					ok = false
				}
			}
			if ok {
				want[i], _ = new(big.Int).SetString(p, 10)
				want[i].Mul(want[i], big.NewInt(1e6))
				if !want[i].IsInt64() {
					ok = false
				}
			}
		}
	}
	a, b, err := frame.ParseHeartBeat(s)
	if !ok && err == nil {
		viol("F06", "heart-beat %q is accepted as %v, %v", s, a, b)
	}
	if ok && (err != nil || int64(a) != want[0].Int64() || int64(b) != want[1].Int64()) {
		viol("F06", "heart-beat %q: %v, %v, %v", s, a, b, err)
	}
}

func f06Strings(deep int) {
	const alpha = "019,+- a\n."
	n := wordCount(alpha, 0, 5+deep)
	batch(n, 128, func(i int) { checkHB(nthWord(alpha, 0, i)) })
}

func f06Values(deep int) {
	var vals []string
	two := big.NewInt(2)
	add := func(v *big.Int) {
		for d := int64(-2); d <= 2; d++ {
			w := new(big.Int).Add(v, big.NewInt(d))
			if w.Sign() >= 0 {
				vals = append(vals, w.String(), "0"+w.String(), "000000000000000000000000"+w.String())
			}
		}
	}
	for e := int64(0); e <= 130; e++ {
		add(new(big.Int).Exp(two, big.NewInt(e), nil))
	}
	max := new(big.Int).Div(big.NewInt(int64(^uint64(0)>>1)), big.NewInt(int64(time.Millisecond)))
	add(max)
	add(new(big.Int).Mul(max, two))
	for p := int64(1); p < 25; p++ {
		add(new(big.Int).Exp(big.NewInt(10), big.NewInt(p), nil))
	}
	vals = append(vals, "٣", "１", "1\x00", "\xff", "1\n", "\n1", "1\r\n", " 1", "1 ", "0x10", "1_000", "1e3", "+1", "-0", "", ",", ",,")
	sep := []string{",", ";", ", ", ",,", ""}
	other := []string{"0", "1", "60000", "9223372036854", "9223372036855"}
	batch(len(vals)*len(sep)*len(other)*2, 64, func(i int) {
		v := vals[i%len(vals)]
		i /= len(vals)
		o := other[i%len(other)]
		i /= len(other)
		if i%2 == 0 {
			checkHB(v + sep[i/2] + o)
		} else {
			checkHB(o + sep[i/2] + v)
		}
		mc.Count(0, 1)
	})
}

// ---------------------------------------------------------------- C14

func c14Fn(deep int) {
	ops := []int{-2, -1, 0, 1, 2, 3, 7} // ReadByte, Read(nil), Read(n bytes)
	l := 5 + deep
	n := 1
	for i := 0; i < l; i++ {
		n *= len(ops)
	}
	bodies := []string{"", "a", "\x00b", "abc", "a\x00\xffd", "abcdefghij"}
	batch(n*len(bodies), 128, func(i int) {
		b := bodies[i%len(bodies)]
		k := i / len(bodies)
		var word []int
		orig := []byte(b)
		m := &stomp.Message{Body: orig}
		if b == "" && k%2 == 1 {
			m.Body = nil
		}
		rest := []byte(b)
		for j := 0; j < l; j++ {
			op := ops[k%len(ops)]
			k /= len(ops)
			word = append(word, op)
			what := func() string { return fmt.Sprintf("body %q, calls %v (-2: ReadByte, -1: Read(nil))", b, word) }
			if op == -2 {
				c, err := m.ReadByte()
				if len(rest) == 0 {
					if err != io.EOF {
						viol("C14", "%s: %v at the end", what(), errStr(err))
					}
					continue
				}
				if err != nil || c != rest[0] {
					viol("C14", "%s: %q, %v", what(), c, errStr(err))
				}
				rest = rest[1:]
				continue
			}
			var buf []byte
			if op >= 0 {
				buf = bytes.Repeat([]byte{0xEE}, op+2)[:op]
			}
			n, err := m.Read(buf)
			if n < 0 || n > len(buf) || n > len(rest) {
				viol("C14", "%s: count %d", what(), n)
			}
			if !bytes.Equal(buf[:n], rest[:n]) {
				viol("C14", "%s: got %q", what(), buf[:n])
			}
			for _, c := range buf[n:cap(buf)] {
				if c != 0xEE {
					viol("C14", "%s: bytes beyond the count were touched", what())
				}
			}
			switch {
			case len(rest) == 0:
				if err != io.EOF && !(op <= 0 && err == nil) {
					viol("C14", "%s: %v at the end", what(), errStr(err))
				}
			case err == io.EOF && n == len(rest):
				// allowed by io.Reader
			case err != nil:
				viol("C14", "%s: %v", what(), err)
			case n == 0 && op > 0:
				viol("C14", "%s: nothing read", what())
			}
			rest = rest[n:]
		}
		if string(orig) != b {
			viol("C14", "the body's bytes were changed")
		}
		// the rest, the usual way
		got, err := io.ReadAll(m)
		if err != nil || !bytes.Equal(got, rest) {
			viol("C14", "body %q after %v: the rest is %q, %v", b, word, got, err)
		}
		mc.Count(0, int64(l+1))
	})
}

func init() {
	seq := func(name, prop, what string, fn func(int), thorough ...int) {
		s := &Scenario{Name: name, Props: strings.Split(prop, ","), What: what, Fn: fn,
			Quick: []Bound{{Shards: 32, Steps: 3000000}}, Thorough: []Bound{{Shards: 32, Steps: 3000000}}}
		for _, d := range thorough {
			if d < 0 {
				s.Quick = append(s.Quick, Bound{Shards: 64, Deep: -d, Steps: 30000000})
				d = -d
			}
			s.Thorough = append(s.Thorough, Bound{Shards: 128, Deep: d, Steps: 30000000})
		}
		scen(s)
	}
	seq("f-one", "F01", "one entry with every name and value over the special characters", f01One, -1)
	seq("f-headers", "F01", "every list of header entries over a set of special ones", f01Headers, -1, 2, 3)
	seq("f-bodies", "F01", "bodies with every byte, every short body, sizes around the buffers", f01Bodies, -1, 2)
	seq("f-huge", "F01,F03", "very many header entries, very long names, values and bodies", f01Huge)
	seq("f-seq", "F01", "every sequence of frames and heart-beats", f01Seq, -1, 2)
	seq("f-splits", "F02", "a family of streams in every split into reads and cut at every byte", f02Splits, 1)
	seq("f-large", "F02", "large frames in pieces", f02Large)
	seq("f-tokens", "F03", "every short string of tokens against the reference decoder", f03Tokens, -1, 2)
	seq("f-length", "F03", "content-length values against bodies", f03Length)
	seq("f-bytes", "F03", "every byte of well-formed frames replaced, inserted, removed", f03Bytes)
	seq("f-write", "F04", "a transport fault at every byte of every sequence of frames", f04Fn, -1, 2)
	seq("f-write-large", "F04", "the same with large frames", f04Large)
	seq("f-header-ops", "F05", "every sequence of header operations on two headers that become clones of each other", f05Fn, 1)
	seq("f-frames", "F05", "constructors, content lengths, clones of frames", f05Frames)
	seq("f-hb", "F06", "every short string over digits, commas and others", f06Strings, -1, 2)
	seq("f-hb-values", "F06", "values around every power of two and ten and the limit", f06Values)
	seq("m-read", "C14", "every sequence of Read and ReadByte calls", c14Fn, -1, 2)
}
