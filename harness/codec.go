package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

// Reference codec, written from the STOMP grammar, independent of the
// library's.

// F is a frame on the wire.
type F struct {
	Cmd  string
	H    [][2]string
	Body []byte
}

func fr(cmd string, kv ...string) *F {
	f := &F{Cmd: cmd}
	for i := 0; i+1 < len(kv); i += 2 {
		f.H = append(f.H, [2]string{kv[i], kv[i+1]})
	}
	return f
}

func (f *F) body(b string) *F { f.Body = []byte(b); return f }

func (f *F) Get(k string) string {
	v, _ := f.Has(k)
	return v
}

func (f *F) Has(k string) (string, bool) {
	for _, e := range f.H {
		if e[0] == k {
			return e[1], true
		}
	}
	return "", false
}

func (f *F) Count(k string) int {
	n := 0
	for _, e := range f.H {
		if e[0] == k {
			n++
		}
	}
	return n
}

func (f *F) String() string {
	if f == nil {
		return "<heart-beat>"
	}
	var s []string
	for _, e := range f.H {
		s = append(s, e[0]+":"+e[1])
	}
	return fmt.Sprintf("%s{%s}%q", f.Cmd, strings.Join(s, " "), f.Body)
}

func (f *F) Clone() *F {
	return &F{f.Cmd, append([][2]string(nil), f.H...), append([]byte(nil), f.Body...)}
}

func esc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			b.WriteString(`\\`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case ':':
			b.WriteString(`\c`)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func unesc(s string) (string, error) {
	if strings.IndexByte(s, '\\') < 0 {
		return s, nil
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i == len(s) {
			return "", fmt.Errorf("dangling backslash")
		}
		switch s[i] {
		case '\\':
			b.WriteByte('\\')
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 'c':
			b.WriteByte(':')
		default:
			return "", fmt.Errorf("bad escape")
		}
	}
	return b.String(), nil
}

func enc(f *F) []byte {
	if f == nil {
		return []byte("\n")
	}
	var b bytes.Buffer
	b.WriteString(f.Cmd)
	b.WriteByte('\n')
	for _, e := range f.H {
		b.WriteString(esc(e[0]))
		b.WriteByte(':')
		b.WriteString(esc(e[1]))
		b.WriteByte('\n')
	}
	b.WriteByte('\n')
	b.Write(f.Body)
	b.WriteByte(0)
	return b.Bytes()
}

func encAll(fs ...*F) []byte {
	var out []byte
	for _, f := range fs {
		out = append(out, enc(f)...)
	}
	return out
}

// dec parses one frame or heart-beat (nil frame) at the start of b; n is its
// length, 0 if b holds only part of one.
func dec(b []byte) (f *F, n int, err error) {
	i := bytes.IndexByte(b, '\n')
	if i < 0 {
		return nil, 0, nil
	}
	line := strings.TrimSuffix(string(b[:i]), "\r")
	if line == "" {
		return nil, i + 1, nil
	}
	f = &F{Cmd: line}
	if strings.Trim(line, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") != "" {
		return nil, 0, fmt.Errorf("bad command %q", line)
	}
	p := i + 1
	for {
		i = bytes.IndexByte(b[p:], '\n')
		if i < 0 {
			return nil, 0, nil
		}
		line = strings.TrimSuffix(string(b[p:p+i]), "\r")
		p += i + 1
		if line == "" {
			break
		}
		k, v, ok := strings.Cut(line, ":")
		if !ok || k == "" {
			return nil, 0, fmt.Errorf("bad header line %q", line)
		}
		if k, err = unesc(k); err != nil {
			return nil, 0, err
		}
		if v, err = unesc(v); err != nil {
			return nil, 0, err
		}
		f.H = append(f.H, [2]string{k, v})
	}
	if cl, ok := f.Has("content-length"); ok {
		l, err := strconv.ParseUint(cl, 10, 31)
		if err != nil {
			return nil, 0, fmt.Errorf("bad content-length %q", cl)
		}
		if len(b) < p+int(l)+1 {
			return nil, 0, nil
		}
		f.Body = append([]byte{}, b[p:p+int(l)]...)
		p += int(l)
		if b[p] != 0 {
			return nil, 0, fmt.Errorf("no NUL after content-length bytes")
		}
		return f, p + 1, nil
	}
	i = bytes.IndexByte(b[p:], 0)
	if i < 0 {
		return nil, 0, nil
	}
	f.Body = append([]byte{}, b[p:p+i]...)
	return f, p + i + 1, nil
}

// Decoder splits a growing byte stream.
type Decoder struct {
	buf []byte
	off int
	err error
}

func (d *Decoder) Feed(p []byte) (out []*F) {
	d.buf = append(d.buf, p...)
	for d.err == nil && len(d.buf) > 0 {
		f, n, err := dec(d.buf)
		if err != nil {
			d.err = err
			return
		}
		if n == 0 {
			return
		}
		d.buf = d.buf[n:]
		d.off += n
		out = append(out, f)
	}
	return
}

// Rest is the length of the incomplete frame at the end.
func (d *Decoder) Rest() int { return len(d.buf) }

// All lists the values of every entry named k.
func (f *F) All(k string) (out []string) {
	for _, e := range f.H {
		if e[0] == k {
			out = append(out, e[1])
		}
	}
	return
}
