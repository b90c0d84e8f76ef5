//verif:pkg pkg/webextensions

package webextensions

import (
	"bytes"
	"io"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC01_whole: messages that are read up to their ends, however the stream is cut
//
//verif:opts time=100 ttime=700
func VC01_whole() {
	max := 2
	if verif.Tier() > 0 {
		max = 3
	}
	var msgs [][]byte
	src := &vSource{tailErr: true, zero: verif.Choose("zero", 2) == 1}
	for i := 0; i < 2; i++ {
		m := verif.Bytes("payload", verif.Choose("len", max+1))
		msgs = append(msgs, m)
		src.data = append(src.data, vFrame(m)...)
	}
	f := NewSplitFrameReadWriteCloser(src, &vSink{})
	size := 1 + verif.Choose("buffer", 3)
	for _, m := range msgs {
		verif.Assert(f.ReadHeader() == nil, "the length of a message is read")
		got, err := vReadAll(f, size)
		verif.Assert(err == io.EOF, "a message ends with end of data")
		verif.Assert(string(got) == string(m), "exactly the bytes of the message are delivered")
	}
	verif.Reach("two messages")
	verif.Assert(f.ReadHeader() == io.EOF, "then the input ends")
}

// VC01_history: three messages, each of them may be left partly unread
//
//verif:opts time=100 ttime=700
func VC01_history() {
	count, max := 2, 3
	if verif.Tier() > 0 {
		count, max = 3, 4
	}
	var msgs [][]byte
	src := &vSource{whole: true}
	for i := 0; i < count; i++ {
		m := verif.Bytes("payload", verif.Choose("len", max+1))
		msgs = append(msgs, m)
		src.data = append(src.data, vFrame(m)...)
	}
	f := NewSplitFrameReadWriteCloser(src, &vSink{})
	for i, m := range msgs {
		verif.Assert(f.ReadHeader() == nil, "the length of a message is read")
		n := verif.Choose("consumed", len(m)+1)
		if n > 0 {
			b := make([]byte, n)
			k, err := io.ReadFull(f, b)
			verif.Assert(err == nil && k == n && string(b) == string(m[:n]), "the bytes of the message are delivered in order")
		}
		blank := true
		for _, c := range m[n:] {
			if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
				blank = false
			}
		}
		if !blank {
			verif.Reach("unread")
			verif.Assert(f.ReadHeader() != nil, "an unread rest of a message is an error")
			// the connection is unusable now; nothing of the rest may be taken for a length
			if i+1 < len(msgs) {
				verif.Assert(f.ReadHeader() != nil, "an unread rest of a message remains an error")
			}
			return
		}
	}
	verif.Reach("all messages")
	verif.Assert(f.ReadHeader() == io.EOF, "then the input ends")
}

// VC01_long: the bytes of the length itself, a message of several hundred bytes
//
//verif:opts time=100 ttime=700
func VC01_long() {
	n := 250 + verif.Choose("len", 14)
	size := 32
	if n > 261 {
		n = []int{65535, 65536 + 255}[n-262]
		size = 5000
	}
	m := make([]byte, n)
	for i := range m {
		m[i] = byte(i)
	}
	k := verif.Choose("symbolic", 3)
	at := []int{0, n / 2, n - 1}[k]
	m[at] = verif.Byte("byte")
	last := []byte("{}")
	src := &vSource{data: append(vFrame(m), vFrame(last)...), whole: true}
	f := NewSplitFrameReadWriteCloser(src, &vSink{})
	verif.Assert(f.ReadHeader() == nil, "the length of a message is read")
	got, err := vReadAll(f, size)
	verif.Assert(err == io.EOF && string(got) == string(m), "exactly the bytes of the message are delivered")
	verif.Assert(f.ReadHeader() == nil, "the length of the next message is read")
	got, err = vReadAll(f, 32)
	verif.Assert(err == io.EOF && string(got) == string(last), "exactly the bytes of the next message are delivered")
}

// VC01_tail: a rest of white space, short or longer than any buffer, however it is cut
//
//verif:opts time=100 ttime=700
func VC01_tail() {
	n := []int{1, 2, 3, 63, 64, 65, 127, 128, 129, 200}[verif.Choose("len", 10)]
	blank := verif.Str("blank", 1, " \t\r\n")[0]
	m := make([]byte, 1+n)
	for i := range m {
		m[i] = blank
	}
	m[0] = '0'
	at := []int{1, n, 1 + n/2}[verif.Choose("at", 3)]
	m[at] = verif.Byte("other")
	next := verif.Bytes("next", 1)
	src := &vSource{data: append(vFrame(m), vFrame(next)...)}
	if n > 3 {
		src.size = []int{1, 7, 64, 1000}[verif.Choose("pieces", 4)]
	}
	f := NewSplitFrameReadWriteCloser(src, &vSink{})
	verif.Assert(f.ReadHeader() == nil, "the length of a message is read")
	b := make([]byte, 1)
	k, err := f.Read(b)
	verif.Assert(k == 1 && err == nil && b[0] == '0', "the bytes of the message are delivered")
	err = f.ReadHeader()
	if c := m[at]; c != ' ' && c != '\t' && c != '\r' && c != '\n' {
		verif.Reach("unread")
		verif.Assert(err != nil, "an unread rest of a message is an error")
		verif.Assert(f.ReadHeader() != nil, "an unread rest of a message remains an error")
		return
	}
	verif.Reach("white space")
	verif.Assert(err == nil, "white space after a message is skipped")
	got, err := vReadAll(f, 2)
	verif.Assert(err == io.EOF && string(got) == string(next), "exactly the bytes of the next message are delivered")
	verif.Assert(f.ReadHeader() == io.EOF, "then the input ends")
}

// VC01_large: messages of more than a mebibyte
//
//verif:opts time=100 ttime=700
func VC01_large() {
	n := 1<<20 + 8*verif.Choose("longer", 2)
	if verif.Tier() > 0 {
		n *= 1 + 3*verif.Choose("four", 2)
	}
	m := bytes.Repeat([]byte("abcdefg "), n/8)
	m[n-1] = verif.Byte("last")
	last := []byte("{}")
	src := &vSource{data: append(vFrame(m), vFrame(last)...), whole: true}
	f := NewSplitFrameReadWriteCloser(src, &vSink{})
	verif.Assert(f.ReadHeader() == nil, "the length of a message is read")
	got, err := vReadAll(f, 100000)
	verif.Assert(err == io.EOF && string(got) == string(m), "exactly the bytes of the message are delivered")
	verif.Assert(f.ReadHeader() == nil, "the length of the next message is read")
	got, err = vReadAll(f, 32)
	verif.Assert(err == io.EOF && string(got) == string(last), "exactly the bytes of the next message are delivered")
}
