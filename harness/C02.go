//verif:pkg pkg/webextensions

package webextensions

import (
	"bytes"
	"errors"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC02_history: pieces, completed and discarded messages, failing writes
//
//verif:opts time=100 ttime=700
func VC02_history() {
	steps := 5
	if verif.Tier() > 0 {
		steps = 7
	}
	w := &vSink{}
	failing := verif.Choose("failing", 2) == 1
	failed := false
	// the writer fails once, at any write, after any number of bytes
	w.fail = func(p []byte) (int, error) {
		if failing && !failed && verif.Choose("fails", 2) == 1 {
			failed = true
			return verif.Choose("written", len(p)+1), vWriteErr
		}
		return len(p), nil
	}
	f := NewSplitFrameReadWriteCloser(&vSource{}, w)
	var cur, want []byte
	for i := 0; i < steps; i++ {
		switch verif.Choose("op", 3) {
		case 0:
			p := verif.Bytes("piece", verif.Choose("len", 3))
			n, err := f.Write(p)
			verif.Assert(n == len(p) && err == nil, "pieces are taken")
			cur = append(cur, p...)
			verif.Assert(f.Empty() == (len(cur) == 0), "emptiness is reported")
		case 1:
			before := failed
			err := f.WriteFrame()
			if failed && !before {
				verif.Reach("failed")
				verif.Assert(err != nil, "a failed write is reported")
				// whatever was written of the failed message stays; later
				// messages have to follow it unharmed
				frame := vFrame(cur)
				verif.Assert(len(w.data) >= len(want) && len(w.data) <= len(want)+len(frame) &&
					string(w.data[len(want):]) == string(frame[:len(w.data)-len(want)]), "a failed message is cut off")
				want = append([]byte{}, w.data...)
			} else {
				verif.Reach("sent")
				verif.Assert(err == nil, "a message is sent")
				want = append(want, vFrame(cur)...)
			}
			cur = nil
		case 2:
			f.Discard()
			cur = nil
		}
		verif.Assert(string(w.data) == string(want), "each message is sent with its length and nothing else")
	}
}

// VC02_long: lengths of several hundred bytes
//
//verif:opts time=100 ttime=700
func VC02_long() {
	w := &vSink{}
	f := NewSplitFrameReadWriteCloser(&vSource{}, w)
	n := 250 + verif.Choose("len", 14)
	if n > 261 {
		n = []int{65536, 65536 + 255}[n-262]
	}
	m := make([]byte, n)
	for i := range m {
		m[i] = byte(i * 7)
	}
	m[n-1] = verif.Byte("last")
	cut := verif.Choose("cut", 3) * n / 2
	f.Write(m[:cut])
	f.Write(m[cut:])
	verif.Assert(f.WriteFrame() == nil, "a message is sent")
	verif.Assert(string(w.data) == string(vFrame(m)), "the message is sent with its length and nothing else")
}

// VC02_codec: the same through the codec, the parent codec writing in pieces
//
//verif:opts time=100 ttime=700
func VC02_codec() {
	w := &vSink{}
	parent := &vCodec{}
	c := NewServerCodecSplit(&vSource{}, w, parent.factory)
	var want []byte
	failing := true
	for i := 0; i < 3; i++ {
		if i == 2 && verif.Choose("sink fails", 2) == 1 {
			parent.pieces = [][]byte{verif.Bytes("last", 2)}
			w.fail = func(p []byte) (int, error) { return 0, vWriteErr }
			verif.Assert(c.WriteResponse(nil, nil) != nil, "a response that cannot be written is reported")
			return
		}
		p := verif.Bytes("first", verif.Choose("n", 3))
		q := verif.Bytes("second", verif.Choose("m", 3))
		parent.pieces = [][]byte{p, q}
		if failing && verif.Choose("fails", 2) == 1 {
			// a response that is not completed is not sent, not even later
			failing = false
			parent.err = errors.New("cannot be encoded")
			verif.Assert(c.WriteResponse(nil, nil) != nil, "a response that cannot be encoded is reported")
			verif.Assert(string(w.data) == string(want), "a response that cannot be encoded is not sent")
			parent.err = nil
			continue
		}
		verif.Assert(c.WriteResponse(nil, nil) == nil, "a response is sent")
		want = append(want, vFrame(append(append([]byte{}, p...), q...))...)
		verif.Assert(string(w.data) == string(want), "a response is one message")
	}
}

// VC02_large: messages of more than a mebibyte
//
//verif:opts time=100 ttime=700
func VC02_large() {
	w := &vSink{}
	f := NewSplitFrameReadWriteCloser(&vSource{}, w)
	n := 1<<20 + 8*verif.Choose("longer", 2)
	if verif.Tier() > 0 {
		n *= 1 + 3*verif.Choose("four", 2)
	}
	m := bytes.Repeat([]byte("abcdefg "), n/8)
	m[n-1] = verif.Byte("last")
	f.Write(m[:100])
	f.Write(m[100:])
	verif.Assert(f.WriteFrame() == nil, "a message is sent")
	verif.Assert(string(w.data) == string(vFrame(m)), "the message is sent with its length and nothing else")
}
