//verif:pkg pkg/webextensions

package webextensions

import (
	"io"

	"github.com/maxnikulin/burl/internal/verif"
)

// VC03_announced: every announced length, zeros being the payload
//
//verif:opts time=60 ttime=300
func VC03_announced() {
	size := verif.Uint32("size")
	src := &vSource{data: append([]byte{byte(size), byte(size >> 8), byte(size >> 16), byte(size >> 24)}, make([]byte, 8)...), whole: true}
	f := NewSplitFrameReadWriteCloser(src, &vSink{})
	err := f.ReadHeader()
	verif.Assert(src.pos == 4, "the payload is not consumed with the length")
	if size > 1<<30 {
		verif.Reach("refused")
		verif.Assert(err == TooLargeError, "more than 1 GiB is refused")
		return
	}
	verif.Assert(err == nil, "up to 1 GiB is accepted")
	verif.Reach("accepted")
	b := make([]byte, 8)
	n, _ := io.ReadFull(f, b)
	want := 8
	if size < 8 {
		want = int(size)
	}
	verif.Assert(n == want, "the announced length is accepted")
}

// VC03_truncated: the stream may end anywhere
//
//verif:opts time=60 ttime=300
func VC03_truncated() {
	m := verif.Bytes("payload", 1+verif.Choose("len", 4))
	frame := vFrame(m)
	cut := verif.Choose("cut", len(frame)+1)
	second := verif.Choose("second", 2) == 1
	src := &vSource{data: append([]byte{}, frame[:cut]...)}
	if second {
		src.data = append(vFrame([]byte("x")), src.data...)
	}
	f := NewSplitFrameReadWriteCloser(src, &vSink{})
	if second {
		verif.Assert(f.ReadHeader() == nil, "the first message is complete")
		got, err := vReadAll(f, 2)
		verif.Assert(err == io.EOF && string(got) == "x", "the first message is complete")
	}
	err := f.ReadHeader()
	switch {
	case cut == 0:
		verif.Reach("clean end")
		verif.Assert(err == io.EOF, "the end between messages is plain end of file")
	case cut < 4:
		verif.Reach("cut length")
		verif.Assert(err == io.ErrUnexpectedEOF || err == io.EOF, "the end inside of the length is reported")
		verif.Assert(err == io.ErrUnexpectedEOF, "the end inside of the length is not plain end of file")
	default:
		verif.Assert(err == nil, "the length is read")
		got, err := vReadAll(f, 2)
		verif.Assert(err == io.EOF || err == io.ErrUnexpectedEOF, "the end of the stream is reported")
		verif.Assert(string(got) == string(frame[4:cut]), "bytes that were received are delivered")
		err = f.ReadHeader()
		verif.Assert(err != nil, "nothing follows")
		if cut < len(frame) {
			verif.Reach("cut payload")
			verif.Assert(err != io.EOF, "a cut message is not taken for a clean end")
		} else {
			verif.Assert(err == io.EOF, "the end between messages is plain end of file")
		}
	}
}

// VC03_codec: the codec refuses an oversized message before its parent reads anything
//
//verif:opts time=60 ttime=300
func VC03_codec() {
	size := verif.Uint32("size")
	src := &vSource{data: append([]byte{byte(size), byte(size >> 8), byte(size >> 16), byte(size >> 24)}, "abcd"...), whole: true}
	parent := &vCodec{}
	c := NewServerCodecSplit(src, &vSink{}, parent.factory)
	verif.Assume(size > 1<<30 || size <= 4)
	err := c.ReadRequestHeader(nil)
	if size > 1<<30 {
		verif.Reach("refused")
		verif.Assert(err == TooLargeError && src.pos == 4 && parent.got == nil, "an oversized message is refused before it is read")
	} else {
		verif.Reach("accepted")
		verif.Assert(err == nil && string(parent.got) == "abcd"[:size], "the parent codec gets the payload")
	}
}

// VC03_failure: reading fails anywhere
//
//verif:opts time=60 ttime=300
func VC03_failure() {
	m := verif.Bytes("payload", 1+verif.Choose("len", 3))
	tail := []string{"", " ", "\r\n", "  \t\n"}[verif.Choose("tail", 4)]
	first := vFrame([]byte(string(m) + tail))
	src := &vFailing{vSource: &vSource{data: append(first, vFrame([]byte("yz"))...)}}
	src.whole = verif.Choose("whole", 2) == 1
	at := verif.Choose("at", len(src.data)+1)
	src.at = at
	src.together = verif.Choose("together", 2) == 1
	// together with the last bytes of what is asked for a failure need not be noticed
	src.once = !src.together && verif.Choose("once", 2) == 1
	f := NewSplitFrameReadWriteCloser(src, &vSink{})
	err := f.ReadHeader()
	if at < 4 {
		verif.Assert(err != nil && err != io.EOF, "a failure inside of the length is reported")
		return
	}
	verif.Assert(err == nil, "the length is read")
	b := make([]byte, len(m))
	n, err := io.ReadFull(f, b)
	if at < 4+len(m) {
		verif.Assert(err != nil && err != io.EOF && n == at-4, "a failure inside of a message is reported")
		if src.once {
			return
		}
	} else {
		verif.Assert(err == nil && string(b) == string(m), "a complete message is received")
	}
	err = f.ReadHeader()
	if at < len(first)+4 {
		verif.Reach("failed")
		verif.Assert(err != nil && err != io.EOF, "a failure is not taken for a clean end, nor for a further message")
		return
	}
	verif.Assert(err == nil, "the next length is read")
	n, err = io.ReadFull(f, make([]byte, 2))
	verif.Assert(n == at-len(first)-4, "what was received is delivered")
	verif.Assert((err == nil) == (n == 2), "a failure inside of a message is reported")
}
