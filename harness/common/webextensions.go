// helpers shared by the harnesses of this package
package webextensions

import (
	"errors"
	"io"
	"io/ioutil"
	"net/rpc"

	"github.com/maxnikulin/burl/internal/verif"
)

// vSource hands out its data in pieces of any size
type vSource struct {
	data    []byte
	pos     int
	whole   bool // no cutting
	size    int  // pieces of this size
	zero    bool // one read may return nothing
	closed  int
	tailErr bool // the end may come together with the last bytes
}

func (r *vSource) Read(p []byte) (int, error) {
	left := len(r.data) - r.pos
	if left == 0 {
		return 0, io.EOF
	}
	n := left
	if n > len(p) {
		n = len(p)
	}
	if r.zero {
		r.zero = false
		return 0, nil
	}
	if r.size > 0 {
		if n > r.size {
			n = r.size
		}
	} else if !r.whole && n > 1 {
		n = 1 + verif.Choose("piece", n)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.tailErr && r.pos == len(r.data) && verif.Choose("eof", 2) == 1 {
		return n, io.EOF
	}
	return n, nil
}

func (r *vSource) Close() error { r.closed++; return nil }

type vSink struct {
	data []byte
	// fail is asked before every write: how many bytes are written, and the error
	fail   func(p []byte) (int, error)
	closed int
}

func (w *vSink) Write(p []byte) (int, error) {
	n := len(p)
	var err error
	if w.fail != nil {
		n, err = w.fail(p)
	}
	w.data = append(w.data, p[:n]...)
	return n, err
}

func (w *vSink) Close() error { w.closed++; return nil }

var vWriteErr = errors.New("write failed")

func vHeader(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

func vFrame(p []byte) []byte { return append(vHeader(len(p)), p...) }

// vReadAll reads up to the end of the message, with buffers of the given size
func vReadAll(r io.Reader, size int) ([]byte, error) {
	var out []byte
	for i := 0; i < 64; i++ {
		b := make([]byte, size)
		n, err := r.Read(b)
		out = append(out, b[:n]...)
		if err != nil {
			return out, err
		}
	}
	return out, errors.New("no end")
}

// vCodec is the codec below the framing: it writes the given pieces
type vCodec struct {
	conn   io.ReadWriteCloser
	pieces [][]byte
	err    error
	got    []byte
}

func (c *vCodec) factory(conn io.ReadWriteCloser) rpc.ServerCodec { c.conn = conn; return c }
func (c *vCodec) ReadRequestHeader(r *rpc.Request) (err error) {
	c.got, err = ioutil.ReadAll(c.conn)
	return
}
func (c *vCodec) ReadRequestBody(any) error { return nil }
func (c *vCodec) WriteResponse(*rpc.Response, any) error {
	for _, p := range c.pieces {
		if _, err := c.conn.Write(p); err != nil {
			return err
		}
	}
	return c.err
}
func (c *vCodec) Close() error { return c.conn.Close() }

var vReadErr = errors.New("read failed")

// vFailing is a source that fails from some place on.
type vFailing struct {
	*vSource
	at       int
	together bool // the failure comes with the last bytes
	once     bool // it does not persist
}

func (r *vFailing) Read(p []byte) (int, error) {
	left := r.at - r.pos
	if r.at < 0 {
		left = len(r.data)
	}
	if left <= 0 {
		if r.once {
			r.at = -1
		}
		return 0, vReadErr
	}
	if len(p) > left {
		p = p[:left]
	}
	n, err := r.vSource.Read(p)
	if err == nil && r.together && r.at >= 0 && r.pos >= r.at {
		err = vReadErr
		if r.once {
			r.at = -1
		}
	}
	return n, err
}
