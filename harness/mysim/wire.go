package mysim

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"io"
	"net"
)

// This file is the MySQL client/server protocol, as much of it as the Go driver
// needs: handshake with mysql_native_password, COM_QUERY with text results,
// COM_PING, COM_INIT_DB and COM_QUIT.

// SQLError is an ERR packet.
type SQLError struct {
	Code int
	Msg  string
}

func (e *SQLError) Error() string { return e.Msg }

// Result is the outcome of a statement. Cols == nil means an OK packet.
type Result struct {
	Cols []Col
	Rows [][]any // nil, string, int64 or bool
	// Affected is for OK packets.
	Affected uint64
}

// Col is a result column.
type Col struct {
	Name string
	Int  bool
}

// ErrDrop makes the server close the connection without an answer.
var ErrDrop = errors.New("drop connection")

type wconn struct {
	attrs func(map[string]string) // wants the connection attributes
	c     net.Conn
	r     *bufio.Reader
	seq   byte
}

func (w *wconn) read() ([]byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(w.r, h[:]); err != nil {
		return nil, err
	}
	n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
	w.seq = h[3] + 1
	b := make([]byte, n)
	if _, err := io.ReadFull(w.r, b); err != nil {
		return nil, err
	}
	return b, nil
}

func (w *wconn) frame(buf *bytes.Buffer, p []byte) {
	n := len(p)
	buf.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), w.seq})
	buf.Write(p)
	w.seq++
}

func (w *wconn) send(ps ...[]byte) error {
	var buf bytes.Buffer
	for _, p := range ps {
		w.frame(&buf, p)
	}
	_, err := w.c.Write(buf.Bytes())
	return err
}

func lenenc(b []byte, n uint64) []byte {
	switch {
	case n < 251:
		return append(b, byte(n))
	case n < 1<<16:
		return append(b, 0xfc, byte(n), byte(n>>8))
	case n < 1<<24:
		return append(b, 0xfd, byte(n), byte(n>>8), byte(n>>16))
	}
	b = append(b, 0xfe)
	return binary.LittleEndian.AppendUint64(b, n)
}

func lenstr(b []byte, s string) []byte {
	b = lenenc(b, uint64(len(s)))
	return append(b, s...)
}

const (
	statusAutocommit = 2
	caps             = 0x00000001 | // long password
		0x00000004 | // long flag
		0x00000008 | // connect with db
		0x00000200 | // protocol 41
		0x00002000 | // transactions
		0x00008000 | // secure connection
		0x00080000 // plugin auth
)

func okPacket(aff uint64) []byte {
	b := []byte{0}
	b = lenenc(b, aff)
	b = lenenc(b, 0)
	return append(b, statusAutocommit, 0, 0, 0)
}

func eofPacket() []byte { return []byte{0xfe, 0, 0, statusAutocommit, 0} }

func errPacket(code int, msg string) []byte {
	b := []byte{0xff, byte(code), byte(code >> 8), '#'}
	b = append(b, "HY000"...)
	return append(b, msg...)
}

func resultPackets(r *Result) [][]byte {
	var ps [][]byte
	ps = append(ps, lenenc(nil, uint64(len(r.Cols))))
	for _, c := range r.Cols {
		var b []byte
		b = lenstr(b, "def")
		b = lenstr(b, "")
		b = lenstr(b, "")
		b = lenstr(b, "")
		b = lenstr(b, c.Name)
		b = lenstr(b, c.Name)
		typ := byte(253) // VAR_STRING
		charset := uint16(255)
		if c.Int {
			typ = 8
			charset = 63
		}
		b = append(b, 0x0c, byte(charset), byte(charset>>8), 0, 4, 0, 0, typ, 0, 0, 0, 0, 0)
		ps = append(ps, b)
	}
	ps = append(ps, eofPacket())
	for _, row := range r.Rows {
		var b []byte
		for _, v := range row {
			switch x := v.(type) {
			case nil:
				b = append(b, 0xfb)
			case string:
				b = lenstr(b, x)
			case int64:
				b = lenstr(b, itoa(x))
			case int:
				b = lenstr(b, itoa(int64(x)))
			case bool:
				if x {
					b = lenstr(b, "1")
				} else {
					b = lenstr(b, "0")
				}
			default:
				panic("unsupported value")
			}
		}
		ps = append(ps, b)
	}
	return append(ps, eofPacket())
}

func itoa(n int64) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	var b [24]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

func nativeScramble(salt []byte, pw string) []byte {
	if pw == "" {
		return nil
	}
	h1 := sha1.Sum([]byte(pw))
	h2 := sha1.Sum(h1[:])
	h := sha1.New()
	h.Write(salt)
	h.Write(h2[:])
	h3 := h.Sum(nil)
	for i := range h3 {
		h3[i] ^= h1[i]
	}
	return h3
}

var salt = []byte("abcdefghijklmnopqrst")

// handshake runs the server side of the connection phase; auth maps a user name
// to its password ("", false: unknown user).
func (w *wconn) handshake(version string, id uint64, auth func(user string) (string, bool)) (string, error) {
	var b []byte
	b = append(b, 10)
	b = append(b, version...)
	b = append(b, 0)
	b = binary.LittleEndian.AppendUint32(b, uint32(id))
	b = append(b, salt[:8]...)
	b = append(b, 0)
	cp := uint32(caps)
	if w.attrs != nil {
		cp |= 1 << 20
	}
	b = append(b, byte(cp), byte(cp>>8))
	b = append(b, 255, statusAutocommit, 0)
	b = append(b, byte(cp>>16), byte(cp>>24))
	b = append(b, 21)
	b = append(b, make([]byte, 10)...)
	b = append(b, salt[8:]...)
	b = append(b, 0)
	b = append(b, "mysql_native_password"...)
	b = append(b, 0)
	w.seq = 0
	if err := w.send(b); err != nil {
		return "", err
	}
	p, err := w.read()
	if err != nil {
		return "", err
	}
	if len(p) < 33 {
		return "", errors.New("short handshake response")
	}
	rest := p[32:]
	i := bytes.IndexByte(rest, 0)
	if i < 0 {
		return "", errors.New("bad handshake response")
	}
	user := string(rest[:i])
	rest = rest[i+1:]
	if len(rest) < 1 {
		return "", errors.New("bad handshake response")
	}
	n := int(rest[0])
	if len(rest) < 1+n {
		return "", errors.New("bad handshake response")
	}
	resp := rest[1 : 1+n]
	if w.attrs != nil {
		w.attrs(parseAttrs(binary.LittleEndian.Uint32(p), rest[1+n:]))
	}
	pw, ok := auth(user)
	if !ok || !bytes.Equal(resp, nativeScramble(salt, pw)) {
		_ = w.send(errPacket(1045, "Access denied for user '"+user+"'"))
		return user, errors.New("access denied")
	}
	return user, w.send(okPacket(0))
}

// parseAttrs reads the connection attributes after the authentication response.
func parseAttrs(flags uint32, b []byte) map[string]string {
	r := map[string]string{}
	skip := func() {
		if i := bytes.IndexByte(b, 0); i >= 0 {
			b = b[i+1:]
		}
	}
	if flags&8 != 0 {
		skip()
	}
	if flags&(1<<19) != 0 {
		skip()
	}
	if flags&(1<<20) == 0 {
		return r
	}
	num := func() int {
		if len(b) == 0 {
			return 0
		}
		v := int(b[0])
		b = b[1:]
		if v == 0xfc && len(b) >= 2 {
			v = int(b[0]) | int(b[1])<<8
			b = b[2:]
		}
		return v
	}
	str := func() string {
		n := min(num(), len(b))
		v := string(b[:n])
		b = b[n:]
		return v
	}
	b = b[:min(num(), len(b))]
	for len(b) > 0 {
		k := str()
		r[k] = str()
	}
	return r
}

// Handler executes one statement.
type Handler func(stmt string) (*Result, error)

// ServeWire runs the server side of one connection until it ends. onUser is
// called after authentication.
func ServeWire(c net.Conn, version string, id uint64, auth func(string) (string, bool), onUser func(string) Handler) error {
	return serveWire(&wconn{c: c, r: bufio.NewReader(c)}, version, id, auth, onUser)
}

func serveWire(w *wconn, version string, id uint64, auth func(string) (string, bool), onUser func(string) Handler) error {
	user, err := w.handshake(version, id, auth)
	if err != nil {
		return err
	}
	h := onUser(user)
	for {
		p, err := w.read()
		if err != nil {
			return err
		}
		if len(p) == 0 {
			return errors.New("empty packet")
		}
		switch p[0] {
		case 1: // COM_QUIT
			return nil
		case 14, 2: // COM_PING, COM_INIT_DB
			if _, err := h("\x00PING"); err != nil {
				return err
			}
			if err := w.send(okPacket(0)); err != nil {
				return err
			}
		case 3: // COM_QUERY
			r, err := h(string(p[1:]))
			var se *SQLError
			switch {
			case errors.As(err, &se):
				if err := w.send(errPacket(se.Code, se.Msg)); err != nil {
					return err
				}
			case err != nil:
				return err
			case r == nil || r.Cols == nil:
				var aff uint64
				if r != nil {
					aff = r.Affected
				}
				if err := w.send(okPacket(aff)); err != nil {
					return err
				}
			default:
				if err := w.send(resultPackets(r)...); err != nil {
					return err
				}
			}
		default:
			if err := w.send(errPacket(1047, "unsupported command")); err != nil {
				return err
			}
		}
	}
}
