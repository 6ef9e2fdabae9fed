// Package e2e drives the real Streamer and the real MySQL driver against a
// master played by the harness: a net.Conn that speaks the client/server
// protocol and serves a generated binlog from whatever position is requested.
package e2e

import (
	"context"
	"errors"
	"io"
	"net"
	"sync/atomic"
	"time"

	gobinlog "github.com/Breeze0806/gobinlog"
	"github.com/Breeze0806/mysql"

	"verifh/mk"
	"verifh/sym"
)

type silent struct{}

func (silent) Print(v ...interface{}) {}

var current *master

func init() {
	mysql.SetLogger(silent{})
	mysql.RegisterDialContext("fake", func(ctx context.Context, addr string) (net.Conn, error) {
		return current.dial(ctx)
	})
}

const dsn = "root@fake(master)/?maxAllowedPacket=16777216"

// What a connection does when its script of packets is over.
const (
	endEOF     = iota // the master sends an EOF packet
	endHang           // nothing more arrives
	endClose          // the master closes the connection
	endReset          // the connection is reset
	endErr            // the master sends an ERR packet
	endPartial        // the connection is closed inside a packet
	endSeq            // a packet with the wrong sequence number
	endZero           // an empty packet
	endSeqBack        // a packet with an earlier sequence number
)

// session is one connection's script and record.
type session struct {
	// script
	packets   [][]byte // payloads of the packets after the dump request
	serve     func(d dump) [][]byte
	end       int
	endBytes  []byte // payload of the ERR packet or head of the partial packet
	lockstep  bool   // one packet per read
	chunk     int    // bytes per read, 0: as much as fits
	onPacket  func(i int)
	dialErr   error
	noAuth    []byte // answer to the authentication instead of OK
	setReply  []byte // answer to SET instead of OK
	noReply   bool   // never answers SET
	mute      bool   // never answers the login
	onAuth    func() // when the login arrives
	onDial    func() // when the connection stands
	explore   int    // preemptions explored from the dump request on, 0: none
	failWrite int    // 1: writing the command fails; counted over commands

	// record
	conn    *conn
	queries [][]byte
	dumps   []dump
	quits   int
	other   int
	order   []string
	closes  int32
}

type dump struct {
	server uint32
	offset uint32
	flags  uint16
	file   string
}

type master struct {
	sessions []*session
	n        int
}

func (m *master) dial(ctx context.Context) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if m.n >= len(m.sessions) {
		sym.Fail("more connections were opened than Stream calls made")
	}
	s := m.sessions[m.n]
	m.n++
	if s.dialErr != nil {
		return nil, s.dialErr
	}
	c := &conn{s: s, closed: make(chan struct{})}
	s.conn = c
	greet := mk.Cat([]byte{10}, []byte("5.6.33-log\x00"), mk.LE(7, 4), []byte("abcdefgh\x00"),
		mk.LE(0xf7ff, 2), []byte{33}, mk.LE(2, 2), mk.LE(0x807f, 2), []byte{21}, make([]byte, 10),
		[]byte("ijklmnopqrst\x00"), []byte("mysql_native_password\x00"))
	c.push(0, greet)
	if s.onDial != nil {
		s.onDial()
	}
	return c, nil
}

type conn struct {
	s      *session
	rd     []byte
	seq    byte
	dumped bool
	next   int // next packet of the script
	over   bool
	closed chan struct{}
	shut   int32
	auth   bool
}

type addr struct{}

func (addr) Network() string { return "fake" }
func (addr) String() string  { return "master" }

var (
	errClosed = errors.New("use of closed network connection")
	errReset  = errors.New("connection reset by peer")
	errEOF    = io.EOF
	okPacket  = []byte{0, 0, 0, 2, 0, 0, 0}
)

// frame is a packet on the wire.
func frame(seq byte, payload []byte) []byte {
	return mk.Cat(mk.LE(uint64(len(payload)), 3), []byte{seq}, payload)
}

func (c *conn) push(seq byte, payload []byte) {
	c.rd = append(c.rd, frame(seq, payload)...)
}

func (c *conn) LocalAddr() net.Addr                { return addr{} }
func (c *conn) RemoteAddr() net.Addr               { return addr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

func (c *conn) isClosed() bool { return atomic.LoadInt32(&c.shut) != 0 }

func (c *conn) Close() error {
	atomic.AddInt32(&c.s.closes, 1)
	if !atomic.CompareAndSwapInt32(&c.shut, 0, 1) {
		return errClosed
	}
	close(c.closed)
	return nil
}

func (c *conn) Write(b []byte) (int, error) {
	if c.isClosed() {
		return 0, errClosed
	}
	s := c.s
	p := b[4:]
	if !c.auth {
		c.auth = true
		if s.onAuth != nil {
			s.onAuth()
		}
		if s.mute {
			return len(b), nil
		}
		if s.noAuth != nil {
			c.push(b[3]+1, s.noAuth)
		} else {
			c.push(b[3]+1, okPacket)
		}
		return len(b), nil
	}
	if s.failWrite > 0 {
		s.failWrite--
		if s.failWrite == 0 {
			return 0, errReset
		}
	}
	switch p[0] {
	case 1:
		s.quits++
		s.order = append(s.order, "quit")
	case 3:
		s.queries = append(s.queries, append([]byte{}, p[1:]...))
		s.order = append(s.order, "query")
		switch {
		case s.noReply:
		case s.setReply != nil:
			c.push(1, s.setReply)
		default:
			c.push(1, okPacket)
		}
	case 0x12:
		d := dump{
			offset: u32(p[1:]),
			flags:  uint16(p[5]) | uint16(p[6])<<8,
			server: u32(p[7:]),
			file:   string(p[11:]),
		}
		s.dumps = append(s.dumps, d)
		s.order = append(s.order, "dump")
		if s.explore > 0 {
			sym.Explore(s.explore)
		}
		c.dumped = true
		c.seq = 1
		if s.serve != nil {
			s.packets = s.serve(d)
		}
	default:
		s.other++
		s.order = append(s.order, "other")
	}
	return len(b), nil
}

func u32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// more makes the next bytes available; false: nothing will come.
func (c *conn) more() (ok bool, err error) {
	s := c.s
	if !c.dumped {
		return false, nil
	}
	if c.next < len(s.packets) {
		if s.onPacket != nil {
			s.onPacket(c.next)
		}
		sym.Yield()
		c.push(c.seq, s.packets[c.next])
		c.seq++
		c.next++
		return true, nil
	}
	if c.over {
		if s.end == endPartial || s.end == endClose {
			return false, errEOF
		}
		return false, nil
	}
	c.over = true
	if s.onPacket != nil {
		s.onPacket(c.next)
	}
	sym.Yield()
	switch s.end {
	case endEOF:
		c.push(c.seq, []byte{0xfe, 0, 0, 2, 0})
		return true, nil
	case endErr:
		c.push(c.seq, s.endBytes)
		return true, nil
	case endPartial:
		c.rd = append(c.rd, s.endBytes...)
		return true, nil
	case endSeq:
		c.push(c.seq+1, s.endBytes)
		return true, nil
	case endSeqBack:
		c.push(c.seq-1, s.endBytes)
		return true, nil
	case endZero:
		c.push(c.seq, nil)
		return true, nil
	case endClose:
		return false, errEOF
	case endReset:
		return false, errReset
	}
	return false, nil // hang
}

func (c *conn) Read(b []byte) (int, error) {
	if c.isClosed() {
		return 0, errClosed
	}
	for len(c.rd) == 0 || (c.dumped && !c.s.lockstep && c.s.chunk == 0 && len(c.rd) < len(b) && c.next < len(c.s.packets)) {
		ok, err := c.more()
		if err != nil {
			return 0, err
		}
		if !ok {
			<-c.closed
			return 0, errClosed
		}
	}
	if c.isClosed() {
		return 0, errClosed
	}
	n := len(c.rd)
	if c.s.chunk > 0 && n > c.s.chunk {
		n = c.s.chunk
	}
	n = copy(b, c.rd[:n])
	c.rd = c.rd[n:]
	return n, nil
}

// ---- tables ----

type column struct {
	name     string
	unsigned bool
}

func (c *column) Field() string       { return c.name }
func (c *column) IsUnSignedInt() bool { return c.unsigned }

type table struct {
	name gobinlog.MysqlTableName
	cols []gobinlog.MysqlColumn
}

func (t *table) Name() gobinlog.MysqlTableName   { return t.name }
func (t *table) Columns() []gobinlog.MysqlColumn { return t.cols }

// mapper is the table mapper: it knows the tables it was given.
type mapper struct {
	tables []*table
	calls  int
	hook   func(n int) error
	wrong  int // the call that answers with a column too many
}

func (m *mapper) MysqlTable(name gobinlog.MysqlTableName) (gobinlog.MysqlTable, error) {
	m.calls++
	if m.hook != nil {
		if err := m.hook(m.calls); err != nil {
			return nil, err
		}
	}
	for _, t := range m.tables {
		if t.name == name {
			if m.calls == m.wrong {
				return &table{name: name, cols: append(append([]gobinlog.MysqlColumn{}, t.cols...), &column{name: "extra"})}, nil
			}
			return t, nil
		}
	}
	return nil, errors.New("unknown table")
}

func (m *mapper) add(db, name string, cols ...*column) *table {
	t := &table{name: gobinlog.MysqlTableName{DbName: db, TableName: name}}
	for _, c := range cols {
		t.cols = append(t.cols, c)
	}
	m.tables = append(m.tables, t)
	return t
}
