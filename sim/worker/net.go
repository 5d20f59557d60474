package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"sort"
	"sync"
	"syscall"
	"time"

	zzp "github.com/datawire/ocibuild/zz_verif_proto"
)

// A simulated network: every connection goes to an in-process server that
// answers from the scenario's routes.

type zzAddr string

func (a zzAddr) Network() string { return "tcp" }
func (a zzAddr) String() string  { return string(a) }

type zzConn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte // client -> server
	out    []byte // server -> client
	eof    bool   // server closed its side
	err    error  // connection broken
	closed bool   // client closed
	chunk  int
	host   string
}

func zzNewConn(host string) *zzConn {
	c := &zzConn{host: host}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *zzConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(c.out) > 0 {
			n := len(b)
			if c.chunk > 0 && n > c.chunk {
				n = c.chunk
			}
			n = copy(b[:n], c.out)
			c.out = c.out[n:]
			return n, nil
		}
		if c.err != nil {
			return 0, c.err
		}
		if c.eof {
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *zzConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.err != nil {
		return 0, c.err
	}
	c.in = append(c.in, b...)
	c.cond.Broadcast()
	return len(b), nil
}

func (c *zzConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.cond.Broadcast()
	return nil
}
func (c *zzConn) LocalAddr() net.Addr                { return zzAddr("10.0.0.1:40000") }
func (c *zzConn) RemoteAddr() net.Addr               { return zzAddr(c.host) }
func (c *zzConn) SetDeadline(t time.Time) error      { return nil }
func (c *zzConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *zzConn) SetWriteDeadline(t time.Time) error { return nil }

type zzServerSide struct{ c *zzConn }

func (s zzServerSide) Read(b []byte) (int, error) {
	c := s.c
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if len(c.in) > 0 {
			n := copy(b, c.in)
			c.in = c.in[n:]
			return n, nil
		}
		if c.closed || c.err != nil {
			return 0, io.EOF
		}
		c.cond.Wait()
	}
}

func (c *zzConn) send(b []byte) {
	c.mu.Lock()
	c.out = append(c.out, b...)
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (c *zzConn) end(err error) {
	c.mu.Lock()
	if err != nil {
		c.err = err
	} else {
		c.eof = true
	}
	c.cond.Broadcast()
	c.mu.Unlock()
}

func (w *zzWorld) installNet() {
	net.SimDial = func(ctx context.Context, network, address string) (net.Conn, error) {
		fail := func(err error) (net.Conn, error) {
			return nil, &net.OpError{Op: "dial", Net: network, Addr: zzAddr(address), Err: os.NewSyscallError("connect", err)}
		}
		n := w.dials
		w.dials++
		if n < len(w.sc.Dial) && w.sc.Dial[n] != "" {
			w.res.Fired["net:"+w.sc.Dial[n]]++
			switch w.sc.Dial[n] {
			case "refuse":
				return fail(syscall.ECONNREFUSED)
			case "unreach":
				return fail(syscall.EHOSTUNREACH)
			case "slow":
				time.Sleep(time.Second)
			}
		}
		if len(w.sc.Routes) == 0 {
			return fail(syscall.ENETUNREACH)
		}
		c := zzNewConn(address)
		go w.serve(c)
		return c, nil
	}
}

func (w *zzWorld) serve(c *zzConn) {
	br := bufio.NewReader(zzServerSide{c})
	for {
		req, err := http.ReadRequest(br)
		if err != nil {
			c.end(nil)
			return
		}
		if req.Body != nil {
			_, _ = io.Copy(io.Discard, req.Body)
		}
		key := "http://" + req.Host + req.URL.RequestURI()
		w.res.Requests = append(w.res.Requests, req.Method+" "+key)
		var rep *zzp.Reply
		for i := range w.sc.Routes {
			r := &w.sc.Routes[i]
			if r.Path == key || r.Path == req.URL.RequestURI() {
				n := w.routeN[r.Path]
				w.routeN[r.Path]++
				if n >= len(r.Replies) {
					n = len(r.Replies) - 1
				}
				rep = &r.Replies[n]
				break
			}
		}
		if rep == nil {
			rep = &zzp.Reply{Status: 404, Body: []byte("not found: " + key)}
		}
		if !w.reply(c, req, rep) {
			return
		}
	}
}

func (w *zzWorld) reply(c *zzConn, req *http.Request, rep *zzp.Reply) bool {
	c.mu.Lock()
	c.chunk = rep.Chunk
	c.mu.Unlock()
	if rep.Delay > 0 {
		w.res.Fired["net:delay"]++
		time.Sleep(time.Duration(rep.Delay))
	}
	if rep.Refuse {
		w.res.Fired["net:reset"]++
		c.end(syscall.ECONNRESET)
		return false
	}
	body := append([]byte{}, rep.Body...)
	if rep.Flip > 0 && len(body) > 0 {
		w.res.Fired["net:flip"]++
		body[(rep.Flip-1)%len(body)] ^= 0x20
	}
	hdr := &bytes.Buffer{}
	fmt.Fprintf(hdr, "HTTP/1.1 %d %s\r\n", rep.Status, http.StatusText(rep.Status))
	keys := make([]string, 0, len(rep.Headers))
	for k := range rep.Headers {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(hdr, "%s: %s\r\n", k, rep.Headers[k])
	}
	if rep.Gzip && req.Header.Get("Accept-Encoding") == "gzip" {
		var z bytes.Buffer
		zw := gzip.NewWriter(&z)
		_, _ = zw.Write(body)
		_ = zw.Close()
		body = z.Bytes()
		fmt.Fprintf(hdr, "Content-Encoding: gzip\r\n")
	}
	keep := true
	var wire []byte
	switch rep.Mode {
	case "chunked":
		fmt.Fprintf(hdr, "Transfer-Encoding: chunked\r\n\r\n")
		wire = hdr.Bytes()
		for i := 0; i < len(body); i += 100 {
			e := i + 100
			if e > len(body) {
				e = len(body)
			}
			wire = append(wire, fmt.Sprintf("%x\r\n", e-i)...)
			wire = append(wire, body[i:e]...)
			wire = append(wire, "\r\n"...)
		}
		wire = append(wire, "0\r\n\r\n"...)
	case "close":
		keep = false
		fmt.Fprintf(hdr, "Connection: close\r\n\r\n")
		wire = append(hdr.Bytes(), body...)
	default:
		fmt.Fprintf(hdr, "Content-Length: %d\r\n\r\n", len(body))
		wire = append(hdr.Bytes(), body...)
	}
	if rep.Cut > 0 && rep.Cut < len(wire) {
		c.send(wire[:rep.Cut])
		if rep.Stall { // goes on later
			w.res.Fired["net:stall"]++
			time.Sleep(30 * time.Second)
			c.send(wire[rep.Cut:])
			if !keep {
				c.end(nil)
			}
			return keep
		}
		if rep.Reset {
			w.res.Fired["net:reset-mid"]++
			c.end(syscall.ECONNRESET)
		} else {
			w.res.Fired["net:cut"]++
			c.end(nil)
		}
		return false
	}
	c.send(wire)
	if !keep {
		c.end(nil)
	}
	return keep
}

var _ = errors.New
