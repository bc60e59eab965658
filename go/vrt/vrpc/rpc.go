// Package vrpc replaces net/rpc between processes of one world. A call is encoded, carried, executed in a
// thread of the callee and its reply carried back; the harness decides which of these are lost.
package vrpc

import (
	"bytes"
	"encoding/gob"
	"errors"
	"net"
	"reflect"
	"strings"
	"time"

	"vrt"
)

var ErrShutdown = errors.New("connection is shut down")

type ServerError string

func (e ServerError) Error() string { return string(e) }

type Call struct {
	ServiceMethod string
	Args          interface{}
	Reply         interface{}
	Error         error
	Done          *vrt.Chan[*Call]
	finished      bool
}

// Fate of a message.
type Fate int

const (
	Deliver Fate = iota
	Lose         // the connection breaks; the caller gets an error
	Delay        // the message arrives later, see DelayFor
)

// Net is what connects the processes of a world.
type Net struct {
	services map[string]map[string]interface{} // process -> service name -> receiver
	addrs    map[string]string                 // address -> process
	// Up tells whether the connection between two processes exists
	Up func(from, to string) bool
	// Fate decides what happens to a request (reply false) or a reply
	Fate func(from, to, method string, args, reply interface{}, isReply bool) Fate
	// Seen is told of every request executed and every reply delivered
	Seen func(from, to, method string, args, reply interface{}, isReply bool)
	last *held
}

// held is a delayed message.
type held struct {
	f   func()
	rel bool
}

// Of returns the network of a world.
func Of(w *vrt.World) *Net {
	return w.Local("rpc", func() interface{} {
		return &Net{services: map[string]map[string]interface{}{}, addrs: map[string]string{}}
	}).(*Net)
}

// DelayFor holds the message being sent now back for d; it is to be called by Fate, which returns Delay then.
func (n *Net) DelayFor(w *vrt.World, d time.Duration) {
	h := &held{}
	n.last = h
	w.Go("late", func() {
		w.Sleep(d)
		h.rel = true
		if h.f != nil {
			h.f()
		}
	})
}

// hold keeps a delayed message.
func (n *Net) hold(f func()) {
	h := n.last
	n.last = nil
	if h == nil {
		return // never delivered
	}
	h.f = f
	if h.rel {
		f()
	}
}

func Register(rcvr interface{}) error {
	t := reflect.TypeOf(rcvr)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return RegisterName(t.Name(), rcvr)
}

func RegisterName(name string, rcvr interface{}) error {
	w := vrt.W
	n := Of(w)
	p := w.Label()
	if n.services[p] == nil {
		n.services[p] = map[string]interface{}{}
	}
	if n.services[p][name] != nil {
		return errors.New("rpc: service already defined: " + name)
	}
	n.services[p][name] = rcvr
	return nil
}

// Accept serves the listener; it never returns.
func Accept(l net.Listener) {
	w := vrt.W
	Of(w).addrs[l.Addr().String()] = w.Label()
	w.Block("rpc.Accept", func() bool { return false })
}

type Client struct {
	from, to string
	broken   bool
	pending  []*Call
}

func (n *Net) up(a, b string) bool { return n.Up == nil || n.Up(a, b) }

func Dial(network, addr string) (*Client, error) {
	w := vrt.W
	w.Yield("rpc.Dial")
	n := Of(w)
	to, ok := n.addrs[addr]
	if !ok || !n.up(w.Label(), to) {
		return nil, errors.New("dial tcp " + addr + ": connection refused")
	}
	return &Client{from: w.Label(), to: to}, nil
}

func (c *Client) Close() error {
	if c.broken {
		return ErrShutdown
	}
	c.fail()
	return nil
}

// fail ends every pending call with an error.
func (c *Client) fail() {
	c.broken = true
	p := c.pending
	c.pending = nil
	for _, x := range p {
		x.end(ErrShutdown)
	}
}

func (x *Call) end(err error) {
	if x.finished {
		return
	}
	x.finished = true
	x.Error = err
	x.Done.TrySend(x)
}

func clone(v interface{}, into interface{}) error {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(v); err != nil {
		return err
	}
	return gob.NewDecoder(&b).Decode(into)
}

func (c *Client) Go(method string, args, reply interface{}, done *vrt.Chan[*Call]) *Call {
	w := vrt.W
	if done == nil {
		done = vrt.MakeChan[*Call](10)
	}
	x := &Call{ServiceMethod: method, Args: args, Reply: reply, Done: done}
	w.Yield("rpc.Go")
	n := Of(w)
	if c.broken || !n.up(c.from, c.to) {
		c.broken = true
		x.end(ErrShutdown)
		return x
	}
	c.pending = append(c.pending, x)
	fate := Deliver
	if n.Fate != nil {
		fate = n.Fate(c.from, c.to, method, args, nil, false)
	}
	switch fate {
	case Lose:
		c.fail()
	case Deliver:
		c.request(w, n, x)
	case Delay:
		n.hold(func() { c.request(w, n, x) })
	}
	return x
}

func (c *Client) request(w *vrt.World, n *Net, x *Call) {
	dot := strings.LastIndex(x.ServiceMethod, ".")
	rcvr := n.services[c.to][x.ServiceMethod[:dot]]
	if rcvr == nil {
		x.end(ServerError("rpc: can't find service " + x.ServiceMethod))
		return
	}
	m := reflect.ValueOf(rcvr).MethodByName(x.ServiceMethod[dot+1:])
	if !m.IsValid() {
		x.end(ServerError("rpc: can't find method " + x.ServiceMethod))
		return
	}
	at := m.Type().In(0)
	var arg reflect.Value
	if at.Kind() == reflect.Ptr {
		arg = reflect.New(at.Elem())
	} else {
		arg = reflect.New(at)
	}
	if err := clone(x.Args, arg.Interface()); err != nil {
		x.end(err)
		return
	}
	if at.Kind() != reflect.Ptr {
		arg = arg.Elem()
	}
	res := reflect.New(m.Type().In(1).Elem())
	w.GoLabel("rpc "+x.ServiceMethod, c.to, func() {
		if n.Seen != nil {
			n.Seen(c.from, c.to, x.ServiceMethod, arg.Interface(), nil, false)
		}
		out := m.Call([]reflect.Value{arg, res})
		var err error
		if e, _ := out[0].Interface().(error); e != nil {
			err = ServerError(e.Error())
		}
		fate := Deliver
		if n.Fate != nil {
			fate = n.Fate(c.from, c.to, x.ServiceMethod, arg.Interface(), res.Interface(), true)
		}
		if !n.up(c.from, c.to) {
			fate = Lose
		}
		deliver := func() {
			if c.broken || x.finished {
				return
			}
			if n.Seen != nil {
				n.Seen(c.from, c.to, x.ServiceMethod, arg.Interface(), res.Interface(), true)
			}
			for i, p := range c.pending {
				if p == x {
					c.pending = append(c.pending[:i:i], c.pending[i+1:]...)
					break
				}
			}
			if err == nil {
				err = clone(res.Interface(), x.Reply)
			}
			x.end(err)
		}
		switch fate {
		case Lose:
			if !c.broken {
				c.fail()
			}
		case Deliver:
			deliver()
		case Delay:
			n.hold(deliver)
		}
	})
}

func (c *Client) Call(method string, args, reply interface{}) error {
	x := c.Go(method, args, reply, vrt.MakeChan[*Call](1))
	y := x.Done.Recv()
	return y.Error
}
