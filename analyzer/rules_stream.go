package main

import (
	"fmt"
)

// frames judges what one way through an arrival of data takes from the stream.
func (c *srvCase) frames(x *srvEnd) {
	r, p, st := c.r, c.r.P, x.st
	c.e.inbound(st, connArg())
	if x.panic {
		c.fail("split", x, nil, "panic", "splitting the stream can panic")
		return
	}
	if all := x.all("discardall"); len(all) > 0 {
		c.fail("split", x, all[0], "discards everything", "input beyond the frame at hand may be thrown away")
		return
	}
	length := streamWord(st, 0)
	avail := st.obj("INB" + connArg().key()).loadPath(".avail").(IntV).L.add(x.taken())
	min, max := int64(p.localConst("codec", "HeadLen")), int64(p.localConst("codec", "PacketMax"))
	cmd := streamWord(st, 4)
	if x.consumed() {
		switch {
		case !st.eqL(x.taken(), length):
			c.fail("split", x, nil, "amount", fmt.Sprintf("a frame is taken from the stream with %v bytes, not the announced number", x.taken()))
		case !st.holds(cLe(linC(min), length)) || !st.holds(cLe(length, linC(max))):
			c.fail("split", x, nil, "bounds", "a frame is taken whose announced length was not found within the allowed bounds")
		case !st.holds(cLe(length, avail)):
			c.fail("split", x, nil, "incomplete", "a frame is taken before all of it has arrived")
		case p.action(x) == "":
			c.fail("split", x, nil, "action", "what happens to the connection after a frame is undetermined")
		case x.act != nil && p.action(x) == "none":
			c.fail("split", x, nil, "stops", "after a frame has been handled the rest of the received data is left until more arrives")
		default:
			r.ok("split", "takes exactly the announced bytes")
		}
		for _, ev := range x.all("decode", "decodefail") {
			c.frameGiven(x, ev, length)
		}
		return
	}
	if x.taken().key() != linC(0).key() && !st.eqL(x.taken(), linC(0)) {
		c.fail("split", x, nil, "amount", "how much is taken from the stream is undetermined")
		return
	}
	if evs := x.all("decode", "decodefail", "asyncwrite", "writefail", "submit", "allow"); len(evs) > 0 {
		c.fail("split", x, evs[0], "untaken", "acts on a frame that stays in the stream")
		return
	}
	short := st.holds(cLt(avail, linC(min)))
	switch p.action(x) {
	case "none":
		if x.act == nil {
			c.fail("wait", x, nil, "spins", "goes round again without having taken a frame")
			return
		}
		r.check(short || st.holds(cLt(avail, length)) && st.holds(cLe(linC(min), length)) && st.holds(cLe(length, linC(max))),
			"wait", "OnTraffic", c.where, c.name+" leaves", c.name+": data stays unread although it holds a complete frame or its announced length is impossible")
	case "close":
		bad := !short && (st.holds(cLt(length, linC(min))) || st.holds(cLt(linC(max), length)))
		// which commands are the protocol's is judged with the command pinned to each of them
		unknown := !short && c.cmd < 0
		for _, sp := range specs[c.pk] {
			unknown = unknown && !st.eqL(cmd, linC(int64(sp.cmd)))
		}
		if bad || unknown {
			r.ok("reject", "")
			return
		}
		c.fail("reject", x, nil, "closes", "the connection is closed although the announced length is possible and the command is one of the protocol's, or before the head of the frame has arrived")
	default:
		c.fail("split", x, nil, "action", "what happens to the connection is undetermined")
	}
}

// frameGiven: what is decoded is the sequence number and exactly the body of the frame taken.
func (c *srvCase) frameGiven(x *srvEnd, ev *Ev, length Lin) {
	st := x.st
	seq, ok := ev.Args[1].(IntV)
	if !ok || !st.eqL(seq.L, streamWord(st, 8)) {
		c.fail("given", x, ev, "sequence", "a message is decoded with a sequence number other than its frame's")
		return
	}
	s, ok := ev.Args[2].(SliceV)
	if !ok {
		if _, isNil := ev.Args[2].(NilV); isNil && st.eqL(length, linC(12)) {
			c.r.ok("given", "")
			return
		}
		c.fail("given", x, ev, "body", "a message is decoded from something other than its frame's body")
		return
	}
	stream := st.obj("STREAM" + connArg().key())
	n := length.addC(-12)
	if !st.eqL(s.Len, n) {
		c.fail("given", x, ev, "body length", "a message is decoded from more or less than its frame's body")
		return
	}
	if st.eqL(n, linC(0)) {
		c.r.ok("given", "")
		return
	}
	want := st.regionVal(stream, linC(12), s.Len, 0)
	if got := st.bytesVal(s); got.T.String() != want.T.String() {
		c.fail("given", x, ev, "body", "a message is decoded from something other than its frame's body: "+got.T.String()+" instead of "+want.T.String())
		return
	}
	c.r.ok("given", "body and sequence number of the frame")
}

func init() {
	register(&Check{ID: "S04", Level: "proof", Tech: "path-sensitive abstract interpretation of the event loop over a symbolic input stream (linear arithmetic on stream positions)",
		Rule:  "Server.OnTraffic is interpreted for each protocol on an arbitrary unread stream of arbitrary length, once per command and once with the command open; at the end of each pass either exactly the announced number of bytes was taken, that number having been found between the head's 12 and the maximum and wholly arrived, the messages decoded got this frame's sequence number and exactly its body, and the loop goes on to the next frame or closes; or nothing was taken and nothing acted upon: the callback returns None only when the head or a frame of possible length is incomplete, and Close only when the announced length is impossible or the command is none of the protocol's. Peek and Discard never get an argument for which gnet drops or returns the whole buffer.",
		Assum: []string{"gnet.Conn: Peek/Discard/InboundBuffered as documented for gnet v2.1.0; the event loop calls OnTraffic once per read with all unread bytes buffered"},
		Run: func(r *Report) {
			r.atLeast("split", 15)
			r.atLeast("given", 15)
			r.atLeast("wait", 6)
			r.atLeast("reject", 3)
			r.srvCases(srvEvents, func(string, int64) bool { return true }, func(c *srvCase) { c.e.NoMerge, c.e.TaskOpaque = true, true }, func(c *srvCase) {
				for k := range c.ends {
					c.frames(&c.ends[k])
				}
			})
		}})
}
