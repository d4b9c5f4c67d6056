package main

// answered judges one way a submission, link test or termination is dealt with.
func (c *srvCase) answered(x *srvEnd) {
	r, p := c.r, c.r.P
	if !x.consumed() {
		return
	}
	if x.panic {
		c.fail("answered", x, nil, "panic", "handling the request can panic on the event loop")
		return
	}
	if len(x.all("decodefail")) > 0 {
		if resp := x.all("asyncwrite", "writefail", "loopwrite"); len(resp) > 0 {
			c.fail("unreadable", x, resp[0], "answered", "a request that cannot be read is answered")
			return
		}
		if p.action(x) != "close" {
			c.fail("unreadable", x, x.all("decodefail")[0], "open", "a request that cannot be read leaves the connection open")
			return
		}
		r.ok("unreadable", "closed")
		return
	}
	var req Val
	if d := x.all("decode"); len(d) > 0 {
		req = d[0].Args[0]
	} else if q := x.all("respond"); len(q) > 0 {
		req = q[0].Args[0]
	}
	pt, ok := req.(PtrV)
	if !ok {
		if p.action(x) != "close" {
			c.fail("answered", x, nil, "silent", "the request is neither answered nor is the connection closed")
			return
		}
		r.ok("answered", "connection closed instead")
		return
	}
	if code, resp, ok := c.answer(x, pt); ok && resp != nil && c.role == "end" {
		_ = code
		closes := p.action(x) == "close"
		for _, ev := range x.all("close") {
			closes = closes || ownConn(ev.Args[0])
		}
		if !closes && resp.Kind != "writefail" {
			c.fail("answered", x, resp, "stays", "after a termination has been answered the connection stays open")
		}
	}
}

func init() {
	register(&Check{ID: "S05", Level: "proof", Tech: "path-sensitive abstract interpretation: exactly-one-response rule (linear obligation) over event loop, worker task and write callbacks",
		Rule:  "For each protocol and each of submission, link test and termination, Server.OnTraffic is interpreted from an arbitrary state through the handler, the worker task and the write callbacks, including the paths on which a worker pool refuses the task, a write is refused or the rate limiter says no; every way on which the frame was taken ends either with exactly one response made by ToResponse from this very request, unaltered, its head carrying the request's sequence number and the paired command at the time it was encoded, sent whole on the same connection, or with the connection closed; an unreadable request closes the connection unanswered; an answered termination closes it.",
		Assum: []string{"a task accepted by a worker pool is run", "worker task code does not panic by itself (S07 covers what is left behind if it does)"},
		Run: func(r *Report) {
			r.atLeast("answered", 40)
			r.atLeast("unreadable", 5)
			r.srvCases(append([]string{"encode"}, srvEvents...), func(role string, _ int64) bool { return role == "submit" || role == "link" || role == "end" }, nil, func(c *srvCase) {
				for k := range c.ends {
					c.answered(&c.ends[k])
				}
			})
		}})
}
