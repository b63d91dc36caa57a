package rules

import (
	"go/types"
	"strings"

	"verif/checker/eng"
)

func init() {
	Checks["C28"] = checkC28
	Checks["C29"] = checkC29
}

// hold follows the locks held, for reading or writing.
func hold(held []*eng.Term, e eng.Event) []*eng.Term {
	if e.Kind != "sync" || len(e.Args) == 0 {
		return held
	}
	m := e.Args[0]
	switch {
	case strings.HasSuffix(e.Name, ".Lock"), strings.HasSuffix(e.Name, ".RLock"), e.Name == "(*sync.Once).Do":
		return append(append([]*eng.Term{}, held...), m)
	case strings.HasSuffix(e.Name, ".Unlock"), strings.HasSuffix(e.Name, ".RUnlock"), e.Name == "(*sync.Once).done":
		var r []*eng.Term
		for _, h := range held {
			if h != m {
				r = append(r, h)
			}
		}
		return r
	}
	return held
}

func acquires(e eng.Event) bool {
	return e.Kind == "sync" && len(e.Args) > 0 && (strings.HasSuffix(e.Name, ".Lock") || strings.HasSuffix(e.Name, ".RLock") || e.Name == "(*sync.Once).Do")
}

// checkC28: requests do not wait for each other.
func checkC28(c *Ctx) {
	c.Rule = append(c.Rule, "On every path of Run and of the goroutines it starts: handlers are invoked, and replies written, only by the goroutine started for the request, never by the receive loop, which goes on to the next record after every complete one; no lock is held while a handler runs, while the connection is read, or when the goroutine or the iteration ends; locks are acquired in one order and never twice; and nothing else blocks (channels, wait groups, conditions, sleeping).")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	n, hs := 0, 0
	for _, r := range w.server() {
		type edge struct{ a, b *eng.Term }
		edges := map[edge]string{}
		for _, p := range r.paths {
			n++
			var held []*eng.Term
			for _, e := range p.evs {
				if acquires(e) {
					for _, h := range held {
						c.Check(h != e.Args[0], "relock", c.Pos(e.Pos), "%v: waits for a lock that it holds itself", p)
						edges[edge{h, e.Args[0]}] = c.Pos(e.Pos)
					}
				}
				held = hold(held, e)
				ev, _ := e.Data.(*rpcEv)
				switch {
				case ev != nil && ev.Op == "handler":
					hs++
					c.Check(p.thread, "inline", c.Pos(e.Pos), "%v: the receive loop itself runs the handler: no other request is received until it returns %s", p, describe(p.st))
					c.Check(len(held) == 0, "lockedhandler", c.Pos(e.Pos), "%v: a handler runs while a lock is held, which other requests wait for %s", p, describe(p.st))
				case e.Kind == "read" && e.Recv == r.rw:
					c.Check(len(held) == 0, "lockedread", c.Pos(e.Pos), "%v: the connection is read while a lock is held: whoever waits for it waits for the next record %s", p, describe(p.st))
				case e.Kind == "write" && e.Recv == r.rw && !p.thread:
					c.Check(false, "inlinewrite", c.Pos(e.Pos), "Run writes to the connection itself: no request is received until the peer has read %s", describe(p.st))
				case e.Kind == "call" && (e.Name == "time.Sleep" || e.Name == "(*sync.Cond).Wait"):
					c.Check(false, "blocks:"+e.Name, c.Pos(e.Pos), "%v: waits in %s", p, e.Name)
				}
			}
			if p.thread || p.st.Exit == "loopback" {
				c.Check(len(held) == 0, "locked", p.where(), "%v: a lock is held for ever %s", p, describe(p.st))
			}
			p.blocking(c)
		}
		for e, at := range edges {
			if _, ok := edges[edge{e.b, e.a}]; ok && e.a != e.b {
				c.Check(false, "order", at, "locks are acquired in both orders: two requests can wait for each other for ever")
			}
		}
	}
	c.Check(n > 0 && hs > 0, "handlers", "rfc1057", "no handler invocation was found")
}

// checkC29: request buffers are recycled.
func checkC29(c *Ctx) {
	c.Rule = append(c.Rule, "On every path on which the receive loop reads a record into a buffer: a buffer is allocated only if the pool, asked before, offered none or one whose capacity is too small; the path of the request's goroutine puts the buffer into the pool exactly once, however the request ends, with all the capacity it had when it was taken; a buffer the pool offered is kept or used.")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	n := 0
	for _, r := range w.server() {
		for _, p := range r.paths {
			reads := p.events("read")
			if len(reads) < 2 {
				continue
			}
			last := reads[len(reads)-1]
			reg, _, ln, cp := eng.SliceParts(last.Args[0])
			if reg.IsNil() || is(p.st, eng.Eq(ln, eng.Int(0))) {
				continue
			}
			n++
			var offered []*eng.Term // what the pool offered
			gets := 0
			for _, e := range p.evs {
				if e.Kind == "read" && e.Res == last.Res {
					break
				}
				if e.Kind == "call" && e.Name == "(*sync.Pool).Get" {
					gets++
					if s := w.pooledSlice(p.st, e.Res); s != nil {
						offered = append(offered, s)
					}
				}
			}
			c.Check(gets > 0, "unasked", c.Pos(last.Pos), "%v: a request buffer is used without asking the pool %s", p, describe(p.st))
			if org := eng.Root(reg); org.Op == "alloc" {
				for _, s := range offered {
					_, _, _, have := eng.SliceParts(s)
					c.Check(p.st.ProvesGE(ln, eng.Add(have, eng.Int(1))), "wasted", c.Pos(last.Pos), "%v: a buffer is allocated although the pool offered one that may be large enough %s", p, describe(p.st))
				}
			}
			if !p.thread {
				continue
			}
			puts := 0
			for _, e := range p.evs {
				if e.Kind != "call" || e.Name != "(*sync.Pool).Put" || !w.regionsOf(p.st, e.Args[1])[reg] {
					continue
				}
				puts++
				if s := w.pooledSlice(p.st, e.Args[1]); s != nil {
					_, _, _, pc := eng.SliceParts(s)
					c.Check(p.st.ProvesGE(pc, cp), "shrunk", c.Pos(e.Pos), "%v: the buffer is given back with capacity %v, it was taken with %v %s", p, pc, cp, describe(p.st))
				}
			}
			c.Check(puts == 1, "lost", p.where(), "%v: the request buffer is given back %d times %s", p, puts, describe(p.st))
		}
	}
	c.Check(n > 0, "requests", "rfc1057", "no path of Run reads a record body")
}

// pooledSlice is the byte slice in what goes through a pool, if one is found.
func (w *rpcWorld) pooledSlice(st *eng.State, v *eng.Term) *eng.Term {
	if v == nil || v.Op != "iface" {
		return nil
	}
	t, ok := v.Obj.(types.Type)
	if !ok {
		return nil
	}
	x := v.Args[0]
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Slice); !ok {
			return nil
		}
		x, t = st.Load(x, p.Elem()), p.Elem()
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil
	}
	return x
}
