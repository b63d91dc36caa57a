LIB='xdr/lib.go'; SRV='rfc1057/server.go'; CLI='rfc1057/client.go'; SCN='scan.go'; MAIN='main.go'; X57='rfc1057/xdr.go'; X13='rfc1813/xdr.go'; HLP='xdr/helper.go'
R=open('/repo/xdr/lib.go').read(); S=open('/repo/rfc1057/server.go').read(); C=open('/repo/rfc1057/client.go').read()
def fn(src,sig):
    a=src.index(sig); b=src.index('\n}\n',a)+3
    return src[a:b]
E={}
B=fn(R,'func XdrBool(')
E['bool-u32']=[(LIB,B,'''func XdrBool(xs *XdrState, v *bool) {
	var n uint32
	if xs.Encoding() && *v {
		n = 1
	}
	XdrU32(xs, &n)
	if xs.Decoding() {
		*v = n != 0
	}
}
''')]
E['s32-u32']=[(LIB,fn(R,'func XdrS32('),'''func XdrS32(xs *XdrState, v *int32) {
	n := uint32(*v)
	XdrU32(xs, &n)
	if xs.Decoding() {
		*v = int32(n)
	}
}
''')]
E['s64-halves']=[(LIB,fn(R,'func XdrU64('),'''func XdrU64(xs *XdrState, v *uint64) {
	if xs.err != nil {
		return
	}
	hi, lo := uint32(*v>>32), uint32(*v)
	XdrU32(xs, &hi)
	XdrU32(xs, &lo)
	if xs.Decoding() {
		*v = uint64(hi)<<32 | uint64(lo)
	}
}
''')]
E['pad-helper']=[(LIB,'''	if len(v)%4 != 0 {
		xdrRW(xs, make([]byte, (4-len(v)%4)%4))
	}
''','''	xdrPad(xs, len(v))
'''),(LIB,'''	if len(*v)%4 != 0 {
		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
	}
''','''	xdrPad(xs, len(*v))
'''),(LIB,'func XdrArray(','''// xdrPad codes the bytes that fill n up to a multiple of four.
func xdrPad(xs *XdrState, n int) {
	var pad [3]byte
	xdrRW(xs, pad[:-n&3])
}

func XdrArray(''')]
E['pad-loop']=[(LIB,'''	if len(v)%4 != 0 {
		xdrRW(xs, make([]byte, (4-len(v)%4)%4))
	}
''','''	for n := len(v); n%4 != 0; n++ {
		xdrRW(xs, make([]byte, 1))
	}
''')]
RW=fn(R,'func xdrRW(')
E['rw-split']=[(LIB,RW,'''func xdrRW(xs *XdrState, v []byte) {
	switch {
	case xs.err != nil:
	case xs.reader:
		xdrRead(xs, v)
	default:
		xs.buf = append(xs.buf, v...)
	}
}

func xdrRead(xs *XdrState, v []byte) {
	n := len(v)
	if len(xs.buf) < n {
		n = len(xs.buf)
		xs.err = fmt.Errorf("Not enough bytes: wanted %d, got %d", len(v), n)
	}
	copy(v, xs.buf[:n])
	xs.buf = xs.buf[n:]
}
''')]
E['r-order']=[(LIB,fn(R,'func xdrR('),'''func xdrR(xs *XdrState, n int) []byte {
	if xs.err != nil {
		return nil
	}
	if n > len(xs.buf) {
		xs.err = fmt.Errorf("Not enough bytes: wanted %d, have %d", n, len(xs.buf))
		return nil
	}
	res, rest := xs.buf[:n:n], xs.buf[n:]
	xs.buf = rest
	return res
}
''')]
ST=fn(R,'func XdrString(')
E['string-var']=[(LIB,ST,'''func XdrString(xs *XdrState, maxlen int, v *string) {
	if xs.err != nil {
		return
	}
	var b []byte
	if xs.Encoding() {
		b = []byte(*v)
	}
	XdrVarArray(xs, maxlen, &b)
	if xs.reader {
		*v = string(b)
	}
}
''')]
E['size-helper']=[(LIB,'''		var szbuf [4]byte
		xdrRW(xs, szbuf[:])
		sz32 := binary.BigEndian.Uint32(szbuf[:])
		sz := int(sz32)

		if (maxlen >= 0 && sz > maxlen) || sz < 0 {
			xs.SetError("string too large")
			return
		}

		buf := xdrR(xs, sz)
''','''		sz, ok := xdrSize(xs, maxlen)
		if !ok {
			xs.SetError("string too large")
			return
		}

		buf := xdrR(xs, sz)
'''),(LIB,'func XdrString(','''// xdrSize decodes the length of a string of at most maxlen bytes.
func xdrSize(xs *XdrState, maxlen int) (int, bool) {
	var n uint32
	XdrU32(xs, &n)
	sz := int(n)
	return sz, sz >= 0 && (maxlen < 0 || sz <= maxlen)
}

func XdrString(''')]
E['seterr-first']=[(LIB,'	xs.err = errors.New(s)\n','	if xs.err == nil {\n		xs.err = errors.New(s)\n	}\n')]
E['check-mul']=[(LIB,'	if uint64(*arraysz) > uint64(len(xs.buf)/4) {\n','	if 4*uint64(*arraysz) > uint64(len(xs.buf)) {\n')]
E['setsize-one']=[(LIB,fn(R,'func (xs *XdrState) EncodingSetSize('),'''func (xs *XdrState) EncodingSetSize(arraysz *uint32, len int) {
	if !xs.Encoding() {
		return
	}
	if uint64(len) > math.MaxUint32 {
		xs.SetError("length too large")
	} else {
		*arraysz = uint32(len)
	}
}
''')]
E['u32-shift']=[(LIB,fn(R,'func XdrU32('),'''func XdrU32(xs *XdrState, v *uint32) {
	switch {
	case xs.Encoding():
		n := *v
		xs.buf = append(xs.buf, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	case xs.Decoding():
		if b := xdrR(xs, 4); b != nil {
			*v = uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		}
	}
}
''')]
E['enc-pre']=[(HLP,'''	x := MakeWriter(nil)
	v.Xdr(x)
	return x.WriteBuf(), x.Error()
''','''	x := &XdrState{}
	v.Xdr(x)
	res = x.buf
	err = x.err
	return
''')]
# server
H=fn(S,'func (sc *serverConn) handleReqErr(')
a=H.index('	var res Rpc_msg'); b=H.index('reply:\n'); MID=H[a:b]; TAIL=H[b:]
E['srv-dispatch']=[(SRV,MID,'''	var res Rpc_msg
	res.Xid = req.Xid
	res.Body.Mtype = REPLY
	resdata := sc.s.dispatch(&req.Body.Cbody, rd, &res.Body.Rbody)

'''),(SRV,'reply:\n	// Reserve','	// Reserve'),(SRV,'func (sc *serverConn) handleReqErr(','''// dispatch runs the procedure that is called, and fills in the reply.
func (s *Server) dispatch(call *Call_body, rd *xdr.XdrState, rep *Reply_body) xdr.Xdrable {
	if call.Rpcvers != 2 {
		rep.Stat = MSG_DENIED
		rep.Rreply.Stat = RPC_MISMATCH
		rep.Rreply.Mismatch_info.Low = 2
		rep.Rreply.Mismatch_info.High = 2
		return nil
	}

	rep.Stat = MSG_ACCEPTED
	data := &rep.Areply.Reply_data
	vers, ok := s.handlers[call.Prog]
	if !ok {
		data.Stat = PROG_UNAVAIL
		return nil
	}
	procs, ok := vers[call.Vers]
	if !ok {
		data.Stat = PROG_MISMATCH
		data.Mismatch_info.Low, data.Mismatch_info.High = versRange(vers)
		return nil
	}
	h, ok := procs[call.Proc]
	if !ok {
		data.Stat = PROC_UNAVAIL
		return nil
	}
	res, err := h(rd)
	if err != nil {
		data.Stat = GARBAGE_ARGS
		return nil
	}
	data.Stat = SUCCESS
	return res
}

func (sc *serverConn) handleReqErr(''')]
E['srv-send']=[(SRV,'''	wbuf := wr.WriteBuf()
	if len(wbuf)-4 > maxRecordLen {
		return fmt.Errorf("reply too large: %d bytes", len(wbuf)-4)
	}
	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))

	_, err = sc.rw.Write(wbuf)
	return err
}
''','''	return sc.send(wr.WriteBuf())
}

// send writes a record; its header has been reserved.
func (sc *serverConn) send(rec []byte) error {
	n := len(rec) - 4
	if n > maxRecordLen {
		return fmt.Errorf("reply too large: %d bytes", n)
	}
	const last = 1 << 31
	binary.BigEndian.PutUint32(rec, last|uint32(n))

	if _, err := sc.rw.Write(rec); err != nil {
		return err
	}
	return nil
}
''')]
E['srv-readrec']=[(SRV,'''		var hdr [4]byte
		_, err := io.ReadFull(sc.rw, hdr[:])
		if err != nil {
			return err
		}

		hlen := binary.BigEndian.Uint32(hdr[:])
		if hlen&(1<<31) == 0 {
			return fmt.Errorf("fragments not supported")
		}

		buflen := int(hlen & 0x7fffffff)
		buf := getReqBuf(buflen)
		_, err = io.ReadFull(sc.rw, buf)
		if err != nil {
			return err
		}

		go sc.handleReq(buf)
''','''		buf, err := readRequest(sc.rw)
		if err != nil {
			return err
		}
		go sc.handleReq(buf)
'''),(SRV,'func (s *Server) Run(','''func readRequest(r io.Reader) ([]byte, error) {
	var hlen uint32
	if err := binary.Read(r, binary.BigEndian, &hlen); err != nil {
		return nil, err
	}
	if hlen>>31 == 0 {
		return nil, fmt.Errorf("fragments not supported")
	}
	buf := getReqBuf(int(hlen &^ (1 << 31)))
	if _, err := io.ReadFull(r, buf); err != nil {
		return nil, err
	}
	return buf, nil
}

func (s *Server) Run(''')]
E['srv-register']=[(SRV,fn(S,'func (s *Server) Register('),'''func (s *Server) Register(prog, vers, proc uint32, handler ProcHandler) {
	versions := s.handlers[prog]
	if versions == nil {
		versions = map[uint32]map[uint32]ProcHandler{}
		s.handlers[prog] = versions
	}
	procs := versions[vers]
	if procs == nil {
		procs = map[uint32]ProcHandler{}
		versions[vers] = procs
	}
	procs[proc] = handler
}
''')]
E['srv-range']=[(SRV,'	for _, r := range regs {\n','	for n := range regs {\n		r := &regs[n]\n')]
E['srv-versrange']=[(SRV,fn(S,'func versRange('),'''func versRange(vermap map[uint32]map[uint32]ProcHandler) (low, high uint32) {
	low = ^uint32(0)
	for vers := range vermap {
		if vers < low {
			low = vers
		}
		if high < vers {
			high = vers
		}
	}
	return low, high
}
''')]
E['srv-getbuf']=[(SRV,fn(S,'func getReqBuf('),'''func getReqBuf(buflen int) []byte {
	if buf, ok := reqBufPool.Get().([]byte); ok && cap(buf) >= buflen {
		return buf[:buflen]
	}
	return make([]byte, buflen)
}
''')]
E['srv-putdefer']=[(SRV,fn(S,'func (sc *serverConn) handleReq('),'''func (sc *serverConn) handleReq(buf []byte) {
	if err := sc.handleReqErr(buf); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	putReqBuf(buf)
}
''')]
E['srv-goclosure']=[(SRV,'		go sc.handleReq(buf)\n','		go func(b []byte) {\n			sc.handleReq(b)\n		}(buf)\n')]
E['srv-nilmap']=[(SRV,'''		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
		if !progok {
''','''		call := &req.Body.Cbody
		vermap := sc.s.handlers[call.Prog]
		if vermap == nil {
''')]
E['srv-one-res']=[(SRV,'''	if resdata != nil {
		resdata.Xdr(wr)
		err = wr.Error()
		if err != nil {
			return err
		}
	}
''','''	if resdata == nil {
		resdata = &xdr.Void{}
	}
	resdata.Xdr(wr)
	if wr.Error() != nil {
		return wr.Error()
	}
''')]
# client
E['cli-lit']=[(CLI,'''	var req Rpc_msg
	req.Xid = c.xid
	req.Body.Mtype = CALL
	req.Body.Cbody.Rpcvers = 2
	req.Body.Cbody.Prog = c.prog
	req.Body.Cbody.Vers = c.vers
	req.Body.Cbody.Proc = proc
	req.Body.Cbody.Cred = cred
	req.Body.Cbody.Verf = verf
''','''	req := Rpc_msg{Xid: c.xid}
	req.Body = Rpc_msg_body_of(Call_body{Rpcvers: 2, Prog: c.prog, Vers: c.vers, Proc: proc, Cred: cred, Verf: verf}, req.Body)
'''.replace('	req.Body = Rpc_msg_body_of(Call_body{Rpcvers: 2, Prog: c.prog, Vers: c.vers, Proc: proc, Cred: cred, Verf: verf}, req.Body)\n','''	body := &req.Body
	body.Mtype = CALL
	body.Cbody = Call_body{Rpcvers: 2, Prog: c.prog, Vers: c.vers, Proc: proc, Cred: cred, Verf: verf}
'''))]
E['cli-split']=[(CLI,C[C.index('	_, err = io.ReadFull(c.rw, hdr[:])'):C.index('	rd := xdr.MakeReader')],'''	buf, err := c.readReply()
	if err != nil {
		return err
	}

'''),(CLI,'func (c *Client) Call(','''func (c *Client) readReply() ([]byte, error) {
	var hdr [4]byte
	if _, err := io.ReadFull(c.rw, hdr[:]); err != nil {
		return nil, err
	}
	hlen := binary.BigEndian.Uint32(hdr[:])
	if hlen < 1<<31 {
		return nil, fmt.Errorf("fragments not supported")
	}
	buf := make([]byte, hlen-1<<31)
	if _, err := io.ReadFull(c.rw, buf); err != nil {
		return nil, err
	}
	return buf, nil
}

func (c *Client) Call(''')]
E['cli-reserve']=[(CLI,'	wr := xdr.MakeWriter(nil)\n','	wr := xdr.MakeWriter(make([]byte, 4))\n'),(CLI,'''	if len(wbuf) > maxRecordLen {
		return fmt.Errorf("request too large: %d bytes", len(wbuf))
	}
	var hdr [4]byte
	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
	_, err = c.rw.Write(append(hdr[:], wbuf...))
''','''	n := len(wbuf) - 4
	if n > maxRecordLen {
		return fmt.Errorf("request too large: %d bytes", n)
	}
	var hdr [4]byte
	binary.BigEndian.PutUint32(wbuf, (1<<31)|uint32(n))
	_, err = c.rw.Write(wbuf)
''')]
E['cli-switch']=[(CLI,C[C.index('	if res.Xid != req.Xid {'):C.index('	resp.Xdr(rd)')],'''	body := res.Body
	reply := body.Rbody
	switch {
	case res.Xid != req.Xid:
		return fmt.Errorf("xid mismatch: %d != %d", res.Xid, req.Xid)
	case body.Mtype != REPLY:
		return fmt.Errorf("expected REPLY, got %d", body.Mtype)
	case reply.Stat != MSG_ACCEPTED:
		return fmt.Errorf("MSG_DENIED stat %d", reply.Rreply.Stat)
	case reply.Areply.Reply_data.Stat != SUCCESS:
		return fmt.Errorf("accept_stat %d", reply.Areply.Reply_data.Stat)
	}

''')]
E['cli-tail']=[(CLI,'''	resp.Xdr(rd)
	err = rd.Error()
	if err != nil {
		return err
	}

	return nil
}''','''	resp.Xdr(rd)
	return rd.Error()
}''')]
E['cli-order']=[(CLI,'	c.xid++\n\n	var req Rpc_msg\n	req.Xid = c.xid\n','	xid := c.xid + 1\n	c.xid = xid\n\n	var req Rpc_msg\n	req.Xid = xid\n')]
# scanner
E['scan-strings']=[(SCN,'''	for tok == token.SEMICOLON && lit != ";" {
		// Inserted by the scanner at the end of a line (as in Go)
		pos, tok, lit = l.s.Scan()
	}

	if tok == token.EOF {
		return eof
	}
''','''	for {
		if tok == token.EOF {
			return eof
		}
		if tok != token.SEMICOLON || lit == ";" {
			break
		}
		pos, tok, lit = l.s.Scan()
	}
''')]
CHK={LIB:'C01 C02 C03 C04 C05 C06 C07 C12 C14 C19 C20 C27 C31 C26',HLP:'C01 C03 C04 C05 C07 C31',SRV:'C10 C11 C12 C13 C14 C15 C16 C17 C18 C27 C28 C29 C31',CLI:'C14 C15 C19 C20 C27 C31',SCN:'C21 C22 C24 C25 C30 C32 C33',MAIN:'C21 C22 C23 C24 C25 C32'}
