
E={}
L='xdr/lib.go';S='rfc1057/server.go';C='rfc1057/client.go';M='main.go';O='out.go';H='xdr/helper.go'
E['lib-appenduint']=[(L,'''	var buf [4]byte
	if xs.Encoding() {
		binary.BigEndian.PutUint32(buf[:], *v)
	}
	xdrRW(xs, buf[:])
	if xs.Decoding() {
		*v = binary.BigEndian.Uint32(buf[:])
	}
''','''	if !xs.reader {
		xs.buf = binary.BigEndian.AppendUint32(xs.buf, *v)
		return
	}
	var buf [4]byte
	xdrRW(xs, buf[:])
	if xs.err == nil {
		*v = binary.BigEndian.Uint32(buf[:])
	}
''')]
E['lib-early']=[(L,'''	if xs.reader {
		n := copy(v, xs.buf)
		xs.buf = xs.buf[n:]

		if n < len(v) {
			xs.err = fmt.Errorf("Not enough bytes: wanted %d, got %d", len(v), n)
		}
	} else {
		xs.buf = append(xs.buf, v...)
	}
''','''	if !xs.reader {
		xs.buf = append(xs.buf, v...)
		return
	}
	have := len(xs.buf)
	want := len(v)
	copy(v, xs.buf)
	if have < want {
		xs.buf = xs.buf[have:]
		xs.err = fmt.Errorf("Not enough bytes: wanted %d, got %d", want, have)
		return
	}
	xs.buf = xs.buf[want:]
''')]
E['lib-pad']=[(L,'''		xdrRW(xs, []byte(*v))
		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
''','''		xdrRW(xs, []byte(*v))
		for n := len(*v); n%4 != 0; n++ {
			xdrRW(xs, []byte{0})
		}
''')]
E['lib-padbits']=[(L,'''		xdrRW(xs, []byte(*v))
		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
''','''		xdrRW(xs, []byte(*v))
		xdrRW(xs, make([]byte, -len(*v)&3))
''')]
E['lib-padconst']=[(L,'''		xdrRW(xs, []byte(*v))
		xdrRW(xs, make([]byte, (4-len(*v)%4)%4))
''','''		xdrRW(xs, []byte(*v))
		var zero [3]byte
		if rem := len(*v) % 4; rem != 0 {
			xdrRW(xs, zero[:4-rem])
		}
''')]
E['cli-bytesbuf']=[(C,'''	_, err = c.rw.Write(append(hdr[:], wbuf...))
''','''	var rec bytes.Buffer
	rec.Write(hdr[:])
	rec.Write(wbuf)
	_, err = c.rw.Write(rec.Bytes())
'''),(C,'import (\n','import (\n	"bytes"\n')]
E['cli-reserve']=[(C,'''	wr := xdr.MakeWriter(nil)
''','''	var reserve [4]byte
	wr := xdr.MakeWriter(reserve[:])
'''),(C,'''	wbuf := wr.WriteBuf()
	if len(wbuf) > maxRecordLen {
		return fmt.Errorf("request too large: %d bytes", len(wbuf))
	}
	var hdr [4]byte
	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
	_, err = c.rw.Write(append(hdr[:], wbuf...))
''','''	wbuf := wr.WriteBuf()
	n := len(wbuf) - 4
	if n > maxRecordLen {
		return fmt.Errorf("request too large: %d bytes", n)
	}
	binary.BigEndian.PutUint32(wbuf, (1<<31)|uint32(n))
	_, err = c.rw.Write(wbuf)
'''),(C,'''	_, err = io.ReadFull(c.rw, hdr[:])
''','''	var hdr [4]byte
	_, err = io.ReadFull(c.rw, hdr[:])
''')]
E['cli-check-helper']=[(C,'''	if res.Xid != req.Xid {
		return fmt.Errorf("xid mismatch: %d != %d", res.Xid, req.Xid)
	}

	if res.Body.Mtype != REPLY {
		return fmt.Errorf("expected REPLY, got %d", res.Body.Mtype)
	}

	if res.Body.Rbody.Stat != MSG_ACCEPTED {
		return fmt.Errorf("MSG_DENIED stat %d", res.Body.Rbody.Rreply.Stat)
	}

	if res.Body.Rbody.Areply.Reply_data.Stat != SUCCESS {
		return fmt.Errorf("accept_stat %d", res.Body.Rbody.Areply.Reply_data.Stat)
	}

	resp.Xdr(rd)
	err = rd.Error()
	if err != nil {
		return err
	}

	return nil
}
''','''	if err := checkReply(req.Xid, &res); err != nil {
		return err
	}

	resp.Xdr(rd)
	return rd.Error()
}

func checkReply(xid uint32, res *Rpc_msg) error {
	rb := &res.Body.Rbody
	switch {
	case res.Xid != xid:
		return fmt.Errorf("xid mismatch: %d != %d", res.Xid, xid)
	case res.Body.Mtype != REPLY:
		return fmt.Errorf("expected REPLY, got %d", res.Body.Mtype)
	case rb.Stat != MSG_ACCEPTED:
		return fmt.Errorf("MSG_DENIED stat %d", rb.Rreply.Stat)
	case rb.Areply.Reply_data.Stat != SUCCESS:
		return fmt.Errorf("accept_stat %d", rb.Areply.Reply_data.Stat)
	}
	return nil
}
''')]
E['srv-flat']=[(S,'	handlers map[uint32]map[uint32]map[uint32]ProcHandler\n}','	handlers map[procKey]ProcHandler\n}\n\ntype procKey struct{ prog, vers, proc uint32 }'),
(S,'make(map[uint32]map[uint32]map[uint32]ProcHandler)','make(map[procKey]ProcHandler)'),
(S,'''	_, progok := s.handlers[prog]
	if !progok {
		s.handlers[prog] = make(map[uint32]map[uint32]ProcHandler)
	}

	_, versok := s.handlers[prog][vers]
	if !versok {
		s.handlers[prog][vers] = make(map[uint32]ProcHandler)
	}

	s.handlers[prog][vers][proc] = handler
''','''	s.handlers[procKey{prog, vers, proc}] = handler
'''),
(S,'''// versRange returns the lowest and highest registered version in vermap.
func versRange(vermap map[uint32]map[uint32]ProcHandler) (low, high uint32) {
	first := true
	for vers := range vermap {
		if first || vers < low {
			low = vers
		}
		if first || vers > high {
			high = vers
		}
		first = false
	}
	return
}
''','''// versRange returns the lowest and highest registered version of prog.
func (s *Server) versRange(prog uint32) (low, high uint32, ok bool) {
	for k := range s.handlers {
		if k.prog != prog {
			continue
		}
		if !ok || k.vers < low {
			low = k.vers
		}
		if !ok || k.vers > high {
			high = k.vers
		}
		ok = true
	}
	return
}

func (s *Server) hasVers(prog, vers uint32) bool {
	for k := range s.handlers {
		if k.prog == prog && k.vers == vers {
			return true
		}
	}
	return false
}
'''),
(S,'''		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
		if !progok {''','''		low, high, progok := sc.s.versRange(req.Body.Cbody.Prog)
		if !progok {'''),
(S,'''		procmap, verok := vermap[req.Body.Cbody.Vers]
		if !verok {''','''		verok := sc.s.hasVers(req.Body.Cbody.Prog, req.Body.Cbody.Vers)
		if !verok {'''),
(S,'''			low, high := versRange(vermap)
''',''),
(S,'''procmap[req.Body.Cbody.Proc]''','''sc.s.handlers[procKey{req.Body.Cbody.Prog, req.Body.Cbody.Vers, req.Body.Cbody.Proc}]''')]
E['srv-log']=[(S,'		fmt.Fprintf(os.Stderr, "%v\\n", err)\n','		log.New(os.Stderr, "", 0).Println(err)\n'),(S,'	"io"\n','	"io"\n	"log"\n')]
E['srv-lookup']=[(S,'''		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
		if !progok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROG_UNAVAIL
			goto reply
		}

		procmap, verok := vermap[req.Body.Cbody.Vers]
		if !verok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
			low, high := versRange(vermap)
			res.Body.Rbody.Areply.Reply_data.Mismatch_info.Low = low
			res.Body.Rbody.Areply.Reply_data.Mismatch_info.High = high
			goto reply
		}

		h, procok := procmap[req.Body.Cbody.Proc]
		if !procok {
			res.Body.Rbody.Areply.Reply_data.Stat = PROC_UNAVAIL
			goto reply
		}

		resdata, err = h(rd)
		if err != nil {
			resdata = nil
			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
			goto reply
		}

		res.Body.Rbody.Areply.Reply_data.Stat = SUCCESS
	}

reply:
''','''		resdata = sc.s.dispatch(&req.Body.Cbody, rd, &res.Body.Rbody.Areply)
	}

'''),(S,'func (sc *serverConn) handleReqErr','''// dispatch runs the procedure called and fills in the outcome.
func (s *Server) dispatch(call *Call_body, rd *xdr.XdrState, areply *Accepted_reply) xdr.Xdrable {
	data := &areply.Reply_data
	vermap, progok := s.handlers[call.Prog]
	if !progok {
		data.Stat = PROG_UNAVAIL
		return nil
	}

	procmap, verok := vermap[call.Vers]
	if !verok {
		data.Stat = PROG_MISMATCH
		data.Mismatch_info.Low, data.Mismatch_info.High = versRange(vermap)
		return nil
	}

	h, procok := procmap[call.Proc]
	if !procok {
		data.Stat = PROC_UNAVAIL
		return nil
	}

	resdata, err := h(rd)
	if err != nil {
		data.Stat = GARBAGE_ARGS
		return nil
	}

	data.Stat = SUCCESS
	return resdata
}

func (sc *serverConn) handleReqErr''')]
E['main-osread']=[(M,'	"io/ioutil"\n',''),(M,'src, err := ioutil.ReadFile','src, err := os.ReadFile'),(M,'buf, err := ioutil.ReadFile','buf, err := os.ReadFile'),(M,'ioutil.WriteFile','os.WriteFile')]
E['main-two']=[(M,'''	if *typesFile != "" {
		finish(toutw, toutf)
		toutBuf := refmt(toutTmp)
		writeOutput(*typesFile, toutBuf)
	}

	writeOutput(*outputFile, outBuf)
''','''	if *typesFile == "" {
		writeOutput(*outputFile, outBuf)
		return
	}

	finish(toutw, toutf)
	toutBuf := refmt(toutTmp)
	writeOutput(*typesFile, toutBuf)
	writeOutput(*outputFile, outBuf)
''')]
E['main-openhelper']=[(M,'''	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		panic(err)
	}

	defer os.Remove(outTmp)
	outw := bufio.NewWriter(outf)
	out = outw
''','''	outf := create(outTmp)
	defer os.Remove(outTmp)
	outw := bufio.NewWriter(outf)
	out = outw
'''),(M,'''		toutf, err = os.OpenFile(toutTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
		if err != nil {
			panic(err)
		}

		defer''','''		toutf = create(toutTmp)
		defer'''),(M,'// finish makes','''func create(name string) *os.File {
	f, err := os.OpenFile(name, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		panic(err)
	}
	return f
}

// finish makes''')]
E['hlp-var']=[(H,'''	x := MakeWriter(nil)
	v.Xdr(x)
	return x.WriteBuf(), x.Error()''','''	x := &XdrState{}
	v.Xdr(x)
	res, err = x.buf, x.err
	return''')]
SCN='scan.go'
CHK={L:'C01 C02 C03 C04 C05 C06 C07 C12 C14 C19 C20 C27 C31 C26',H:'C01 C03 C04 C05 C07 C31',S:'C10 C11 C12 C13 C14 C15 C16 C17 C18 C27 C28 C29 C31',C:'C14 C15 C19 C20 C27 C31',M:'C21 C22 C23 C24 C25 C32 C33'}
E['cli-writeto']=[(C,'''	_, err = c.rw.Write(append(hdr[:], wbuf...))
''','''	var rec bytes.Buffer
	rec.Write(hdr[:])
	rec.Write(wbuf)
	_, err = rec.WriteTo(c.rw)
'''),(C,'import (\n','import (\n	"bytes"\n')]
E['cli-binwrite']=[(C,'''	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
	_, err = c.rw.Write(append(hdr[:], wbuf...))
''','''	rec := new(bytes.Buffer)
	binary.Write(rec, binary.BigEndian, (1<<31)|uint32(len(wbuf)))
	rec.Write(wbuf)
	_, err = c.rw.Write(rec.Bytes())
'''),(C,'import (\n','import (\n	"bytes"\n')]
E['cli-copyrec']=[(C,'''	_, err = c.rw.Write(append(hdr[:], wbuf...))
''','''	rec := make([]byte, 4+len(wbuf))
	copy(rec, hdr[:])
	copy(rec[4:], wbuf)
	_, err = c.rw.Write(rec)
''')]
