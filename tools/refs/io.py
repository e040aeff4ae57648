F='io/io.go'
LOOP='''ReadAll:
	for {
		nr, er := src.Read(buf)
		if nr > 0 {
			for _, dst := range dsts {
				nw, ew := dst.Write(buf[0:nr])
				if ew != nil {
					err = ew
					break ReadAll
				}
				if nr != nw {
					err = io.ErrShortWrite
					break ReadAll
				}
			}
			written += int64(nr)
		}

		if er != nil {
			if er != io.EOF { //ignore EOF
				err = er
			}
			break
		}
	}
	return
'''
ref('helper',['C17'],[(F,LOOP,'''	for {
		nr, er := src.Read(buf)
		if nr > 0 {
			if err = writeAll(buf[:nr], dsts); err != nil {
				return written, err
			}
			written += int64(nr)
		}
		if er == io.EOF {
			return written, nil
		}
		if er != nil {
			return written, er
		}
	}
'''),(F,'//copy src to multi dsts\nfunc Copys(','''func writeAll(p []byte, dsts []io.Writer) error {
	for i := 0; i < len(dsts); i++ {
		n, err := dsts[i].Write(p)
		if err != nil {
			return err
		}
		if n != len(p) {
			return io.ErrShortWrite
		}
	}
	return nil
}

//copy src to multi dsts
func Copys(''')])
ref('multi',['C17'],[(F,LOOP,'''	w := io.MultiWriter(dsts...)
	for {
		nr, er := src.Read(buf)
		if nr > 0 {
			if _, err = w.Write(buf[:nr]); err != nil {
				return
			}
			written += int64(nr)
		}
		if er != nil {
			if er != io.EOF {
				err = er
			}
			return
		}
	}
''')])
ref('switch',['C17'],[(F,'''	if wt, ok := src.(io.WriterTo); ok && len(dsts) == 1 {
		return wt.WriteTo(dsts[0])
	}
''','''	if len(dsts) == 1 {
		switch wt := src.(type) {
		case io.WriterTo:
			return wt.WriteTo(dsts[0])
		}
	}
'''),(F,'for _, dst := range dsts {','for j := range dsts {\n				dst := dsts[j]')])
ref('noshort',['C17'],[(F,'''	if wt, ok := src.(io.WriterTo); ok && len(dsts) == 1 {
		return wt.WriteTo(dsts[0])
	}

''','')])
ref('closure',['C17'],[(F,LOOP,'''	deliver := func(p []byte) error {
		for _, dst := range dsts {
			if nw, ew := dst.Write(p); ew != nil {
				return ew
			} else if nw < len(p) {
				return io.ErrShortWrite
			}
		}
		written += int64(len(p))
		return nil
	}
	for done := false; !done; {
		nr, er := src.Read(buf)
		if nr > 0 {
			if err = deliver(buf[:nr]); err != nil {
				break
			}
		}
		switch er {
		case nil:
		case io.EOF:
			done = true
		default:
			err, done = er, true
		}
	}
	return written, err
''')])
ref('split',['C17'],[(F,LOOP,'''	for {
		n, end, e := copyChunk(src, buf, dsts)
		written += n
		if end || e != nil {
			return written, e
		}
	}
}

func copyChunk(src io.Reader, buf []byte, dsts []io.Writer) (n int64, end bool, err error) {
	nr, er := src.Read(buf)
	chunk := buf[:nr]
	for i := 0; i < len(dsts) && nr > 0; i++ {
		nw, ew := dsts[i].Write(chunk)
		if ew != nil {
			return 0, true, ew
		}
		if nw != nr {
			return 0, true, io.ErrShortWrite
		}
	}
	if er == io.EOF {
		er, end = nil, true
	}
	return int64(nr), end, er
''')])
ref('copyone',['C17'],[(F,'	if buf == nil {\n','	if len(dsts) == 1 && buf == nil {\n		return io.Copy(dsts[0], src)\n	}\n	if buf == nil {\n')])
bad('short-any',['C17'],[(F,'ok && len(dsts) == 1 {','ok && len(dsts) >= 1 {')])
bad('shortwrite',['C17'],[(F,'if nr != nw {','if nr < nw {')])
bad('eofdrop',['C17'],[(F,'		if nr > 0 {\n','		if nr > 0 && er == nil {\n')])
bad('count',['C17'],[(F,'''			for _, dst := range dsts {
				nw''','''			written += int64(nr)
			for _, dst := range dsts {
				nw'''),(F,'''			}
			written += int64(nr)
''','			}\n')])
bad('break-inner',['C17'],[(F,'					err = ew\n					break ReadAll\n','					err = ew\n					break\n')])
bad('buf-full',['C17'],[(F,'dst.Write(buf[0:nr])','dst.Write(buf)')])
bad('lost-read-err',['C17'],[(F,'if er != io.EOF { //ignore EOF','if er != io.EOF && nr == 0 {')])
bad('skip-last',['C17'],[(F,'range dsts {','range dsts[:1] {')])
bad('consume',['C17'],[(F,'				nw, ew := dst.Write(buf[0:nr])\n','				nw, ew := dst.Write(buf[0:nr])\n				buf = buf[:nr]\n				if nw > 4096 {\n					buf = buf[1:]\n				}\n')])
