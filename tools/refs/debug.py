F='debug/backtrace.go'
C=['C21']
BTS='''	var buf bytes.Buffer
	var __pcs [maxBtListLen]uintptr
	n := runtime.Callers(BtMe, __pcs[0:])
	_frames := runtime.CallersFrames(__pcs[:n])
	for i, _more := 0, n > 0; _more; i++ {
		var _f runtime.Frame
		_f, _more = _frames.Next()
		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\\n",
			i, _f.Function, _f.File, _f.Line, _f.PC)
		buf.WriteString(s)
	}

	return buf.String()
'''
CSL='''	var __pcs [maxBtListLen]uintptr
	n := runtime.Callers(nDepth, __pcs[0:])
	cs := make([]string, 0, n)
	_frames := runtime.CallersFrames(__pcs[:n])
	for _more := n > 0; _more; {
		var _f runtime.Frame
		_f, _more = _frames.Next()
		s := fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}",
			_f.Function, _f.File, _f.Line, _f.PC)
		cs = append(cs, s)
	}
	return cs
'''
END='''	return
}

func CallStackList'''
ref('fprintf',C,[(F,'''		s := fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\\n",
			i, _f.Function, _f.File, _f.Line, _f.PC)
		buf.WriteString(s)
''','''		fmt.Fprintf(&buf, "#%d Func{%s} File{%s : %d} pc{%0X}\\n",
			i, _f.Function, _f.File, _f.Line, _f.PC)
''')])
ref('builder',C,[(F,'	var buf bytes.Buffer\n','	var buf strings.Builder\n'),(F,'	"bytes"\n',''),(F,'	"runtime"\n','	"runtime"\n	"strings"\n')])
HELP='''
func stackFrames(skip int) []runtime.Frame {
	pcs := make([]uintptr, maxBtListLen)
	n := runtime.Callers(skip+1, pcs)
	if n == 0 {
		return nil
	}
	var out []runtime.Frame
	frames := runtime.CallersFrames(pcs[:n])
	for {
		f, more := frames.Next()
		out = append(out, f)
		if !more {
			return out
		}
	}
}
'''
def helper(k=1,first=True):
    h=HELP.replace('skip+1','skip+%d'%k if k else 'skip')
    return [(F,BTS,'''	var buf bytes.Buffer
	for i, f := range stackFrames(BtMe) {
		buf.WriteString(fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\\n", i, f.Function, f.File, f.Line, f.PC))
	}
	return buf.String()
'''),(F,CSL,'''	fs := stackFrames(nDepth)
	cs := make([]string, len(fs))
	for i := range fs {
		f := &fs[i]
		cs[i] = fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%X}", f.Function, f.File, f.Line, f.PC)
	}
	return cs
'''+'}\n'+h[:-2])]
ref('helper',C,helper())
bad('helper0',C,helper(0))
bad('helper2',C,helper(2))
ref('join',C,[(F,BTS,'''	var lines []string
	var pcs [maxBtListLen]uintptr
	n := runtime.Callers(BtMe, pcs[:])
	frames := runtime.CallersFrames(pcs[:n])
	for more := n > 0; more; {
		var f runtime.Frame
		f, more = frames.Next()
		lines = append(lines, fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\\n",
			len(lines), f.Function, f.File, f.Line, f.PC))
	}
	return strings.Join(lines, "")
'''),(F,'	"bytes"\n',''),(F,'	"runtime"\n','	"runtime"\n	"strings"\n')])
ref('plus',C,[(F,BTS,'''	var pcs [maxBtListLen]uintptr
	n := runtime.Callers(BtMe, pcs[:])
	frames := runtime.CallersFrames(pcs[:n])
	for i := 0; i < n; i++ {
		f, _ := frames.Next()
		bts += fmt.Sprintf("#%d Func{%s} File{%s : %d} pc{%0X}\\n", i, f.Function, f.File, f.Line, f.PC)
	}
	return
'''),(F,'	"bytes"\n','')])
ref('dispatch',C,[(F,'''		__f := runtime.FuncForPC(__pc)
		switch _fmt {
		case fmtFileLine:
			_info = fmt.Sprintf("%s FileLine{%s : %d}",
				strhead, __file, __line)
		case fmtFunc:
			_info = fmt.Sprintf("%s Func{%s}", strhead, __f.Name())
		case fmtAll:
			fallthrough
		default:
			_info = fmt.Sprintf("%s Func{%s} FileLine{%s : %d} pc{%0X}",
				strhead, __f.Name(), __file, __line, __pc)
		}
''','''		name := runtime.FuncForPC(__pc).Name()
		fl := fmt.Sprintf("FileLine{%s : %d}", __file, __line)
		fn := "Func{" + name + "}"
		if _fmt == fmtFileLine {
			return strhead + " " + fl
		} else if _fmt == fmtFunc {
			return strhead + " " + fn
		}
		return fmt.Sprintf("%s %s %s pc{%X}", strhead, fn, fl, __pc)
''')])
ref('early',C,[(F,'''
	if __ok {
''','''
	if !__ok {
		return ""
	}
	{
''')])
ref('wrap',C,[(F,'''	return CallStackInfo(BtMe, fmtAll, strCurFrame)
''','''	return here(fmtAll)
'''),(F,'''	return CallStackInfo(BtMe, fmtFileLine, strCurFrame)
''','''	return here(fmtFileLine)
'''),(F,'''	return CallStackInfo(BtMe, fmtFunc, strCurFrame)
''','''	return here(fmtFunc)
'''),(F,'''//tell me caller call frame
''','''func here(f tFmt) string {
	return CallStackInfo(BtMe+1, f, strCurFrame)
}

//tell me caller call frame
''')])
bad('wrap0',C,[(F,'''	return CallStackInfo(BtMe, fmtAll, strCurFrame)
''','''	return here(fmtAll)
'''),(F,'''//tell me caller call frame
''','''func here(f tFmt) string {
	return CallStackInfo(BtMe, f, strCurFrame)
}

//tell me caller call frame
''')])
ref('frames1',C,[(F,'''	__pc, __file, __line, __ok := runtime.Caller(nDepth)

	if __ok {
		__f := runtime.FuncForPC(__pc)
''','''	var rpc [1]uintptr
	if runtime.Callers(nDepth+1, rpc[:]) > 0 {
		fr, _ := runtime.CallersFrames(rpc[:]).Next()
		__pc, __file, __line := fr.PC, fr.File, fr.Line
		__f := runtime.FuncForPC(__pc)
''')])
bad('depth',C,[(F,'	return CallStackInfo(BtFather+depth, fmtFunc, strCaller)','	return CallStackInfo(BtFather+depth-1, fmtFunc, strCaller)')])
bad('rawpcs',C,[(F,CSL,'''	var pcs [maxBtListLen]uintptr
	n := runtime.Callers(nDepth, pcs[:])
	cs := make([]string, 0, n)
	for _, pc := range pcs[:n] {
		f := runtime.FuncForPC(pc)
		file, line := f.FileLine(pc)
		cs = append(cs, fmt.Sprintf("Func{%s} FileLine{%s : %d} pc{%0X}", f.Name(), file, line, pc))
	}
	return cs
''')])
bad('last',C,[(F,'''		_f, _more = _frames.Next()
		s := fmt.Sprintf("Func{''','''		_f, _more = _frames.Next()
		if !_more {
			break
		}
		s := fmt.Sprintf("Func{''')])
bad('first0',C,[(F,'for _more := n > 0; _more; {','for _more := true; _more; {')])
bad('nok',C,[(F,'	if __ok {','	if __ok || nDepth > 100 {')])
bad('limit',C,[(F,'	for i, _more := 0, n > 0; _more; i++ {','	for i, _more := 0, n > 0; _more && i < maxBtListLen-1; i++ {')])
bad('assert',C,[('debug/assert.go','	return b','	return true && !b')])
bad('assert2',C,[('debug/assert.go','''		panic("Assert fail\\n" + Bts())''','''		fail()'''),('debug/assert.go','''//do''','''func fail() { panic("Assert fail\\n" + Bts()) }

//do''')])
