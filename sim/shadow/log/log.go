package log

import (
	"fmt"
	"io"
	golog "log"
	simos "verifsim/shadow/os"
	simsync "verifsim/shadow/sync"
	simtime "verifsim/shadow/time"
	"verifsim/simrt"
)

// Logger: same behaviour as the standard one (a mutex around one Write per message); the source
// line of Lshortfile is not reproduced.
type Logger struct {
	mu     simsync.Mutex
	prefix string
	flag   int
	out    io.Writer
}

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: out, prefix: prefix, flag: flag}
}

var std *Logger

func Default() *Logger {
	if std == nil {
		std = New(simos.Stderr, "", golog.LstdFlags)
	}
	return std
}
func (l *Logger) Output(depth int, s string) error {
	h := l.prefix
	if l.flag&(golog.Ldate|golog.Ltime) != 0 {
		h += simtime.Now().UTC().Format("2006/01/02 15:04:05 ")
	}
	if l.flag&golog.Lshortfile != 0 {
		h += "x.go:1: "
	}
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	_, err := l.out.Write([]byte(h + s))
	return err
}
func (l *Logger) Printf(f string, a ...any) { l.Output(2, fmt.Sprintf(f, a...)) }
func (l *Logger) Print(a ...any)            { l.Output(2, fmt.Sprint(a...)) }
func (l *Logger) Println(a ...any)          { l.Output(2, fmt.Sprintln(a...)) }
func (l *Logger) Fatalf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	l.Output(2, s)
	simrt.ProcExit("exit", "log.Fatal: "+s)
}
func (l *Logger) Fatal(a ...any) {
	s := fmt.Sprint(a...)
	l.Output(2, s)
	simrt.ProcExit("exit", "log.Fatal: "+s)
}
func (l *Logger) Fatalln(a ...any) {
	s := fmt.Sprintln(a...)
	l.Output(2, s)
	simrt.ProcExit("exit", "log.Fatal: "+s)
}
func (l *Logger) Panicf(f string, a ...any) { s := fmt.Sprintf(f, a...); l.Output(2, s); panic(s) }
func (l *Logger) Panic(a ...any)            { s := fmt.Sprint(a...); l.Output(2, s); panic(s) }
func (l *Logger) Panicln(a ...any)          { s := fmt.Sprintln(a...); l.Output(2, s); panic(s) }
func (l *Logger) SetOutput(w io.Writer)     { l.out = w }
func (l *Logger) SetPrefix(p string)        { l.prefix = p }
func (l *Logger) SetFlags(f int)            { l.flag = f }
func (l *Logger) Prefix() string            { return l.prefix }
func (l *Logger) Flags() int                { return l.flag }
func (l *Logger) Writer() io.Writer         { return l.out }

func Printf(f string, a ...any) { Default().Printf(f, a...) }
func Print(a ...any)            { Default().Print(a...) }
func Println(a ...any)          { Default().Println(a...) }
func Fatalf(f string, a ...any) { Default().Fatalf(f, a...) }
func Fatal(a ...any)            { Default().Fatal(a...) }
func Fatalln(a ...any)          { Default().Fatalln(a...) }
func Panicf(f string, a ...any) { Default().Panicf(f, a...) }
func Panic(a ...any)            { Default().Panic(a...) }
func Panicln(a ...any)          { Default().Panicln(a...) }
func SetOutput(w io.Writer)     { Default().SetOutput(w) }
func SetPrefix(p string)        { Default().SetPrefix(p) }
func SetFlags(f int)            { Default().SetFlags(f) }
