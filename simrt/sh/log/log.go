// Package log is package log writing to the simulated standard error.
package log

import (
	"fmt"
	"io"
	"log"

	"simmod/simrt"
	"simmod/simrt/sh/os"
)

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Logger is a simulated *log.Logger.
type Logger struct {
	mu     simrt.Mutex
	out    io.Writer
	prefix string
	flag   int
}

var std *Logger

// SimStart resets the standard logger.
func SimStart() { std = &Logger{flag: LstdFlags} }

func New(w io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: w, prefix: prefix, flag: flag}
}
func Default() *Logger {
	if std == nil {
		SimStart()
	}
	return std
}
func (l *Logger) Output(depth int, s string) error {
	var b []byte
	if l.flag&Lmsgprefix == 0 {
		b = append(b, l.prefix...)
	}
	if l.flag&(Ldate|Ltime|Lmicroseconds) != 0 {
		b = append(b, simrt.Now().Format("2006/01/02 15:04:05 ")...)
	}
	if l.flag&Lmsgprefix != 0 {
		b = append(b, l.prefix...)
	}
	b = append(b, s...)
	if len(s) == 0 || s[len(s)-1] != '\n' {
		b = append(b, '\n')
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	w := l.out
	if w == nil {
		w = os.Stderr
	}
	_, err := w.Write(b)
	return err
}
func (l *Logger) Print(v ...interface{})            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...interface{}) {
	l.Output(2, fmt.Sprint(v...))
	simrt.Exit(1)
}
func (l *Logger) Fatalf(f string, v ...interface{}) {
	l.Output(2, fmt.Sprintf(f, v...))
	simrt.Exit(1)
}
func (l *Logger) Fatalln(v ...interface{}) {
	l.Output(2, fmt.Sprintln(v...))
	simrt.Exit(1)
}
func (l *Logger) Panic(v ...interface{}) {
	s := fmt.Sprint(v...)
	l.Output(2, s)
	panic(s)
}
func (l *Logger) Panicf(f string, v ...interface{}) {
	s := fmt.Sprintf(f, v...)
	l.Output(2, s)
	panic(s)
}
func (l *Logger) Panicln(v ...interface{}) {
	s := fmt.Sprintln(v...)
	l.Output(2, s)
	panic(s)
}
func (l *Logger) SetOutput(w io.Writer) { l.out = w }
func (l *Logger) SetPrefix(p string)    { l.prefix = p }
func (l *Logger) SetFlags(f int)        { l.flag = f }
func (l *Logger) Flags() int            { return l.flag }
func (l *Logger) Prefix() string        { return l.prefix }
func (l *Logger) Writer() io.Writer {
	if l.out == nil {
		return os.Stderr
	}
	return l.out
}

func Output(depth int, s string) error  { return Default().Output(depth, s) }
func Print(v ...interface{})            { Default().Print(v...) }
func Printf(f string, v ...interface{}) { Default().Printf(f, v...) }
func Println(v ...interface{})          { Default().Println(v...) }
func Fatal(v ...interface{})            { Default().Fatal(v...) }
func Fatalf(f string, v ...interface{}) { Default().Fatalf(f, v...) }
func Fatalln(v ...interface{})          { Default().Fatalln(v...) }
func Panic(v ...interface{})            { Default().Panic(v...) }
func Panicf(f string, v ...interface{}) { Default().Panicf(f, v...) }
func Panicln(v ...interface{})          { Default().Panicln(v...) }
func SetOutput(w io.Writer)             { Default().SetOutput(w) }
func SetPrefix(p string)                { Default().SetPrefix(p) }
func SetFlags(f int)                    { Default().SetFlags(f) }
func Flags() int                        { return Default().Flags() }
func Prefix() string                    { return Default().Prefix() }
func Writer() io.Writer                 { return Default().Writer() }
