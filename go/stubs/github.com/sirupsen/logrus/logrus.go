// Package logrus is a stand-in that writes nothing.
package logrus

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"
	"time"
)

type Level uint32

const (
	PanicLevel Level = iota
	FatalLevel
	ErrorLevel
	WarnLevel
	InfoLevel
	DebugLevel
	TraceLevel
)

func (l Level) String() string {
	return [...]string{"panic", "fatal", "error", "warning", "info", "debug", "trace"}[l]
}

func ParseLevel(s string) (Level, error) {
	for l := PanicLevel; l <= TraceLevel; l++ {
		if l.String() == s {
			return l, nil
		}
	}
	return 0, errors.New("unknown level")
}

var AllLevels = []Level{PanicLevel, FatalLevel, ErrorLevel, WarnLevel, InfoLevel, DebugLevel, TraceLevel}

type Fields map[string]interface{}

type Formatter interface {
	Format(*Entry) ([]byte, error)
}

type TextFormatter struct{}

func (*TextFormatter) Format(*Entry) ([]byte, error) { return nil, nil }

type Hook interface {
	Levels() []Level
	Fire(*Entry) error
}

type LevelHooks map[Level][]Hook

func (h LevelHooks) Add(hook Hook) {}

type Logger struct {
	Out          io.Writer
	Hooks        LevelHooks
	Formatter    Formatter
	ReportCaller bool
	Level        Level
	ExitFunc     func(int)
	mu           sync.Mutex
}

func New() *Logger {
	return &Logger{Out: os.Stderr, Hooks: make(LevelHooks), Formatter: &TextFormatter{}, Level: InfoLevel}
}

type Entry struct {
	Logger  *Logger
	Data    Fields
	Time    time.Time
	Level   Level
	Caller  *runtime.Frame
	Message string
	Buffer  *bytes.Buffer
}

func (e *Entry) HasCaller() bool { return false }

func (e *Entry) WithFields(f Fields) *Entry { return &Entry{Logger: e.Logger, Data: f} }

func (e *Entry) WithField(string, interface{}) *Entry { return e }

func (e *Entry) WithError(error) *Entry { return e }

func (e *Entry) String() (string, error) { return e.Message, nil }

func pipe() *io.PipeWriter {
	r, w := io.Pipe()
	go io.Copy(io.Discard, r)
	return w
}

func (e *Entry) Writer() *io.PipeWriter { return pipe() }

func (e *Entry) WriterLevel(Level) *io.PipeWriter { return pipe() }

func (e *Entry) Log(lv Level, args ...interface{}) { last(lv, fmt.Sprint(args...)) }

func (e *Entry) Logln(lv Level, args ...interface{}) { last(lv, fmt.Sprint(args...)) }

func (e *Entry) Logf(lv Level, f string, args ...interface{}) {
	if lv == PanicLevel || lv == FatalLevel {
		last(lv, fmt.Sprintf(f, args...))
	}
}

func last(lv Level, s string) {
	if lv == PanicLevel || lv == FatalLevel {
		panic(s)
	}
}

func (e *Entry) Trace(args ...interface{})              { e.Log(TraceLevel) }
func (e *Entry) Debug(args ...interface{})              { e.Log(DebugLevel) }
func (e *Entry) Info(args ...interface{})               { e.Log(InfoLevel) }
func (e *Entry) Print(args ...interface{})              { e.Log(InfoLevel) }
func (e *Entry) Warn(args ...interface{})               { e.Log(WarnLevel) }
func (e *Entry) Warning(args ...interface{})            { e.Log(WarnLevel) }
func (e *Entry) Error(args ...interface{})              { e.Log(ErrorLevel) }
func (e *Entry) Fatal(args ...interface{})              { e.Log(FatalLevel, args...) }
func (e *Entry) Panic(args ...interface{})              { e.Log(PanicLevel, args...) }
func (e *Entry) Traceln(args ...interface{})            { e.Log(TraceLevel) }
func (e *Entry) Debugln(args ...interface{})            { e.Log(DebugLevel) }
func (e *Entry) Infoln(args ...interface{})             { e.Log(InfoLevel) }
func (e *Entry) Println(args ...interface{})            { e.Log(InfoLevel) }
func (e *Entry) Warnln(args ...interface{})             { e.Log(WarnLevel) }
func (e *Entry) Warningln(args ...interface{})          { e.Log(WarnLevel) }
func (e *Entry) Errorln(args ...interface{})            { e.Log(ErrorLevel) }
func (e *Entry) Fatalln(args ...interface{})            { e.Log(FatalLevel, args...) }
func (e *Entry) Panicln(args ...interface{})            { e.Log(PanicLevel, args...) }
func (e *Entry) Tracef(f string, args ...interface{})   { e.Logf(TraceLevel, f, args...) }
func (e *Entry) Debugf(f string, args ...interface{})   { e.Logf(DebugLevel, f, args...) }
func (e *Entry) Infof(f string, args ...interface{})    { e.Logf(InfoLevel, f, args...) }
func (e *Entry) Printf(f string, args ...interface{})   { e.Logf(InfoLevel, f, args...) }
func (e *Entry) Warnf(f string, args ...interface{})    { e.Logf(WarnLevel, f, args...) }
func (e *Entry) Warningf(f string, args ...interface{}) { e.Logf(WarnLevel, f, args...) }
func (e *Entry) Errorf(f string, args ...interface{})   { e.Logf(ErrorLevel, f, args...) }
func (e *Entry) Fatalf(f string, args ...interface{})   { e.Logf(FatalLevel, f, args...) }
func (e *Entry) Panicf(f string, args ...interface{})   { e.Logf(PanicLevel, f, args...) }

func (l *Logger) entry() *Entry { return &Entry{Logger: l} }

func (l *Logger) WithFields(f Fields) *Entry                { return l.entry() }
func (l *Logger) WithField(string, interface{}) *Entry      { return l.entry() }
func (l *Logger) WithError(error) *Entry                    { return l.entry() }
func (l *Logger) SetReportCaller(b bool)                    { l.ReportCaller = b }
func (l *Logger) SetLevel(lv Level)                         { l.Level = lv }
func (l *Logger) GetLevel() Level                           { return l.Level }
func (l *Logger) IsLevelEnabled(lv Level) bool              { return l.Level >= lv }
func (l *Logger) SetOutput(w io.Writer)                     { l.Out = w }
func (l *Logger) SetFormatter(f Formatter)                  { l.Formatter = f }
func (l *Logger) AddHook(h Hook)                            {}
func (l *Logger) Exit(code int)                             { os.Exit(code) }
func (l *Logger) Writer() *io.PipeWriter                    { return pipe() }
func (l *Logger) WriterLevel(Level) *io.PipeWriter          { return pipe() }
func (l *Logger) Log(lv Level, args ...interface{})         { last(lv, fmt.Sprint(args...)) }
func (l *Logger) Logln(lv Level, args ...interface{})       { last(lv, fmt.Sprint(args...)) }
func (l *Logger) Logf(lv Level, f string, a ...interface{}) { l.entry().Logf(lv, f, a...) }
func (l *Logger) Trace(args ...interface{})                 {}
func (l *Logger) Debug(args ...interface{})                 {}
func (l *Logger) Info(args ...interface{})                  {}
func (l *Logger) Print(args ...interface{})                 {}
func (l *Logger) Warn(args ...interface{})                  {}
func (l *Logger) Warning(args ...interface{})               {}
func (l *Logger) Error(args ...interface{})                 {}
func (l *Logger) Fatal(args ...interface{})                 { l.Log(FatalLevel, args...) }
func (l *Logger) Panic(args ...interface{})                 { l.Log(PanicLevel, args...) }
func (l *Logger) Traceln(args ...interface{})               {}
func (l *Logger) Debugln(args ...interface{})               {}
func (l *Logger) Infoln(args ...interface{})                {}
func (l *Logger) Println(args ...interface{})               {}
func (l *Logger) Warnln(args ...interface{})                {}
func (l *Logger) Warningln(args ...interface{})             {}
func (l *Logger) Errorln(args ...interface{})               {}
func (l *Logger) Fatalln(args ...interface{})               { l.Log(FatalLevel, args...) }
func (l *Logger) Panicln(args ...interface{})               { l.Log(PanicLevel, args...) }
func (l *Logger) Tracef(f string, args ...interface{})      {}
func (l *Logger) Debugf(f string, args ...interface{})      {}
func (l *Logger) Infof(f string, args ...interface{})       {}
func (l *Logger) Printf(f string, args ...interface{})      {}
func (l *Logger) Warnf(f string, args ...interface{})       {}
func (l *Logger) Warningf(f string, args ...interface{})    {}
func (l *Logger) Errorf(f string, args ...interface{})      {}
func (l *Logger) Fatalf(f string, args ...interface{})      { l.Logf(FatalLevel, f, args...) }
func (l *Logger) Panicf(f string, args ...interface{})      { l.Logf(PanicLevel, f, args...) }
