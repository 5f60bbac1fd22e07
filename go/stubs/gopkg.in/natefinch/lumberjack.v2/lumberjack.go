// Package lumberjack is a stand-in that writes nothing.
package lumberjack

type Logger struct {
	Filename   string
	MaxSize    int
	MaxAge     int
	MaxBackups int
	LocalTime  bool
	Compress   bool
}

func (l *Logger) Write(p []byte) (int, error) { return len(p), nil }

func (l *Logger) Close() error { return nil }

func (l *Logger) Rotate() error { return nil }
