// Package log stands in for github.com/Breeze0806/go/log, which is not
// available offline.  It has the part of its API gobinlog uses and discards
// everything it is given.
package log

import "io"

// Level of a message.
type Level int

// Levels.
const (
	DebugLevel Level = iota
	InfoLevel
	ErrorLevel
)

// Logger is the interface gobinlog logs through.
type Logger interface {
	Print(args ...interface{})
	Debugf(format string, args ...interface{})
	Infof(format string, args ...interface{})
	Errorf(format string, args ...interface{})
}

type nop struct{}

func (nop) Print(args ...interface{})                 {}
func (nop) Debugf(format string, args ...interface{}) {}
func (nop) Infof(format string, args ...interface{})  {}
func (nop) Errorf(format string, args ...interface{}) {}

var cur Logger = nop{}

// NewDefaultLogger returns a logger that discards everything.
func NewDefaultLogger(w io.Writer, level Level, prefix string) Logger { return nop{} }

// SetLogger replaces the current logger.
func SetLogger(l Logger) { cur = l }

// GetLogger returns the current logger.
func GetLogger() Logger { return cur }
