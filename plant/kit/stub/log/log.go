// Package log stands in for github.com/Breeze0806/go/log, which cannot be
// fetched offline: the interface gobinlog uses, discarding everything.
package log

import "io"

type Level int

const (
	DebugLevel Level = iota
	InfoLevel
	ErrorLevel
)

type Logger interface {
	Print(v ...interface{})
	Debugf(format string, v ...interface{})
	Infof(format string, v ...interface{})
	Errorf(format string, v ...interface{})
}

type discard struct{}

func (discard) Print(v ...interface{})                 {}
func (discard) Debugf(format string, v ...interface{}) {}
func (discard) Infof(format string, v ...interface{})  {}
func (discard) Warnf(format string, v ...interface{})  {}
func (discard) Errorf(format string, v ...interface{}) {}
func (discard) Printf(format string, v ...interface{}) {}

var cur Logger = discard{}

func NewDefaultLogger(w io.Writer, level Level, prefix string) Logger { return discard{} }
func SetLogger(l Logger)                                              { cur = l }
func GetLogger() Logger                                               { return cur }
