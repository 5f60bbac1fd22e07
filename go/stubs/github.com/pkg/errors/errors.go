// Package errors is a stand-in with what common/errors uses.
package errors

import (
	"errors"
	"fmt"
)

type Frame uintptr

type StackTrace []Frame

func Is(err, target error) bool { return errors.Is(err, target) }

func As(err error, target interface{}) bool { return errors.As(err, target) }

func New(s string) error { return errors.New(s) }

func Errorf(f string, args ...interface{}) error { return fmt.Errorf(f, args...) }

func (f Frame) Format(s fmt.State, verb rune) { fmt.Fprintf(s, "%#x", uintptr(f)) }

func (st StackTrace) Format(s fmt.State, verb rune) { fmt.Fprintf(s, "%d frames", len(st)) }
