// Package uuid is a stand-in.
package uuid

import (
	"crypto/rand"
	"fmt"
)

type UUID [16]byte

func NewV4() (UUID, error) {
	var u UUID
	_, err := rand.Read(u[:])
	return u, err
}

func NewV1() (UUID, error) { return NewV4() }

func Must(u UUID, err error) UUID {
	if err != nil {
		panic(err)
	}
	return u
}

func (u UUID) Bytes() []byte { return u[:] }

func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[:4], u[4:6], u[6:8], u[8:10], u[10:])
}
