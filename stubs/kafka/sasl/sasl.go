// Package sasl is a stand-in.
package sasl

import "context"

type Mechanism interface {
	Name() string
	Start(ctx context.Context) (sess StateMachine, ir []byte, err error)
}
type StateMachine interface {
	Next(ctx context.Context, challenge []byte) (done bool, response []byte, err error)
}
