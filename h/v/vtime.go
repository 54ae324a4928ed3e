//go:build !symx && goexperiment.synctest

package v

import "testing/synctest"

// virtualTime runs f under virtual time, as the symbolic executor does.
func virtualTime(f func()) { synctest.Run(f) }
