//go:build symx || !goexperiment.synctest

package v

func virtualTime(f func()) { panic("built without virtual time") }
