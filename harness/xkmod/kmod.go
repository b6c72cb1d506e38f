//go:build go1.22

// Package kmod stands in for the package of that name: nothing is loaded.
package kmod

func Modprobe(module string) error { return nil }
