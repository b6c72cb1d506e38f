//go:build race

package mc

func init() { Race = true }
