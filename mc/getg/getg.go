// Package getg is laid over the directory cmd of the repository, which exists
// (the assembler cannot work in a directory that does not).
package getg

// G identifies the running goroutine.
func G() uintptr
