package main

import (
	"os"

	"github.com/go-bond/bond/internal/vmc/kit"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "record" {
		recordMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		kit.Worker(os.Args[2:])
		return
	}
	kit.Main()
}
