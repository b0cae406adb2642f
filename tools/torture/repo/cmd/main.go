package main

import (
	"fmt"

	"example.org/tort/lib"
)

func main() {
	lib.Main()
	for _, l := range lib.Out {
		fmt.Print(l)
	}
}
