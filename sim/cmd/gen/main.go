package main

import (
	"fmt"
	"os"

	"simverif/internal/build"
)

func main() {
	_, s, err := build.Generate("/opt/veriftools/go1.24.13", os.Args[1], map[string]bool{"/repo/srpc": true, "/repo/rpcstream": true, "/repo/echo": true, "/repo/mock": true}, nil)
	fmt.Println(s, err)
	if err != nil {
		os.Exit(1)
	}
}
