// The harness of the programs: the client program, and the server program with it.
package main

import "github.com/lxdlam/vertex/vharness/hl"

func main() { hl.Main() }
