package main

import "github.com/lxdlam/vertex/vharness/hl"

func main() { hl.Main() }
