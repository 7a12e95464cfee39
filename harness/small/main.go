// The harness of the small building blocks: data maps, index resolution, strings, pipelines.
package main

import "github.com/lxdlam/vertex/vharness/hl"

func main() { hl.Main() }
