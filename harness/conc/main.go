// Harness of the concurrency package: futures, data channels, topics, event bus,
// broadcast values.
package main

import (
	"github.com/lxdlam/vertex/mc"
	"github.com/lxdlam/vertex/vharness/hl"
)

func main() { hl.Main() }

// defaultOrder explores one schedule (used where the size is what varies).
var defaultOrder = mc.Config{BlockCost: 1, SelCost: 1, MaxSteps: 1 << 22}
