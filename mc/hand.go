package mc

import "unsafe"

var teardown byte

func teardownAddr() unsafe.Pointer { return unsafe.Pointer(&teardown) }

func handOff(g, next *G) {
	wakeUp(next)
	waitWake(g)
}

func wakeUp(g *G) {
	raceDisable()
	g.wake <- struct{}{}
	raceEnable()
}

func waitWake(g *G) {
	raceDisable()
	<-g.wake
	raceEnable()
}
