package main

// C19-C24 and C33: nodes.

func (c *Ctx) nodesFor(min map[string]int) {
	total := map[string]int{}
	n := 0
	for _, m := range c.nodeModels("node") {
		for _, v := range m.vars {
			n++
			log, count := c.runNode(m, v)
			c.emit(log)
			for k, x := range count {
				total[k] += x
			}
		}
	}
	c.floor("variants of nodes", n, 6)
	for _, k := range sortedKeys(min) {
		c.floor(k, total[k], min[k])
	}
}

func (c *Ctx) models() []*nodeModel { return c.nodeModels("node") }

var nodeTrust = []string{
	"channels, select, sync.Cond, sync.Mutex, sync.WaitGroup and context behave as the language and library document",
	"receivers and finalizers terminate and do not call the nodes' methods",
}

func init() {
	flow := "automaton that follows each goroutine of each kind of node, in each way it can be set up, over every path of Begin, Feed and what they start"
	min := map[string]int{"receive": 6, "forward": 6, "send": 6}
	register("C19", flow+"; variables that hold batches are not shared by goroutines without synchronisation; Pipeline.FeedForward feeds the next node, if any, exactly once", func(c *Ctx) {
		c.nodesFor(min)
		for _, m := range c.models() {
			for _, v := range m.vars {
				c.races(m, v)
			}
		}
		c.forwarding()
	}, nodeTrust...)
	register("C20", flow+"; nodes before a strictly ordered one are switched before any node begins", func(c *Ctx) {
		c.nodesFor(min)
		c.strictOrder(c.models())
	}, nodeTrust...)
	register("C21", flow+"; memory that goroutines of a node share is accessed under its lock", func(c *Ctx) {
		c.nodesFor(min)
		for _, m := range c.models() {
			for _, v := range m.vars {
				c.races(m, v)
			}
		}
	}, nodeTrust...)
	register("C22", flow+"; every path of End waits before it walks the finalizers; every path of a run ends each node once after the last batch", func(c *Ctx) {
		c.nodesFor(min)
		for _, m := range c.models() {
			c.endNode(m)
		}
		c.runEnds()
	}, nodeTrust...)
	register("C23", flow+"; blocking operations of sources; the context is checked between batches and nodes are ended on every path of a run without error", func(c *Ctx) {
		c.nodesFor(min)
		c.sourceBlocks()
		c.runStops()
		c.runEnds()
	}, nodeTrust...)
	register("C24", flow+"; nodes before a strictly ordered one are switched before any node begins", func(c *Ctx) {
		c.nodesFor(min)
		c.strictOrder(c.models())
	}, nodeTrust...)
	register("C31", "every path of TryMerge of every pair of kinds, of Pipeline.Add and of the part of a run that begins and merges nodes: lists are concatenated in order, orders are kept or strengthened, and nodes only leave the pipeline when merged or not to be kept", func(c *Ctx) {
		c.nodesFor(nil)
		c.merging(c.models())
		c.adding()
		c.startingAll()
	}, nodeTrust...)
	register("C32", "every path of the transform constructors and of the transforming node's methods: one application and one feed per batch with its number, shared run, context and error, nodes begun, merged, ended and made ordered with those of the source", func(c *Ctx) {
		c.transforms(c.models())
		c.startingAll()
		c.runEnds()
		c.strictOrder(c.models())
	}, nodeTrust...)
	register("C33", flow, func(c *Ctx) { c.nodesFor(min) }, nodeTrust...)
}
