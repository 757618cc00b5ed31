// Command brokers is the world of the broker controllers: the real NATS,
// JetStream and Kafka controllers with their client libraries, on a simulated
// network, against stub servers.
package main

import "verifsim/w"

func main() {
	w.StepBudget = 30_000_000 // the client libraries take many
	w.Main()
}
