package main

// What the checks run: which worlds (see /verif/sim), how many seeds, and what
// is real and what is a stand-in.

var (
	realStorage = []string{"storage (all of it)", "future", "bitfield", "os, io and path/filepath of the Go library down to the system call"}
	stubStorage = []string{"kernel file system: in-memory disk with faults, journalled metadata and lost unsynced data on power loss"}
	asmStorage  = []string{
		"file system model: a power loss keeps a prefix of the namespace operations in the order they were made (a metadata journal) and may lose, tear or keep any file data not fsynced",
		asmPreempt,
	}
	asmPreempt = "preemption points: every statement of the repository's packages (bencode excepted) and every blocking operation; code of the Go library runs without preemption between them"

	realSwarm = []string{"p2p (all of it)", "storage", "future", "bitfield", "bencode", "api/peer, api/tracker, api/metainfo", "net, net/http, net/url, bufio and os of the Go library down to the system call"}
	stubSwarm = []string{
		"kernel network: connections with finite buffers, latency, fragmentation, resets, silence and partitions",
		"kernel file system: in-memory disk with faults",
		"other peers and trackers: scripts of the harness with their own wire and bencode code (further drip clients of a run are real)",
	}
	asmSwarm = []string{
		"a run has a few clients, at most some dozen pieces and some simulated minutes to hours",
		"liveness is asked for only after the plan's faults have ended, within bounds derived from the code's own timeouts (DESIGN.md)",
		asmPreempt,
	}

	realPex = []string{"pex (all of it)", "api/tracker", "bencode", "net/http server and client of the Go library down to the system call"}
	stubPex = []string{"kernel network", "the machine's wall clock, which jumps", "announcing clients: scripts of the harness with their own bencode code"}
	asmPex  = []string{
		"a peer that announced between 59.5 and 61 s ago may or may not be listed; answers are compared with every order of the announces that were in flight at the same time",
		asmPreempt,
	}

	realTracker = []string{"p2p tracker client and failover", "api/tracker", "bencode", "net/http client of the Go library down to the system call"}
	stubTracker = []string{"kernel network, name lookup", "trackers: scripts of the harness with their own HTTP and bencode code"}

	realCodec = []string{"bencode (all of it)", "api/peer", "api/metainfo", "bufio and io of the Go library"}
	stubCodec = []string{"the connection: readers and writers that fragment, stall, end early and fail"}
	asmCodec  = []string{
		"documents of at most a few hundred kilobytes; damaged documents are compared with reading them at once rather than with the bencode specification",
		asmPreempt,
	}
)

func cat(ls ...[]string) []string {
	var out []string
	seen := map[string]bool{}
	for _, l := range ls {
		for _, s := range l {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

func storageSpec(quick int) propSpec {
	return propSpec{worlds: []worldShare{{"storage", 1}}, quick: quick, thorough: quick * 33, real: realStorage, stub: stubStorage, assume: asmStorage}
}

func swarmSpec(quick int) propSpec {
	return propSpec{worlds: []worldShare{{"swarm", 1}}, quick: quick, thorough: quick * 66, real: realSwarm, stub: stubSwarm, assume: asmSwarm}
}

func mixed(quick int, ws ...worldShare) propSpec {
	s := propSpec{worlds: ws, quick: quick, thorough: quick * 66}
	for _, w := range ws {
		switch w.world {
		case "storage":
			s.real, s.stub, s.assume = cat(s.real, realStorage), cat(s.stub, stubStorage), cat(s.assume, asmStorage)
		case "swarm":
			s.real, s.stub, s.assume = cat(s.real, realSwarm), cat(s.stub, stubSwarm), cat(s.assume, asmSwarm)
		case "pex":
			s.real, s.stub, s.assume = cat(s.real, realPex), cat(s.stub, stubPex), cat(s.assume, asmPex)
		case "tracker":
			s.real, s.stub, s.assume = cat(s.real, realTracker), cat(s.stub, stubTracker), cat(s.assume, asmSwarm)
		case "codec":
			s.real, s.stub, s.assume = cat(s.real, realCodec), cat(s.stub, stubCodec), cat(s.assume, asmCodec)
		}
	}
	return s
}

var specs = map[string]propSpec{
	"C01": mixed(25000, worldShare{"storage", 4}, worldShare{"swarm", 1}),
	"C02": storageSpec(30000),
	"C03": storageSpec(30000),
	"C04": storageSpec(30000),
	"C05": swarmSpec(12000),
	"C06": mixed(15000, worldShare{"swarm", 5}, worldShare{"codec", 1}),
	"C07": swarmSpec(12000),
	"C08": swarmSpec(12000),
	"C09": swarmSpec(12000),
	"C10": swarmSpec(12000),
	"C11": mixed(15000, worldShare{"tracker", 2}, worldShare{"swarm", 1}),
	"C12": mixed(15000, worldShare{"swarm", 2}, worldShare{"storage", 1}),
	"C13": mixed(25000, worldShare{"pex", 1}),
	"C14": swarmSpec(12000),
	"C15": mixed(18000, worldShare{"swarm", 1}, worldShare{"codec", 1}),
	"C16": mixed(25000, worldShare{"codec", 1}),
	"C17": swarmSpec(12000),
	"C18": swarmSpec(12000),
	"C19": mixed(25000, worldShare{"storage", 4}, worldShare{"swarm", 1}),
	"C24": swarmSpec(12000),
	"C25": swarmSpec(12000),
	"C26": mixed(16000, worldShare{"swarm", 4}, worldShare{"storage", 2}, worldShare{"pex", 1}),
	"C27": swarmSpec(10000),
	"C28": swarmSpec(10000),
	"C20": race(mixed(8000, worldShare{"swarm", 4}, worldShare{"pex", 2}, worldShare{"storage", 2}, worldShare{"tracker", 1}, worldShare{"codec", 1})),
}

func race(s propSpec) propSpec {
	s.race = true
	s.assume = append(s.assume, "the race detector (the Go toolchain's own, on the simulated schedules) reports accesses that are unordered in a run; harness code is excluded from the reports")
	s.rule = "The simulation is built with the race detector; scheduling itself adds no synchronisation the detector could mistake for the program's own."
	return s
}
