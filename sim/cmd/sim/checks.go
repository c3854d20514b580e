package main

var commonStub = []string{
	"the kernel: UDP and TCP sockets, name service, file system, process environment, standard streams (in-memory models with fault injection)",
	"the Go scheduler, locks, channels, timers and clock (a seeded single-threaded scheduler switching at every statement)",
	"the Scouter collector (an independent decoder and command issuer)",
	"runtime/pprof content, memory statistics, math/rand and crypto/rand sources (seeded)",
}

var agentReal = []string{"every package of /repo/scouterx (all non-test files, rewritten only to route scheduling points, time, I/O and randomness through the simulator)", "github.com/magiconair/properties", "github.com/emirpasic/gods (linkedhashmap, lists)"}

var commonAssum = []string{
	"interleavings are explored at statement granularity under sequential consistency; data races inside one statement and weak memory effects are not modelled",
	"sampling: a clean run is evidence over the seeds explored, not a proof",
}

func defCheck(prop, rule string, parts ...Part) {
	checks[prop] = &CheckDef{Parts: parts, Rule: rule, Real: agentReal, Stub: commonStub, Assum: commonAssum}
}

const traceRule = "a case is a generated application (tasks, services, nesting, steps, errors, panics), configuration, network fault list and scheduler mode, all from one seed; non-trivial when at least one service ended and was checked"

func init() {
	defCheck("C01", traceRule, Part{"trace", 20000}, Part{"flood", 160})
	defCheck("C02", traceRule, Part{"trace", 20000})
	defCheck("C03", traceRule, Part{"trace", 14000})
	defCheck("C04", traceRule, Part{"trace", 9000})
	defCheck("C07", traceRule, Part{"trace", 20000})
}
