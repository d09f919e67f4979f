//go:build go1.21

package main

// info says what a property's check runs and assumes.
type info struct {
	nontrivial string
	real       []string
	stubs      []string
	assume     []string
}

var budgets = map[string]budget{
	"C01": {quick: 80000, thorough: 4000000},
	"C02": {quick: 80000, thorough: 4000000},
	"C03": {quick: 60000, thorough: 3000000},
	"C04": {quick: 30000, thorough: 1500000},
	"C05": {quick: 30000, thorough: 1500000},
	"C06": {quick: 80000, thorough: 4000000},
	"C07": {quick: 15000, thorough: 750000, quickRace: 4000, thoroughRace: 100000},
	"C14": {quick: 60000, thorough: 3000000},
	"C19": {quick: 40000, thorough: 2000000},

	"C08": {quick: 90000, thorough: 4000000},
	"C09": {quick: 45000, thorough: 3000000},
	"C10": {quick: 80000, thorough: 4000000},
	"C11": {quick: 80000, thorough: 4000000},
	"C12": {quick: 80000, thorough: 4000000},
	"C13": {quick: 70000, thorough: 4000000},
	"C15": {quick: 80000, thorough: 4000000},
	"C16": {quick: 80000, thorough: 4000000},
	"C17": {quick: 80000, thorough: 4000000},
	"C18": {quick: 80000, thorough: 4000000},
	"C20": {quick: 60000, thorough: 4000000},
}

var coreReal = []string{"core/manager (resource manager, notifiers, cleaner, ADS client: sender, receiver, reconnect)", "core/xdsresource decoders", "go.uber.org/atomic, cenkalti/backoff (instrumented copies)", "protobuf encoding"}

var coreStubs = []string{"ADS transport (fake client and stream, messages cross as bytes)", "control plane (state-of-the-world model server)", "goroutine scheduler, sync, channels, select, time, context, math/rand, os.WriteFile (deterministic shims)"}

var coreAssume = []string{
	"The control plane speaks state-of-the-world ADS with at most one resource of a name per response.",
	"Interleavings are explored at synchronisation, channel, atomic and timer operations; data races between them are left to the race-detector build of C07.",
	"The instrumented build replaces sync, time, context, channels and select by shims with Go's semantics.",
}

var coreInfo = info{
	nontrivial: "the client started up and at least one lookup and one discovery response took place.",
	real:       coreReal, stubs: coreStubs, assume: coreAssume,
}

func suite(nontrivial string, real, assume []string) info {
	return info{nontrivial, append(append([]string{}, coreReal...), real...), suiteStubs, append(append([]string{}, coreAssume...), assume...)}
}

var suiteStubs = append(append([]string{}, coreStubs...), "the RPC itself (the next endpoint of the middleware, the remote service)")

var (
	routing  = "xdssuite (router, router middleware, metadata extractor)"
	resolver = "xdssuite (resolver)"
	kitex    = "kitex rpcinfo, remoteinfo, discovery, circuitbreak, retry, limit packages (not instrumented)"
)

var infos = map[string]info{
	"C01": coreInfo, "C02": coreInfo, "C03": coreInfo, "C04": coreInfo, "C05": coreInfo, "C06": coreInfo, "C07": coreInfo, "C14": coreInfo, "C19": coreInfo,

	"C08": suite("at least one call was routed whose expected route the reference evaluation could tell.", []string{routing, kitex},
		[]string{"Header conditions are exact, prefix and regular-expression ones, at most one per key.", "The route a call should take is computed from the specification of the resources by an independent evaluator."}),
	"C09": suite("the outcomes of one routing decision were enumerated (every value of every bounded draw) or sampled.", []string{routing, kitex},
		[]string{"Total weights fit in 32 bits.", "Sampled distributions are compared at a false-alarm probability below 1e-12 each."}),
	"C10": suite("at least one cluster was resolved.", []string{resolver, routing, kitex},
		[]string{"Clusters are of the types EDS, STATIC and LOGICAL_DNS."}),
	"C11": suite("a decoded Listener or RouteConfiguration was compared with its specification.", nil,
		[]string{"Messages are built from specifications that cover every field the decoders read; the comparison does not go through the decoders."}),
	"C12": suite("a decoded Cluster, ClusterLoadAssignment or NameTable was compared with its specification.", nil,
		[]string{"Messages are built from specifications that cover every field the decoders read; the comparison does not go through the decoders."}),
	"C13": suite("at least one response or payload was judged.", nil,
		[]string{"Payloads whose validity the property leaves open (invalid regular expressions, matches without a path, unnamed resources, ...) only must not cause a panic.", "Payloads are found by seeded generation and structured mutation, without coverage feedback."}),
	"C15": suite("at least one call went through the router, the middleware or the resolver.", []string{routing, resolver, kitex},
		[]string{"Absence of a resource excuses an error only after the fetch time-out or the deadline of the call."}),
	"C16": suite("the circuit breaker configuration was read at a quiet moment.", []string{"xdssuite (circuit breaker suite)", kitex}, nil),
	"C17": suite("the retry policies were read at a quiet moment.", []string{"xdssuite (retry suite)", kitex}, nil),
	"C20": suite("a request was sent, or an initialisation took place in an environment without an identity.", []string{"xds.Init, the bootstrap configuration from the environment, the singleton of xdssuite, router and resolver as its users", kitex},
		[]string{"One run is one process: the package variables of xds, xdssuite and core/manager are set to their initial values before each.", "Environment variables do not change while an initialisation is running.", "An environment with metadata that is not a JSON object only has to give the identity, or an error."}),
	"C18": suite("the limiter was read at a quiet moment.", []string{"xdssuite (limiter suite)", kitex}, nil),
}
