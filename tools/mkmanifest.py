import json, os
T = {
"C01": ("independent strict wire decoder as online monitor over generated sessions", "every packet the monitor's server received was decoded by a decoder written from the MQTT 5 text and equalled the accepted call it stems from"),
"C02": ("wire monitor over generated sessions with oversized arguments", "no oversized call produced bytes, and the stream stayed well formed afterwards, for every oversized field kind and the total size"),
"C03": ("notification monitor against an independent packet model", "every notification equalled the packet the server sent (all reason codes, property kinds, boundary sizes)"),
"C04": ("trace comparison across enumerated and random segmentations, step-wise promptness monitor", "short sequences are cut at every single position and byte by byte, longer ones at random; each run is compared with the model, not only with the others"),
"C05": ("hostile-stream workload with panic, spin and termination monitors; overflow checks on", "mutated, random and exhaustive short packets, each ended by a close, a reset or silence"),
"C06": ("violation-injection workload with notification and acknowledgement monitor", "each known kind of damage or unsupported packet at a random position in an otherwise valid stream"),
"C07": ("online in-use monitor of packet identifiers over generated histories", "identifiers in flight tracked from both directions of the wire, with stray acknowledgements"),
"C08": ("online identifier monitor over exhaustion histories", "identifier space driven to exhaustion and back, and far past 65,535 requests per connection"),
"C09": ("online PUBACK sequence monitor", "the PUBACK sequence equals the QoS 1 sequence, with client traffic and dropped receivers mixed in"),
"C10": ("offline history checker (exactly once, real-time order) over single- and multi-threaded stress", "calls on many handles in many threads with stalled servers; each call carries a unique tag"),
"C11": ("notification order monitor over slow-consumer workloads and multi-threaded stress", "uniquely tagged messages compared in order with what the server sent, over stalls, full queues and receiver drops"),
"C12": ("handshake trace monitor over generated first answers", "all first answers (good, each refusal, wrong packet, malformed, cut) with early calls, segmentations and delays"),
"C13": ("virtual-time keep-alive monitor", "wire silence, PINGREQ and timeouts checked at every instant of virtual time over many intervals"),
"C14": ("termination and aftermath monitor with enumerated drop points", "each way to end a session, and dropping the event loop after its n-th turn for every small n"),
"C15": ("wake-up, poll and CPU-time monitor of the event-loop future", "wake-ups and polls counted in idle windows of every idle state, plus a CPU clock around every poll"),
"C16": ("counting allocator with measurements at quiescent points", "live heap bytes of a session compared at quiescent points thousands of requests apart"),
"C17": ("scenarios and monitors of the other properties under an executor with one-shot wakers, unasked polls and changing threads", "every poll of a session got a new waker whose predecessors were dead, half of the sessions were also polled unasked, and multi-threaded rounds polled on another thread each time"),
"C18": ("per-session monitors over interleaved sessions of different roles in one thread", "two to five sessions at once, their turns and pieces of packets interleaved at random, each judged by its own model"),
"C19": ("connection counting at the listeners of every address involved", "every form of address the runtime takes, lists with refused addresses at every position, all kinds of end, with virtual time passing afterwards"),
}
M = {
 "version": 1,
 "setup_cmd": "./check build",
 "checks": [
  {"property": k, "quick_cmd": f"VERIF_TIER=quick ./check {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check {k}",
   "technique": "runtime monitoring: " + t, "level": "exploration",
   "level_note": "Held on the executions of this run only: " + n + ". Real code over a real loopback socket, virtual clock; trusts the monitor's own model of MQTT 5, tokio and the kernel."}
  for k, (t, n) in sorted(T.items())],
 "not_applicable": [],
 "notes": "No hooks in /repo: every property is observed at the API, the socket, the waker, the clock and the allocator. VERIF_SEED selects the workload. `./check Cxx replay FILE` reruns one reported scenario with its trace.",
}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1); f.write("\n")
