"""What each check explores, for check.py and the evidence files."""

REAL = ["go-mavlink2 (package mavlink2: FrameStream, frames, parser, dialects) as in /repo's working tree, with a scheduling point before every statement",
        "all shipped dialect packages", "util.UDPReadWriteCloser", "Go standard library: context, sync, time, bytes, encoding/binary, net.UDPConn method layer",
        "Go runtime: goroutines, channels, select, mutexes, timers (its scheduler's choices and its clock come from the simulator)"]
STUB = ["byte-stream transport (SimConn: segmentation, delays, EOF, errors, torn and blocked writes)",
        "UDP socket below net.UDPConn (simulated network)", "wall and monotonic clock (simulated time)",
        "goroutine scheduler choice, select choice, map iteration order and other runtime randomness (seeded)"]
ASSUME = ["The Go compiler and runtime behave as documented; interleavings are explored at statement granularity (sequentially consistent), data races proper are C16.",
          "The reference model in sim/ref.go and the message table in sim/spec.json describe MAVLink correctly; both were derived from the MAVLink documentation and the XML-derived tables, not from the code under test.",
          "An accidental 16-bit checksum collision in generated noise counts as a valid frame for model and code alike."]

STREAM = ("one FrameStream on a simulated transport with generated traffic (valid, signed, damaged and nested frames, noise), segmentation, delays, transport failures, "
          "slow or absent consumers, loggers, senders, cancellation and close at arbitrary points; ")


def s(rule, budget=(45, 600), **k):
    d = {"rule": STREAM + rule, "budget": budget}
    d.update(k)
    return d


UDP = ("one util.UDPReadWriteCloser over a simulated socket with several peers, concurrent readers, writers and closers, socket errors, slow and blocked sends; ")

NET = ("messages of every shipped dialect, encoded by the library, sent by concurrent senders through real FrameStreams and decoded at the far end, with segmentation, delays and slow consumers; ")

INFO = {
    "C01": s("deliveries are compared with a left-to-right reference scan of the bytes that arrived."),
    "C02": s("every delivered frame must be a contiguous, valid run of arrived bytes."),
    "C03": s("after the noise ends, clean frames must come out within 280 further bytes."),
    "C04": s("the transport's record of writes is compared with the accepted frames."),
    "C05": s("no panic, no call that never returns, at any close."),
    "C06": s("after any terminating event both loops have returned, the transport is closed once, channels are closed."),
    "C07": s("close reasons seen by observers are compared with the history of causes."),
    "C08": s("log records are compared with arrivals, deliveries and writes."),
    "C09": {"rule": UDP + "the destination of every datagram is compared with the first sender read.", "budget": (45, 600)},
    "C10": {"rule": UDP + "reads and writes are compared with the datagrams on the simulated network.", "budget": (45, 600)},
    "C13": s("every delivered frame is inspected through its whole API and compared with the reference layout."),
    "C14": s("signed and unsigned frames must come out whole with the right signature."),
    "C15": s("frames held by the consumer must keep their bytes; consumer and logger overwrite theirs."),
    "C19": s("raw mode: deliveries are compared with the reference scan's candidates."),
    "C20": s("stalled consumers: bytes taken from the transport stay bounded and nothing is lost on resumption."),
    "C11": {"rule": NET + "over a reliable byte stream, both directions at once; what is read at the far end is compared with what was sent.", "budget": (45, 600), "real": REAL, "stub": STUB},
    "C12": {"rule": NET + "each through its own UDP adapter over a network that drops, duplicates, delays, reorders, corrupts, truncates and glues datagrams, and partitions; what is read is compared with the intact copies that arrived.", "budget": (45, 600)},
    "C16": {"rule": "the plans of all other scenarios (one stream, several streams and codec callers sharing dialects, the UDP adapter, two endpoints) under the race detector: accesses of the library, or of the library and a user's or the kernel's to the bytes handed to it, that conflict and are ordered by no synchronisation in the executed schedule.",
            "fresh": 1, "budget": (45, 600), "race": True,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults, each simulated execution judged by a happens-before analysis (the Go race detector, compiled into the simulated library only)",
            "note": "Sampled, not exhaustive. The race detector judges each simulated schedule; the simulator's own synchronisation can hide a race where it wakes one goroutine from another, so a race must show in at least one explored schedule. Replays reproduce exactly."},
    "C17": {"rule": NET + "one library endpoint and one independent reference peer, and two library endpoints: every frame on the wire is compared with the bytes the serialisation rules prescribe, and frames of the peer must decode to its values; what the format cannot carry must be refused.", "budget": (45, 600)},
    "C22": {"rule": NET + "senders keep message objects and set their texts again and again (empty, full, too long, with zero bytes, with split runes) over pipes and faulty datagram links; the getters at the sender and at the receiver must return each text.", "budget": (45, 600)},
    "C23": {"rule": UDP + "readers receive into buffers that they use again and make private and shared frames of the datagrams' bytes (frames, several in one, broken ones, noise, nothing); private frames must keep their bytes, shared ones show the caller's, and what is no frame must be refused.", "budget": (45, 600)},
    "C18": {"rule": "several streams with their own transports, traffic, faults and closes, and several codec callers (encode, decode, validate, inspect) on shared dialects, interleaved; every part is compared with what it does alone; some plans run in a process of their own, so that first uses overlap.", "budget": (45, 600), "fresh": 2},
    "C21": {"rule": "one stream fed without end by noise, damaged frames, bogus headers and valid traffic with idle or busy consumers; the memory that stays reachable after each of several stages (100 k or, in one run of twelve, 1.25 M pieces of noise) must not grow by more than 128 KB from the first to the last.", "budget": (45, 600),
            "assume": ["Retained memory is measured by the runtime's live heap after a full collection, with the simulator's own records kept out."]},
}
