#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALG = ("TLA+/TLC: exhaustive small-field model + conformance of recorded calls to the TLA+ specification evaluated over the real group")
TP = ("TLA+/TLC: protocol specification TpDkg (two state machines), deviations enumerated by TLC from TpPlan and replayed into real sessions, recorded sessions checked on their bytes by TpDkgTrace")
CHECKS = {
    "C01": (ALG, "OprfMC explores all interleavings of three exchanges; recorded exchanges (all interleavings of two, all input lengths in the thorough tier) are accepted by TraceAlg only if every value equals the RFC 9497 definition written in Oprf.tla. Values outside the runs are not covered."),
    "C02": (ALG, "Every length of each argument and a random sample of triples is compared with expand_message_xmd/HashToGroup as defined in Oprf.tla; contents are sampled."),
    "C03": (ALG, "Malformed encodings (non-canonical, negative, off-curve, identity, random) in every operand position; the specification decides validity of each from the RFC 9496 decoding rules."),
    "C04": (ALG, "ShareMC is exhaustive over all polynomials and ordered quorums for a small field; the real code is run on all ordered quorums for n<=4 (5 thorough), random ones for larger n up to 255."),
    "C06": (ALG, "As C04, for both evaluation methods."),
    "C07": (ALG, "Identifier lengths 0..65535 sampled at boundaries, random quorums and orders."),
    "C08": (ALG, "DkgMC is exhaustive over dealers' polynomials in a small field; real runs for all t<=n<=5 and samples up to 255."),
    "C09": (ALG, "All subsets of cheating dealers for n<=4 (5 thorough) and all checking parties, twelve kinds of corruption sampled per dealer."),
    "C10": (ALG, "MulMC is exhaustive in a small field; real runs over random dealer lists and orders."),
    "C11": (TP, "All single deviations in keys, commitments, shares, indexes and broadcasts for n=3, samples for n=4,5 and random combinations; final shares compared with the committed polynomials."),
    "C12": (TP, "Every header field and body of every message of every step; every 13th byte (thorough: every byte) of every input, and wrong lengths."),
    "C13": (TP, "All single header changes by a dishonest sender and all substitutions by messages of the same or another session for n=3; boundary timestamps; sampled for n=4."),
    "C14": (TP, "After every failing call of the families the genuine input and arbitrary inputs are offered again."),
    "C15": (TP, "All deviation families for n=3 (sampled in quick), random combinations of up to four deviations, n=4,5 sampled."),
    "C16": (TP, "As C15, with small reporting capacities in addition; text and index of each report are compared."),
    "C17": (TP, "All combinations of one true or false complaint with all revelations for n=3, pairs of complaints; n=4,5 sampled."),
    "C18": (TP, "As C17; outputs searched for keys and shares."),
    "C19": (TP, "All single differences of a broadcast for one recipient and all wrong transcripts and announcements for n=3; combinations sampled."),
    "C20": (TP, "Byte-exact for n<=5, digest-based for all n<=8 (thorough 13) with all t, samples up to n=128."),
    "C21": (TP, "Same families on a build with address and bounds checking; logging on and off compared; memory faults not visible to the sanitizer are not covered."),
    "C22": (TP, "All n,t in 0..255 in the thorough tier, boundary grid in quick; name lengths at boundaries."),
    "C28": (TP, "All 2<=t<n<=5 (thorough 7) byte-exact with advancing clock, larger n by digests."),
}
DIST = "TLA+/TLC: exhaustive small-field model of the sharing + samples of the real code's draws (small substituted group and real group) judged by Uniform.tla"
CHECKS["C05"] = (DIST, "SharingMC proves over fields of 3 and 5 elements that independent uniform coefficients hide the secret; the real code's coefficients are then tested for independence and uniformity: joint Pearson test over groups of 5..11 elements for t<=4, bits, repetitions and relations of neighbours over the real group for t up to 255. Dependencies among more than three coefficients are not covered.")
CHECKS["C29"] = (DIST, "Pearson tests over groups of 7..31 elements, bit counts, repetitions and relations over the real group, inside and across processes.")
NOI = "TLA+/TLC: exhaustive model NoiseMC of the channel under an adversarial network; programs generated from the specification NoiseXK by NoiseGen (exhaustively or by random walks) are run on the real library and the recorded results checked by NoiseTrace"
CHECKS["C23"] = (NOI, "Random walks of sending, delivery, replay, reordering, reflection, nine kinds of alteration between up to four sessions; bursts of 300 and 65536 messages; message counters moved to 2^8..2^64-1 (skipped if the counters cannot be located in the session object).")
CHECKS["C24"] = (NOI, "Random walks over three devices, matching and non-matching prologues, expected and registered keys (also keys differing in one bit), all confidentiality and authentication levels.")
CHECKS["C25"] = (NOI, "All sequences of 6 (thorough 7) registry operations over up to four keys on one device; random walks of 60 operations on up to six devices, with storing and reloading, partly under the address sanitizer.")
CHECKS["C30"] = ("TLA+/TLC: the Noise XK pattern written out in NoiseBytes, enumerated plans (role x departure x sizes) from NoiseBytesGen run with the library against a reference party, all bytes checked by NoiseBytesTrace", "Both roles, every handshake position and the transport, 20 kinds of departure, sampled payload and prologue sizes.")
CHECKS["C26"] = ("TLA+/TLC: domain and result of every Python call specified in PyApi (on top of the library's own specification) and PyNoise; calls with all deviations of one or two arguments enumerated by PyGen, channel programs by PyNoiseGen; recorded calls checked by PyTrace", "Every function with every kind of deviation of one argument (wrong type, size, range), sampled pairs; proper use as in the checks of the library; key generation sessions with improper calls in between and with a cheating peer; partly under the address sanitizer. Handles made up by the caller are not covered.")
CHECKS["C27"] = ("TLA+/TLC: what collecting may return, raise or wait for specified in Mux; MuxMC proves an abstract collector against it (safety and termination); schedules of peers writing, closing, resetting interleaved with calls enumerated by MuxGen and played over real TCP and TLS connections; recorded calls checked by MuxTrace", "All interleavings for two peers and one call (sampled in quick), random ones for up to four peers and three calls, message sizes 2..40000, messages and TLS records cut anywhere; loopback interface only.")
CHECKS["C31"] = ("TLA+/TLC: whom a client may talk to specified in Conn; ConnMC explores the lives of a connection; clients, servers and sequences of calls generated by ConnGen and played over the loopback interface with real certificates; recorded calls and received bytes checked by ConnTrace", "Every combination with at most one flaw, more sampled; random sequences of calls. Revocation and the contents of the system's trust store are not covered.")
CHECKS["C32"] = ("TLA+/TLC: ownership of memory and locks specified in Res, explored in ResMC; calls, sessions and channel walks generated from the other specifications run on a build that keeps account, with every lock refused in turn; records checked by ResTrace", "Failure of memory allocation is not covered. Sessions: sampled deviations for n=3,4.")
CHECKS["C33"] = ("TLA+/TLC: ConcMC shows that programs on separate data are independent and that interference shows already under schedules with one switch; pairs of programs are run in two threads under imposed schedules and compared with each alone by ConcTrace", "One interruption at every place of the code (one occurrence each) and random schedules; two threads; interference inside libsodium is not covered.")
CHECKS["C34"] = ("TLA+/TLC: footprint of every call specified in Frame; FrameMC shows that calls which keep to it cannot be told apart by the layout of memory; calls recorded with their memory before and after, several placements, and whole programs with different garbage in unset memory, checked by FrameTrace", "Calls of many sizes at either end of accessible pages and random alignment; sessions and channels by comparison of two builds.")
CHECKS["C35"] = ("TLA+/TLC: secrets of every call and the life of the long-term key specified in Trail; TrailMC explores calls that fail anywhere and a reader of the memory between them; calls and sessions (generated by TpPlan) run on a stack of their own that is searched afterwards, checked by TrailTrace", "All calls of the OPRF, sharing and multiplication layers with many sizes; sessions of 3 to 9 peers, honest and with each kind of deviation.")
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -m vlib.build",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo/src together with harness/shim.c, which replaces the clock and the random generator", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        t, note = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check " + p, "thorough_cmd": "python3 bin/check " + p,
                            "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
m["notes"] = "See DESIGN.md. Each check rebuilds from /repo's working tree into /verif/build (git-ignored)."
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
