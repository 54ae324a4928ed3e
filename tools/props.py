#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.
Run: python3 /verif/tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X = "pkg/extensions/"
P = []

def p(id, title, statement, over, text, why, files, mech, observe, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, note=note, na=na))

p("P01", "A received message is acknowledged or rejected at most once",
  "For every message handed to an application, whatever sequence of acknowledgements and rejections is issued on it, the broker sees at most one verdict: the first one issued, for that message and no other. Messages transmitted through a subscription arrive in order and unchanged, each with its own verdict, and the zero message of a closed subscription is told apart from every real message.",
  ["inputs", "histories"],
  "every sequence of up to 4 ack/nak calls (7 in the thorough tier) on each of up to 3 messages, symbolic payload and headers, through the subscription channel",
  "Tests acknowledge each message once; the guarantee is about all call histories.",
  [X+"broker.go"], [("acknowledged-once guard", X+"broker.go: AcknowledgeableBrokerMessage.Ack/Nak")],
  ["calls reaching the broker-side acknowledgment handler"])

p("P02", "Cancelling a subscription cleans up exactly once and never crashes or hangs",
  "Cancelling a broker subscription returns only once the broker-side clean-up has completed and the message channel is closed, or the caller's context is done; the clean-up runs exactly once however often and from however many goroutines the subscription is cancelled. A broker still delivering while the subscription is cancelled neither crashes nor blocks for ever, and what the receiver gets is a prefix of what was delivered, in order.",
  ["schedules"],
  "every schedule of the canceller(s), the delivering goroutine, the clean-up and the reader within the delay bound, with buffered and unbuffered cancel channels",
  "Interleavings of cancellation with delivery and with a second cancellation cannot be forced by the tests, which cancel once, at rest.",
  [X+"broker.go"], [("subscription life cycle", X+"broker.go: BrokerChannelSubscription")],
  ["message channel closed", "clean-up invocations", "Cancel returning"])

p("P03", "Versioned brokers route each message to the subscribers of its version only",
  "Through the version wrapper, a published message carries the publisher's version in the configured header and loses nothing else; a received message reaches exactly the subscribers registered for its version (the default version when it carries none) and a message nobody registered for is reported and does not disturb the others. Subscribing and cancelling any version in any order and at any moment neither deadlocks nor crashes, affects no other version, and the underlying subscription is released when, and only when, its last version leaves.",
  ["schedules", "histories", "inputs"],
  "symbolic header bytes and versions up to 3 bytes, histories of up to 4 subscribe/cancel/deliver operations over 2 versions and 2 channels, and every schedule within the delay bound",
  "Tests route one message per version on a live broker; they reach neither the lock interleavings nor unregistered versions nor cancellations in flight.",
  [X+"versioning/wrapper.go", X+"versioning/broker_subscription.go", X+"versioning/version_subscription.go"],
  [("version header", X+"versioning/wrapper.go: Publish"), ("routing", X+"versioning/broker_subscription.go"), ("locking", X+"versioning/*.go")],
  ["messages on each version's subscription", "underlying broker publishes and cancellations", "logged errors"])

p("P04", "JetStream delivers each subject to the matching subscriptions and only those",
  "A JetStream controller hands each stream message to exactly one live subscription whose channel matches its subject under NATS wildcard rules, also when a channel is subscribed several times, and only acknowledges away a message nobody is subscribed to. The consumption is started with the first subscription and stopped with the last, a failed or cancelled subscription leaves nothing behind, and subscribing, cancelling and delivering concurrently neither crashes nor deadlocks nor disturbs other subscriptions.",
  ["schedules", "inputs", "histories"],
  "channels and subjects of up to 4 tokens / 6 symbolic bytes, histories of up to 4 operations over 2 channels, and every schedule within the delay bound",
  "Tests use one subscription per channel on a live server and no wildcard subjects.",
  [X+"brokers/natsjetstream/natsjetstream.go"], [("dispatch", X+"brokers/natsjetstream/natsjetstream.go: message handler, subject matching"), ("consumer life cycle", X+"brokers/natsjetstream/natsjetstream.go: Subscribe/stop")],
  ["messages on each subscription", "acknowledgement of unmatched messages", "consume/stop calls"])

p("P05", "Broker adapters transport headers, payload and addresses unchanged",
  "Each broker adapter publishes a message to exactly the requested address with exactly its payload and headers, and hands received payload and headers over unchanged; a broker failure is returned to the caller. Adapter options apply to the controller they were given to and to no other, and acknowledgement and rejection reach the broker as that broker's own verdict for that message.",
  ["inputs", "configurations", "fault_sequences"],
  "symbolic payloads up to 3 bytes, up to 2 headers with symbolic keys and values, symbolic addresses, and every choice of failing broker call and option, against recording stand-ins of the client libraries",
  "The tests send a handful of fixed messages through live brokers and never make the client library fail.",
  [X+"brokers/nats/nats.go", X+"brokers/natsjetstream/natsjetstream.go", X+"brokers/kafka/kafka.go"],
  [("publish", "Publish in each adapter"), ("receive", "message handler in each adapter"), ("options", "With* options in each adapter")],
  ["calls made on the client library", "messages on the subscription channel"])

exec(open(os.path.join(V, "tools", "props_more.py")).read())

LEVEL_NOTE = ("Bounded symbolic execution of the go/ssa form of /repo's current source: inputs, faults and schedules are solver "
 "variables, every assertion is discharged by z3 on every feasible path within the bounds stated in h/%s/BOUNDS.txt, and counterexamples are "
 "replayed natively against the real code. Trusts go/ssa, z3, the engine's models (sync, channels, maps, reflect), which are cross-checked by native replay of path models, and the stand-ins named in the assumptions.")

def main():
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "checks": [], "not_applicable": [],
           "notes": "One engine (engine/), one harness package per property (h/pNN); see DESIGN.md. No hooks in /repo."}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            mechs = [{"name": a, "where": b} for a, b in q["mech"]]
            d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
                 "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                 "anchors": {"files": q["files"], "mechanism": mechs, "observe_at": q["observe"], "hook_needed": None}}
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(d) + "\n")
            pk = q["id"].lower()
            if q["na"]:
                man["not_applicable"].append({"property": q["id"], "reason": q["na"]})
            elif not os.path.exists(os.path.join(V, "h", pk, "main.go")):
                man["not_applicable"].append({"property": q["id"], "reason": "check not built yet"})
            else:
                man["checks"].append({"property": q["id"], "quick_cmd": "bash check.sh %s quick" % q["id"],
                    "thorough_cmd": "bash check.sh %s thorough" % q["id"],
                    "technique": "bounded symbolic execution of the real Go SSA with an SMT solver (z3)" ,
                    "level": "model_checking", "level_note": q["note"] or LEVEL_NOTE % pk})
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
