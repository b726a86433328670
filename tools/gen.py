#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "pyown/messages/"
I = "pyown/items/"
P = []


def p(id, title, statement, over, text, why, files, mech, level_note):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}), level_note))


p("P01", "Text and messages round-trip exactly",
  "Parsing any well-formed OpenWebNet frame gives a message whose text is that same frame, and printing or sending it yields the "
  "identical text. A message built from its tags (normal, status request, dimension request, writing, response) prints the "
  "documented frame, and parsing that frame gives back an equal message with the same tags in the same order.",
  ["inputs"], "every well-formed frame text and every tuple of tags, including empty, parameterised and repeated ones",
  "The tests parse a dozen fixed frames; round-tripping must hold for every text and tag combination.",
  [M + "base.py", M + "normal.py", M + "dimension.py", M + "status.py", M + "ack.py", M + "nack.py", M + "generic.py", "pyown/tags/base.py"],
  [("message text is composed from the tags", M + "base.py"), ("frames are split on the separators", M + "base.py")],
  "every path over symbolic frame text and tags, z3-discharged")
p("P02", "Every frame is read as the kind the grammar gives it, with its own fields",
  "Each well-formed frame is read as exactly the kind the OpenWebNet grammar defines: acknowledgement, negative acknowledgement, normal, "
  "status request, dimension request, dimension writing or dimension response. Its subsystem, command, address, dimension "
  "and values are the corresponding pieces of the text. A frame of no documented kind, or with an unknown subsystem, is a "
  "generic message and never an error.",
  ["inputs"], "every well-formed frame text",
  "The tests classify fixed samples of each kind; the borders between kinds (empty tags, parameters, unknown subsystems) are not sampled.",
  [M + "base.py", M + "normal.py", M + "dimension.py", M + "status.py", M + "ack.py", M + "nack.py", M + "generic.py", "pyown/tags/who.py"],
  [("kinds are tried in turn by their patterns", M + "base.py")],
  "every path over symbolic frame text, oracle is the documented grammar as a formula")
p("P03", "Text that is not one frame is always rejected",
  "Parsing raises the documented parse error, and nothing else, for every text that is not exactly one frame: without the leading * or the final "
  "##, with another ## inside, or with a character other than digits, * and # between them (blanks around the frame are tolerated). It never accepts such a text and never fails with another error.",
  ["inputs"], "every text, with any characters",
  "The tests try two or three invalid strings; the guarantee is about every other string.",
  [M + "base.py", M + "ack.py", M + "nack.py", "pyown/exceptions.py"],
  [("no kind's pattern matches, so a parse error is raised", M + "base.py")],
  "every path over symbolic text of any Latin-1 characters and ten beyond")
p("P04", "No text makes parsing explode",
  "Parsing a text, alone or as data received on a connection, never takes time exponential in its length: no crafted frame can hang the client.",
  ["inputs"], "every text, of any length, built from a repeated part",
  "Tests parse short fixed frames; an adversarial frame of 40 characters that never finishes is not among them.",
  [M + "base.py", M + "normal.py", M + "dimension.py", M + "status.py", "pyown/protocol/protocol.py"],
  [("unambiguous patterns", M + "base.py")],
  "the solver searches each consulted pattern for an ambiguous loop; a loop found is pumped against the real code")
p("P05", "Tags hold exactly digits and #, and keep value and parameters apart",
  "A command, address, dimension or value tag accepts a text if and only if it consists of digits and #, keeps it unchanged, and accepts a non-negative number as its decimal "
  "text. Its value and parameters joined with # are the text again; adding a parameter appends it and changes nothing else. Two tags are equal, and "
  "hash alike, exactly when their texts are equal, and a tag equals a number exactly when its text is that number in decimal; a subsystem exists exactly for the documented numbers.",
  ["inputs"], "every text and number, every pair of tags",
  "The tests build a few tags; validity, splitting and comparison are claims about all texts.",
  ["pyown/tags/base.py", "pyown/tags/what.py", "pyown/tags/where.py", "pyown/tags/dimension.py", "pyown/tags/who.py"],
  [("character check on construction", "pyown/tags/base.py"), ("split on the separator", "pyown/tags/base.py")],
  "every path over symbolic text of any Latin-1 characters and ten beyond")
p("P06", "Messages are delivered whole, once and in order however the stream is cut",
  "However the bytes of a sequence of valid frames are split into packets, a client reads exactly those messages, each once, in order and of its own kind. "
  "A message is not delivered before its end has arrived, and an incomplete one is kept until the rest arrives. Several connections do not mix.",
  ["inputs", "schedules"], "every sequence of valid frames and every split of its bytes into packets",
  "The tests feed whole frames; the cut points and their combination with contents are unbounded.",
  ["pyown/protocol/protocol.py", "pyown/client/base.py"],
  [("unfinished data is kept for the next packet", "pyown/protocol/protocol.py"), ("queue between receiver and reader", "pyown/protocol/protocol.py")],
  "symbolic frames, every cut position, executed on the real asyncio code with a virtual clock")
p("P07", "Malformed data neither corrupts nor hides the messages before it",
  "When malformed data (text that cannot be part of a frame, or bytes that are not ASCII) follows valid frames, exactly the valid frames before it are delivered, unchanged and in order, and nothing is made "
  "up from the malformed part.",
  ["inputs", "fault_sequences"], "every malformed data after any valid frames, in the same packet or a later one",
  "The tests contain no malformed stream.",
  ["pyown/protocol/protocol.py"],
  [("frames are parsed one by one before the rest is judged", "pyown/protocol/protocol.py")],
  "symbolic malformed bytes")
p("P08", "The OPEN password answer is the protocol's, for every password and nonce",
  "The answer computed for a numeric password and a nonce is the one the OPEN algorithm defines, for every 32 bit password and every nonce with at least one digit that is not 0. "
  "Passwords and nonces given as numbers or as digit strings, with or without leading zeros, give the same answer.",
  ["inputs"], "every password below 2^32 and every nonce of digits",
  "The tests check a handful of known pairs; a wrong shift or mask shows only for some passwords.",
  ["pyown/auth/open.py"], [("one step per nonce digit", "pyown/auth/open.py")],
  "bit-vector equality with an independent definition of the algorithm")
p("P09", "The hexadecimal digit coding is a bijection that rejects everything else",
  "Coding a hexadecimal string gives two decimal digits per hexadecimal digit with its value, whatever the case, and decoding gives the string back. Decoding accepts exactly the digit strings that code something and "
  "raises ValueError for odd lengths and pairs above 15.",
  ["inputs"], "every hexadecimal string and every digit string",
  "The tests convert a few fixed strings.",
  ["pyown/auth/hmac.py"], [("two-digit groups", "pyown/auth/hmac.py")],
  "every path over symbolic strings")
p("P10", "A session with HMAC opens only if the gateway proves it knows the password",
  "With HMAC authentication (SHA-1 or SHA-256) the client sends a fresh random nonce and the specified proof, acknowledges the gateway's specified proof and opens the session. "
  "Any other reply (NACK, ACK, silence, the client's own proof, a prefix, an extension, a changed digit, any other string) ends in an authentication "
  "error or a timeout and is never acknowledged; a malformed server nonce is an authentication error.",
  ["inputs", "fault_sequences"], "every nonce, password and random value and every reply of the gateway",
  "The tests compute digests of fixed inputs and never run the exchange with a dishonest gateway.",
  ["pyown/auth/hmac.py", "pyown/client/base.py"],
  [("proofs computed from both nonces and the password", "pyown/auth/hmac.py"), ("constant-time comparison before the final ACK", "pyown/client/base.py")],
  "whole exchange symbolic; SHA-1/SHA-256 replaced by ideal (injective, uninterpreted) functions")
p("P11", "The handshake follows the protocol and always ends",
  "Starting a client sends the session request naming the session kind only after the gateway's ACK, and opens the session exactly on the documented replies: ACK, or the right exchange after a nonce or an HMAC offer. "
  "Every other reply raises an authentication error (an unknown HMAC algorithm is answered with NACK), and a gateway that is unreachable, falls silent or drops the "
  "connection at any step makes it raise a timeout error rather than hang.",
  ["inputs", "fault_sequences"], "every reply at every step; silence or loss of the connection at every step; command, event and old command sessions",
  "The tests never run a handshake; every step can be answered with anything.",
  ["pyown/client/base.py", "pyown/client/client.py"],
  [("staged negotiation", "pyown/client/base.py"), ("timeout on every read", "pyown/client/base.py")],
  "symbolic replies on a virtual event loop")
p("P12", "Each operation works only on an open session of the right kind",
  "In any history of starts, closes, sends, item commands, reads and event loops, sending and item commands work only on an open command session, the event loop only on an open event session, reading on any open session. "
  "A call the session does not allow raises the invalid-session error and sends nothing; only a forced send overrides the kind of session, and it sends the message unchanged. A start that fails, in whatever way, opens nothing, and one client neither opens nor closes another.",
  ["histories"], "every history of calls on one client",
  "The tests do not exercise sessions at all.",
  ["pyown/client/base.py", "pyown/client/client.py", "pyown/items/base.py"],
  [("session checks before sending, reading and looping", "pyown/client/base.py")],
  "all call histories up to the bound with symbolic contents")
p("P13", "Flow control never loses, repeats or cuts a message",
  "Whatever the order of pauses, resumes and sends, a message is written whole exactly once, never while the transport is paused, and the send completes once the transport resumes. Messages sent one after the other are written in that order, and a paused connection does not hold another one. A send held by a pause ends when the connection is lost.",
  ["schedules", "histories"], "every order and timing of pause, resume and send",
  "The tests have no transport that pauses.",
  ["pyown/protocol/protocol.py", "pyown/client/base.py"],
  [("sends wait for the transport to resume", "pyown/protocol/protocol.py")],
  "all event orders up to the bound on a virtual clock")
p("P14", "A request ends exactly as the gateway answers it",
  "A command succeeds on ACK and raises the response error on any other answer; a status or dimension request yields every answer before the final ACK, in order and with its own address and values, and raises the response error when it ends with anything else. "
  "An answer within five seconds is awaited and silence raises a timeout error. The answers of a request are consumed, so the next request gets its own.",
  ["inputs", "histories", "fault_sequences"], "every answer to every request; every number of partial answers; late and missing answers",
  "The tests never run a command against a gateway.",
  ["pyown/items/base.py"], [("answers are read until the final ACK", "pyown/items/base.py")],
  "symbolic answers on a virtual event loop")
p("P15", "Commands send exactly the documented frame, or nothing",
  "Every command of lights, dimmers, automations, cameras, energy meters, energy actuators and Stop&Go devices sends exactly one frame: the documented one, with the address of the item and the given arguments in their documented order. "
  "An argument outside the documented range (speeds 0-255, percentages 0-100, hue, saturation and value, white temperature, temporization hours, minutes and seconds, camera dial position) is refused and nothing is sent; missing energy dates are today's.",
  ["inputs"], "every command, address and argument value",
  "The tests do not check a single command frame.",
  [I + "lighting/light.py", I + "lighting/dimmer.py", I + "lighting/base.py", I + "automation/automation.py", I + "camera/camera.py", I + "energy/energy.py", I + "energy/stop_go.py", I + "base.py"],
  [("range checks and tag building in each command", I)],
  "symbolic addresses and arguments in and around the ranges")
p("P16", "Gateway dates and times survive the wire",
  "Setting the gateway's time, date or date and time sends hour, minute, second, signed timezone, weekday (Sunday 00), day, month and year as documented, and reading them back gives the same time, "
  "date and timezone for every moment and whole-hour timezone. Times without timezone are refused and nothing is sent; an empty timezone in an answer is UTC.",
  ["inputs"], "every time of day, date and whole-hour timezone",
  "The tests do not cover dates; weekday and timezone errors show only for particular values.",
  [I + "gateway/gateway.py"], [("encoding and decoding of time, date and timezone", I + "gateway/gateway.py")],
  "CPython's own datetime is executed symbolically; weekday checked against an independent formula")
p("P17", "Gateway information is decoded exactly",
  "IP address, netmask, network, MAC address, model, firmware, kernel and distribution versions and uptime read from the gateway are exactly the values it sent, for every valid answer; an "
  "unknown model number is reported as the generic model.",
  ["inputs"], "every valid answer",
  "No test decodes a gateway answer.",
  [I + "gateway/gateway.py"], [("one decoder per dimension", I + "gateway/gateway.py")],
  "symbolic digits; CPython's ipaddress is executed symbolically")
p("P18", "Measurements and states are read as the gateway sent them",
  "Energy readings, totalizers with their reset moment, actuator flags, Stop&Go status flags, light levels, speeds, colours, timers, working time, dimmer percentages and automation states returned to the caller are exactly the values in the answer, each in its own place, and the documented request is what was sent.",
  ["inputs"], "every valid answer",
  "No test decodes an item's answer; swapped fields and bit order show only on asymmetric values.",
  [I + "energy/energy.py", I + "energy/stop_go.py", I + "energy/dataclass.py", I + "lighting/dimmer.py", I + "lighting/base.py", I + "automation/automation.py"],
  [("decoders of each dimension", I)], "symbolic digits and flags")
p("P19", "Each event calls exactly its own callbacks with its own values",
  "An event calls exactly the callbacks registered for that kind of event, each once, in order of arrival, with an item of the right class at the address of the event and the values of the event in their documented order. "
  "The item commands through the client given to the event loop.",
  ["inputs", "histories"], "every event of lights, automations, cameras, gateway and energy items and its values",
  "No test dispatches an event.",
  [I + "utils.py", I + "lighting/base.py", I + "automation/automation.py", I + "camera/camera.py", I + "gateway/gateway.py", I + "energy/energy.py", "pyown/client/client.py"],
  [("events are mapped to callbacks per class", I), ("items are created for WHO and WHERE", "pyown/client/client.py")],
  "symbolic events through the whole receive path with every callback registered")
p("P20", "No event and no callback stops the event loop",
  "Whatever well-formed frame arrives, the event loop keeps running and still dispatches the next known event, exactly once. A failing callback affects neither the other "
  "callbacks nor later events, and a slow callback does not delay them.",
  ["inputs", "fault_sequences", "schedules"], "every frame, every set of failing callbacks, slow callbacks",
  "The tests never run the loop.",
  ["pyown/client/client.py", I + "utils.py"], [("errors of one event are contained", "pyown/client/client.py"), ("callbacks run in tasks of their own", I)],
  "symbolic frames on a virtual event loop")
p("P21", "One item per subsystem and address",
  "A client hands out one item object per subsystem and address: the same pair always gives the same object, also to callbacks of events, and different pairs never do; it has the class of the subsystem, its own address and the client given first. Items are not shared between clients, and assigning another client to an item makes the commands of that item, and no other, go through it. An unsupported subsystem raises KeyError.",
  ["inputs", "histories"], "every pair of requests with any subsystem and address",
  "The tests do not create items through a client.",
  ["pyown/client/client.py"], [("cache keyed by WHO and WHERE", "pyown/client/client.py")], "symbolic addresses")
p("P22", "The event loop ends with the connection, and a closed client starts afresh",
  "When the connection is lost, fails, breaks on malformed data or is closed, the event loop ends, without raising an error and without hanging, having dispatched the events received before (unless the client itself was closed). A client that was closed, also after a loss, can be started again and works as "
  "a new one, with nothing left over from the previous connection.",
  ["fault_sequences", "histories"], "the end of the connection at every point of a history; every number of restarts",
  "The tests have no connection to lose.",
  ["pyown/client/base.py", "pyown/client/client.py", "pyown/protocol/protocol.py"],
  [("loss of connection is signalled to the loop", "pyown/client/client.py"), ("close() resets the client", "pyown/client/base.py")],
  "all fault points up to the bound on a virtual event loop")
p("P23", "Addresses are recognised as general, ambient, group or single point",
  "An address without interface suffix is recognised as documented: 0 is general; 1 to 9, 00 and 100 are ambients; # and a number is a group; an ambient followed by a point is a single device.",
  ["inputs"], "every documented address",
  "The source itself notes that tests are missing; the addresses are many.",
  ["pyown/tags/where.py"], [("cases on the address text", "pyown/tags/where.py")], "symbolic addresses against the documented ranges")
p("P24", "Messages compare and hash by their content",
  "Two messages are equal exactly when they are of the same kind and have the same text, and equal messages have equal hashes, for every kind of message; changing the tags returned by a message does not change the message.",
  ["inputs"], "every pair of messages",
  "The tests compare fixed messages.",
  [M + "base.py", M + "ack.py", M + "nack.py", M + "generic.py"], [("equality and hash over tags and type", M + "base.py")], "symbolic pairs of frames")
p("P25", "Energy items exist exactly at energy addresses, with the right kind",
  "An energy item is created exactly for the documented addresses: 1 and digits is a Stop&Go device, 5 and digits a power meter, 7 and digits with parameter 0 an actuator; any other address raises the invalid-tag error, and a Stop&Go item only accepts a Stop&Go address.",
  ["inputs"], "every address text",
  "No test creates an energy item.",
  [I + "energy/energy.py", I + "energy/stop_go.py"], [("address check on creation", I + "energy/energy.py")], "symbolic addresses")
p("P26", "Timeouts and cancelled reads lose no message",
  "A read with a timeout always ends, with the next message or the timeout error; whatever the moments of arrivals, timeouts and a cancellation, every message is read exactly once in order of arrival. An event loop that is cancelled and run again also misses and repeats none.",
  ["schedules", "histories"], "every timing of arrivals, reads, timeouts and a cancelled read",
  "The tests have no timing.",
  ["pyown/client/base.py", "pyown/client/client.py", "pyown/protocol/protocol.py"], [("queue between receiver and reader", "pyown/protocol/protocol.py")], "all timings out of the listed ones on a virtual clock")
p("P27", "Errors are the library's own and name their cause",
  "Every error the library defines is an OWNException, and exactly those about data are parse errors. The error of a rejected text or tag carries that text or tag (up to blanks around a frame) and shows it.",
  ["inputs"], "every rejected text and tag",
  "The tests only check that some error is raised for a few texts.",
  ["pyown/exceptions.py", M + "base.py", "pyown/tags/base.py"], [("errors are raised with their cause", M + "base.py")], "every path over symbolic text")

p("P28", "Every subsystem is known by its number and has a description",
  "A subsystem exists exactly for each number the protocol documents, is a tag with that text equal to its number, and has a description that no other subsystem has. The subsystem of a message is the one its number names, also when the message is built with the constant.",
  ["inputs"], "every text and every subsystem, alone and in messages",
  "The tests use four of the 22 subsystems and read no description.",
  ["pyown/tags/who.py", "pyown/tags/base.py", M + "base.py"], [("table of subsystems", "pyown/tags/who.py")], "symbolic texts against the documented table")


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for d, _ in P:
            f.write(json.dumps(d) + "\n")
    checks = []
    for d, note in P:
        i = d["id"]
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i} --tier quick", "thorough_cmd": f"./check.py {i} --tier thorough",
            "technique": "symbolic execution of the Python source with z3 (bounded), counterexamples replayed on the plain code"
            if i != "P04" else "SMT search for ambiguous loops in the patterns reached by symbolic execution, replayed on the plain code",
            "level": "other",
            "level_note": f"Bounded symbolic execution: {note}. Holds for every value within the bounds in the evidence file; trusts z3, the "
            "source instrumentation (cross-validated against the plain code on sampled paths each run) and CPython."})
    json.dump({"version": 1, "setup_cmd": "./selftest.sh", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: the checks instrument a copy of the source in memory."},
              open(HERE + "/MANIFEST.json", "w"), indent=1)


main()
