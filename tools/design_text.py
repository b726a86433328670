HEAD = """
# Solver-based checking of jotonedev/pyown

This file is written by `tools/design.py` from the harnesses, `properties.jsonl` and the results of the planted bugs.

## Method

Every property is decided by one technique: **bounded symbolic execution of the real Python source with z3**. pyown is a
pure Python client library of about 4,000 lines; no off-the-shelf solver-based checker handles its mix of strings, regular
expressions, enums, data classes and asyncio reliably (CrossHair samples paths and gives up without a verdict on most of it), so
`sx/` is a small symbolic executor made for it.

* **Encoding.** On every run the modules of `/repo/pyown` are read from the working tree, their syntax trees are rewritten in
  memory (`sx/instrument.py`) so that calls, formatting, membership, dictionary access, comparisons with booleans and the
  like go through the engine, and CPython executes the result. Nothing of the code under test is modelled by hand. Also
  executed symbolically from their Python source: `datetime`, `ipaddress`. Executed as they are: `asyncio` (queues,
  futures, tasks, timeouts) on a virtual-time event loop and in-memory transport (`sx/vloop.py`), so schedules and
  timeouts are exact and deterministic. Regular expressions are taken from CPython's own parse tree (`sx/regex.py`) and
  matched over symbolic characters with CPython's priority rules.
* **Values.** Symbolic characters (8 bit vectors with a domain mask; ten codes of the C1 control range stand for characters beyond Latin-1, such as other decimal digits, full-width forms and an emoji), strings of known length with symbolic characters, bytes,
  integers (bit vectors with interval bounds, or integers), booleans. `sx/values.py`, `sx/strings.py`, `sx/calls.py`.
* **Paths.** A branch on a symbolic condition asks z3 which sides are feasible and forks by re-execution with a decision
  prefix; units are spread over 8 processes. `ctx.check(cond)` asks z3 for an input of the path that falsifies the condition.
  A unit is complete when no prefix is left. The run is called `complete` (and the evidence `exhaustive`) only if all units are, no
  query came back unknown, no path was aborted and no counterexample was left unreplayed; labels listed under "reach" that no feasible
  path reached are printed and recorded (no silent vacuous success).
* **Verdict.** A falsifying model is turned into concrete inputs and **replayed against the plain code** (`replay.py`,
  no instrumentation, the repository's own interpreter). Only a counterexample that fails there too is a
  `VIOLATION`; the replay file is `evidence/<id>.replay.json` (run `/opt/venv/bin/python replay.py FILE`). One that does not is an engine
  fault: the run says `unreplayed` and reports no violation for it. Besides, models of sampled passing paths are run on the plain
  code every time and their outcomes compared ("cross-validated"); differences are counted as mismatches.
* **What the check judges** is behaviour through the public interface: the harnesses (`props/`) call `parse_message`,
  message and tag classes, `Client`, items and callbacks, and look at what is returned, raised and written to the transport.
  They do not look at private attributes or at how the source is written, so refactorings do not disturb them.
* **Oracles** are written from the OpenWebNet documents and the library's documentation as formulas or small reference functions in
  the harness (for instance the grammar of the frames, the OPEN algorithm on bit vectors, the documented frame of every command).

Evidence files list the functions of pyown that were executed, the bounds, the units, paths, queries (sat, unsat,
unknown), solver seconds, cross-validation counts and what lies outside.

### Trusted

z3; CPython and its asyncio; the source rewriting and the string/regex/int models of the engine (cross-validated on every run,
and protected from false alarms by the replay); SHA-1 and SHA-256 as ideal hashes (P10: uninterpreted, collision free).

### Cost

Each quick check takes 1 to 80 s on 8 cores; each thorough check is limited to about an hour and says so in its evidence if it
ran out of time.

### Exit codes

0 held on everything explored; 1 with a `VIOLATION` line. If the engine could not decide a part (a construct it does not support, an
unknown query, time), it says `INCOMPLETE` on its summary line, records what was left in the evidence file (`exhaustive: false`) and still exits 0:
the property held on everything explored, and no alarm is raised without a counterexample that fails on the plain code.
"""

HOW = {
 "P01": "parsing a symbolic frame text and comparing `message.message`, `str` and `bytes` with it; building every kind of message from symbolic tags, comparing its text with the documented syntax and re-parsing it. Tests try a dozen frames; here all texts of a length are one symbolic string.",
 "P02": "classifying the symbolic frame with a reference grammar evaluated on the same symbolic characters and comparing the kind, WHO, WHAT, WHERE, dimension and values.",
 "P03": "parsing any text; the oracle is the documented definition of a frame as a formula over the characters; the outcome must be acceptance exactly when it holds, otherwise `ParseError` or a subclass.",
 "P04": "recording every regular expression consulted while symbolic frames are parsed (alone and through the connection), building its automaton and asking z3 for a position, a word and two different runs back to it over that word (exponential ambiguity). A word found is pumped against the real parser with a time limit.",
 "P05": "constructing tags from symbolic text and numbers; validity, value, parameters, `with_parameter`, equality and hash against their definitions over the characters.",
 "P06": "feeding the bytes of symbolic frames to the real connection cut at symbolic positions, and reading the messages; compared with the frames.",
 "P07": "feeding valid symbolic frames followed by symbolic malformed data (in one or two packets) and reading.",
 "P08": "running `own_calc_pass` on a symbolic 32 bit password and symbolic nonce digits; the oracle is the published algorithm on bit vectors.",
 "P09": "coding symbolic hexadecimal digits and decoding symbolic digit strings.",
 "P10": "the whole handshake against a scripted gateway with symbolic nonces, password and replies; the hash functions are uninterpreted and collision free, so a reply is accepted exactly when it equals the specified proof.",
 "P11": "starting a client against a gateway whose replies are symbolic frames, or that falls silent or drops the connection at each step.",
 "P12": "every history of calls up to the bound (the calls are symbolic choices) against a reference automaton of the session; symbolic messages for the forced send.",
 "P13": "every interleaving of pauses, resumes and sends with symbolic messages on the virtual clock; the transport records writes and whether it was paused.",
 "P14": "sending commands and requests to a scripted gateway with symbolic answers, end marks, delays and silence, each followed by another request.",
 "P15": "calling every command method with symbolic addresses and arguments; exactly one write, equal to the documented frame, or `ValueError` and no write.",
 "P16": "setting and reading back symbolic times, dates and whole-hour timezones; the frame written is compared with the documented one and the answer built from it is decoded again.",
 "P17": "symbolic gateway answers, decoded values compared with the pieces of the answer.",
 "P18": "symbolic answers to every request method; decoded values and the request written are compared with the documentation.",
 "P19": "pushing one or several symbolic events to a client whose loop runs with all callbacks registered and comparing every call.",
 "P20": "pushing any frame, then a known event; failing and slow callbacks; the known event must still be dispatched exactly once.",
 "P21": "two symbolic (WHO, address) pairs: identity of the items exactly when the pairs are equal.",
 "P22": "ending the connection in every way at every point of a history, and restarting the client.",
 "P23": "symbolic addresses against the documented definition of the kinds.",
 "P24": "two symbolic frames: equality exactly when kind and text agree, equal hashes when equal; mutation of the returned tags.",
 "P25": "constructing items at symbolic addresses against the documented definition.",
 "P27": "the error of every rejected symbolic text and tag is inspected: class, carried text and shown text.",
 "P28": "any symbolic text as a subsystem number, every pair of subsystems, and each in messages.",
 "P26": "reads with timeouts, a cancellation and arrivals at symbolic choices of moments on the virtual clock.",
}

TAIL = """
## Not applicable

Nothing: every listed property is decided with this technique. Not listed because the library does not promise it or the
documents do not define it: `Where.type` of addresses with interface suffixes, `Who.name` of subsystems without an entry, ranges of
energy arguments, `Dimmer.get_status` for WHAT 1 and 11 and above, timezones that are not whole hours, an all-zero OPEN nonce,
messages still queued when the event loop ends, frames whose last tag ends in `#` (`###`), the order among senders that wait for the same
pause, answers `*digits##` and `*98*x*...##` during the handshake, `with_parameter` on enum members of automations, cameras and gateways.
The wall-clock duration of real I/O and real TCP are outside: the transport is asyncio's interface.

## Defects found in the original tree

The checks found 30 defects in the original tree, each repaired with a `fix:` commit of its own and listed in
`known_findings.txt` with the commit. No known finding is left unrepaired, so no check prints a KNOWN-FINDING line.

## False alarms met on the way and how they were settled

* "Every frame is delivered" first included frames whose last tag ends in `#`; the end of such a frame is ambiguous (`###`), so they are excluded.
* A concrete replay in which an assumption failed inside an asyncio callback (where `Exception` is caught by the code under test) was first taken for
  a failing check; verdicts are now `SystemExit`s and sticky, so that no handler of the code under test can change them.
* Energy arguments were first required to be range checked; the library only documents the ranges.

## Layout

`check.py` (driver), `replay.py` (concrete replays), `sx/` (engine), `props/` (harnesses), `tools/` (generators, planted-bug builder),
`known_findings.txt`, `seeded/` (planted bugs; no check reads it).
"""
