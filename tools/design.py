# Writes DESIGN.md. Run in /verif after changing checks.json, tests or seeded bugs.
import json,os,glob,re
d=json.load(open('checks.json'))
props={}
for l in open('properties.jsonl'):
    p=json.loads(l); props[p['id']]=p
info={
'C01':("Call sequences over Value and Collection with every combination of write and read options (ids drawn from a pool of 4, id generation, interceptors, expected value/check, create if absent, reset masks, allow missing).  TestValueExhaustive/TestCollectionExhaustive enumerate all short sequences of a small alphabet; the Random tests run up to 40 calls over drawn message types. TestGeneratedIDs scripts the RNG so generated ids collide.",
 "The unit tests check a handful of option pairs; the defects found (callback before the precondition, interceptor not applied to generated ids) are in option *products*."),
'C02':("Interference is forced, not hoped for: the first call's own callbacks (expected check, before/after interceptors) run a second (nested: third) call, which is exactly the window between the optimistic read and the lock. All pairs of a small alphabet are enumerated; TestStress runs 2-4 goroutines and searches all linearizations against C01's model; TestCounter adds up read-modify-write increments.",
 "Needs an interleaving: a sequential test can't have one."),
'C03':("A second writer or a subscriber is started inside a write (from Clock.Now), a writer inside a subscription (from include predicates, ctx.Done), plus concurrent workloads. The folded view of each subscriber is compared with Get/List after quiescence. TestTraitViews does the same through the streams of every trait model and model server (harness/watch), subscribing right before and between the model's own writes.",
 "The windows are between commit and delivery, and between snapshot and listening."),
'C04':("A sequential writer with backpressured subscribers of drawn options; the model of C01 yields the exact expected events, compared field by field including times, kinds, seed flags and order. TestTraitScripts holds the streams of every trait model against the listings before and after each write.",
 "The tests look at one event kind at a time; this is the product of write options, read options and history."),
'C05':("(pre-state, message, update mask, writable fields, reset mask, more-writable) over TestAllTypes and trait messages, through FieldUpdater, Value.Set and Collection.Update, with invalid masks, unknown fields, nested, repeated, map and oneof fields. TestTraitMask writes with masks through every trait server whose resource follows the plain rules and TestTraitBadMask gives every model method and server that takes a mask one that names an unknown field, on devices found by reflection.",
 "Every mask/message shape combination against an independent merge."),
'C06':("(message, mask incl. nested, overlapping and malformed ones) through ResponseFilter, Value and Collection reads and all streams; inputs deep-copied before.",
 "as C05"),
'C07':("Operation sequences over resources and *all* trait models and servers (found by reflection); every message in either direction is deep-copied when it crosses the API and compared after each later operation; arguments are scribbled over after the call, and on the resources what was received before is also written again, which mustn't change it.",
 "Aliasing shows only when someone writes later; the tests never do."),
'C08':("Predicates over id/value/both, exhaustive for one and two items over short histories, random otherwise, masks and PullBookings/ListBookings with intervals.",
 "All transitions in/out of the predicate including through merging."),
'C09':("Patterns of writes and receives against lossy subscribers, exhaustively up to a length; DropExcess alone; stuck backpressured subscribers and timeouts.",
 "What a lossy stream may merge depends on the whole burst."),
'C10':("Cancels injected at each call the code makes to ctx.Done/Err, Clock.Now, predicates or equivalences (points are counted in a dry run and then enumerated), on the bus, resources and every trait Pull.",
 "Each point is a different interleaving of cancel with send/collect/close."),
'C11':("Workloads built from drive (all model and server methods by reflection), resources, routers, bus, wrap, groups and executors with shared option slices, requests, initial values and metadata changed after the call (by writes the race detector sees: it doesn't see protoreflect's Clear), received messages written again, messages read later, header and trailer set by several goroutines of a handler, even after it returned; built with -race. A race between two callers that only touch what they were given counts too, since then they were given the same object.",
 "The repository's tests aren't concurrent, so -race has nothing to look at."),
'C12':("Every generated router and wrapper by service descriptor: routing by name/default/fallback/factory, scripts of unary and streaming calls in process and over a real gRPC connection, registry histories against a map and linearizability; code regenerated from the templates is put through the same tests.",
 "Many generated files; hand edits and stale files are invisible to tests of other traits."),
'C13':("Call scripts (sends, receives, headers, trailers, errors, cancels, deadlines at each step) run on the wrapper and on gRPC over bufconn, transcripts compared.",
 "Differential over whole scripts."),
'C14':("Each Get/Update/Pull triple of every memory device discovered from descriptors, driven through wrapper->router->wrapper, with masks, names, read masks, updates-only subscribers; register model.",
 "Exercises the whole stack with histories."),
'C15':("All List methods with paging: collection sizes x page sizes exhaustively up to a bound, hostile tokens and sizes, read masks that drop the key, deletions while paging.",
 "Boundary products."),
'C16':("Message pairs mutated from a common ancestor, nested Any/maps/lists/unknown fields/NaN/extreme times; tolerances; equivalences on resources with a model of what a subscriber holds.",
 "Pairs near each boundary."),
'C17':("Outcome vectors x completion orders x strategies exhaustively for small groups (members gated), random for larger ones; the light/onoff group servers unary and pull.",
 "Needs specific completion orders."),
'C18':("Exhaustive small lattice of periods plus random wide timestamps, segment lists and modes; pointwise step functions in big integers.",
 "Boundary values and empty/infinite segments."),
'C19':("Electric model: bounded-exhaustive sequences, windows forced through callbacks, concurrent histories with linearizability against a small model.",
 "Invariant breaks need sequences or interleavings."),
'C20':("One executable specification per trait model (fan speed, mode, meter, parent, publication, enter/leave, vending, units); TestContended holds the write lock's turn to force lost updates; TestConfigured* gives every model initial values, records, clocks, writable fields, presets and modes by each kind of option.",
 "Config x history products."),
}
seeds={}
for m in sorted(glob.glob('seeded/*/meta.json')):
    j=json.load(open(m)); seeds.setdefault(j['property'],[]).append((m.split('/')[1],j['what_it_breaks'],j['needs']))
tests={}
for k in d:
    fs=[]
    for p in d[k]['pkgs']:
        for f in sorted(glob.glob(f'harness/{p}/*_test.go')):
            fs+=[x for x in re.findall(r'^func (Test\w+)\(',open(f).read(),re.M) if x!='TestMain']
    tests[k]=fs
o=[]
w=o.append
w('''# Property-based testing and fuzzing of sc-golang

One family of technique decides everything here: generated inputs, operation histories,
schedules and injected faults, judged by an explicit oracle (reference model, differential
run, metamorphic relation or invariant over the history), shrunk by `pgregory.net/rapid`, or
enumerated exhaustively where a domain is small. No property is left out (`not_applicable` is empty).

## Machinery

* `harness/vkit` – generators (sparse protobuf messages over *any* descriptor, field masks
  valid/invalid, timestamps/durations), reference projection, mask merge and mask simplification
  written apart from the code, bounded waits, goroutine-leak and all-goroutines-blocked scans
  (`Leak.Wait/Quiet`), race report collection, case statistics.
* `harness/resmodel` – the sequential reference model of Value and Collection (used by C01, C02, C03,
  C04, C08, C09, C16), its option generators and a linearizability search.
* `harness/drive` – finds every trait model, server and gRPC method by reflection and draws calls for
  them (C07, C10, C11, C14, C15).
* `harness/cNN` – one Go test package per property. They are mapped by a `go test -overlay` to
  `/repo/internal/verif/...` (virtual directories; nothing is written in /repo) so they can import
  the module's `internal/` packages, and built with a `-modfile` copy of go.mod plus rapid.
* `check.py CNN quick|thorough` – builds the test binary from /repo's working tree, runs each test in
  one or more processes with `-rapid.seed` derived from VERIF_SEED and case counts by tier, writes
  `evidence/CNN.json`, maps the outcome: all pass -> 0; oracle failure (or a panic of the code under
  test) -> replay file under `replays/` and a `VIOLATION` line, exit 1; anything else (does not
  compile, harness time-out) -> exit 3.
* Replays: a replay file holds the seed, the test, its log and rapid's shrunk fail file; `check.py CNN --replay FILE`
  runs that test again on it (exhaustive tests enumerate their cases from the seed again). A race seldom
  reproduces from one run of its case, so C11 repeats a replay up to 30 times.
* Only exported API (plus `internal/minibus`'s exported API) is used, so refactorings do not break
  the harness. No hooks in /repo: the code under test calls back into caller-supplied code at the
  interesting points (expected-check and interceptor callbacks run between the optimistic read and the
  write lock; `Clock.Now` runs inside the save under the lock and again between commit and publish;
  include predicates run inside the snapshot taken while subscribing; a custom `context.Context` is
  consulted by bus listener registration and send; id interceptors and RNG readers run in id
  generation; router factories run between registry miss and insert). A verdict that depends on what
  *will* happen is taken when all goroutines of the repository are blocked, never after a sleep.
* Non-trivial cases: each check's rule is in its evidence (`checks.json` `rule`), with samples.

Quick runs take 5-75 s each on 8 cores, thorough ones multiply the case counts by about 20 (up to an hour or so).

## Per property
''')
for k in sorted(d):
    p=props[k]
    w(f"### {k} {p.get('title','')}\n")
    w(f"*Generated:* {info[k][0]}")
    w(f"*Decides:* {d[k]['technique']}.")
    w(f"*Bounds, readings and what is left open:* {d[k].get('note','')}")
    w(f"*Beyond the tests because:* {info[k][1]}")
    w(f"*Tests:* {', '.join(tests[k])}\n")
w('''## Defects found

Every genuine defect found so far has been repaired by a `fix:` commit; each is a line of
`known-findings.txt` with its commit. There are no open findings.

## Things that look odd and were left alone

They either don't break a listed property, or are documented, or tested for by the repository:

* masks: `fieldmaskpb.Union` normalises an invalid child path away below a valid parent; `WithMoreUpdateMask`
  is a no-op on a nil mask; `InterceptBefore/After` override rather than chain; repeated fields named in a
  mask are appended (the repository's tests want that).
* electric `CreateMode` panics if the id is set (documented). Changing to the mode that is already active
  drops its start time.
* open close `Stop` is unimplemented; light memory ignores the update mask; requests without payload panic.
* a group's member stream that ends cleanly is returned as io.EOF by the group's pull.
* Add/RemoveChildTrait clear an existing child's parent; waste Pull answers with a fixed name; waste lists
  ignore the read mask; `PullChildren` does not echo the name.

## False alarms and what was done about them

* Where a model demanded more than the statement (an equivalence judged against undelivered values, which of
  two failing preconditions is reported, the presence of an empty message above a named field, ids the
  interceptor changes), both readings are now accepted; the property's note above says so.
* C13: cancellation may be reported as a status or as the context's error; sends without a ready
  receiver, which gRPC buffers, are outside the property and never generated.
* C12: the text of regenerated code isn't compared (comments differ); both are run, and only the set of files
  and exported declarations is compared.
* C07: a call that panics on absurd arguments (a nil payload) ends the sequence.
* C20: documented ambiguities of fan speed and modes are checked for consistency only.

## Planted bugs: which check catches which

All are in `seeded/`; each was confirmed to build, pass the stable tests, fail its demonstration and be
caught by the quick check of its property (exit 1, VIOLATION line).
''')
for k in sorted(seeds):
    w(f"* **{k}**")
    for n,b,needs in seeds[k]: w(f"  * `{n}` – {b}")
open('DESIGN.md','w').write('\n'.join(o)+'\n')
