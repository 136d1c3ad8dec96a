"""What each property's check runs. Seconds are per stage."""

HARNESSES = {
    "common": dict(bin="common"),
    "payments": dict(bin="payments"),
    "communities": dict(bin="communities"),
    "kreivo": dict(bin="kreivo"),
}


def ex(harness, quick, thorough, mode="checked", features=(), **kw):
    return dict(kind="explore", harness=harness, quick=quick, thorough=thorough, mode=mode, features=tuple(features), **kw)


def fz(harness, quick, thorough, features=(), **kw):
    return dict(kind="fuzz", harness=harness, quick=quick, thorough=thorough, features=tuple(features), **kw)


N, W = ("node",), ("web",)
ID3 = [ex("common", 8, 60, features=N), ex("common", 4, 30, mode="release", features=N), ex("common", 4, 30, features=W),
       fz("common", 12, 120, features=N)]
ID2 = [ex("common", 10, 60, features=N), ex("common", 6, 30, mode="release", features=N), fz("common", 12, 120, features=N)]
PAY = [ex("payments", 12, 90), fz("payments", 10, 120)]
COM = [ex("communities", 15, 90), fz("communities", 10, 120)]
KRE = [ex("kreivo", 12, 90), fz("kreivo", 8, 120)]
def rec(harness, quick, thorough, count, checked=True):
    """Ways to execute histories: alone in a thread each; in company, last first, with calls tried out in between."""
    ways = [("release", []), ("release", ["--company"])] + ([("checked", ["--company"])] if checked else [])
    return dict(kind="record", harness=harness, quick=quick, thorough=thorough, count=count, ways=ways)


CALLS = ["pay", "release", "request_refund", "accept_and_pay", "cancel", "dispute_refund", "request_payment", "resolve_dispute", "refused"]

PROPS = {
    "C01": dict(stages=ID3, rule="distinct bit shapes (leading zeros, trailing zeros, ones) of ids and of (block, index) pairs converted and compared"),
    "C02": dict(stages=ID3, rule="distinct (text length, leading zeros, trailing zeros, first character) of ids written as text and read back"),
    "C03": dict(stages=ID3, rule="distinct shapes (sequence of alphabet/dash/other/non-ASCII characters) of texts given to the parser", must_see=["accepted", "refused", "with-dash"]),
    "C04": dict(stages=ID2, rule="distinct bit shapes of ids and byte strings (length, well-formedness, first two bytes) encoded or decoded",
                must_see=["well-formed", "malformed"]),
    "C05": dict(stages=ID2, rule="distinct shapes (junction kinds and bit lengths) of locations converted in both directions", must_see=["has-asset", "no-asset"]),
    "C06": dict(stages=[dict(kind="miri", harness="common", features=N, quick=25, thorough=240,
                             targets=["x86_64-unknown-linux-gnu"]),
                        dict(kind="miri", harness="common", features=N, quick=0, thorough=120, targets=["i686-unknown-linux-gnu"]),
                        fz("common", 15, 180, features=N, asan=True)],
                rule="distinct observed operations (inputs of conversions, parses, encodings) executed inside the interpreter or under the sanitizer"),
    "C07": dict(stages=PAY, must_see=CALLS, rule="distinct (call, outcome and error, payment state, authorised, legal, injected fault, scheduled, same-party, incentive, amount size) observed"),
    "C08": dict(stages=PAY, must_see=CALLS, rule="distinct sets of live payments (parties and states) whose holds were compared, and distinct shapes of creations and disputes"),
    "C09": dict(stages=PAY, must_see=CALLS + ["after-cancellation"], rule="distinct (call, outcome, payment state, authorised, legal, fault, scheduled, blocks to expiry) observed"),
    "C10": dict(stages=PAY, must_see=CALLS, rule="distinct (call, outcome, payment state, caller, legal, same-party) observed"),
    "C11": dict(stages=PAY, must_see=["request_refund", "dispute_refund", "cancel", "scheduled-refund"], rule="distinct shapes (state, blocks to expiry, fees, amount size, scheduled or not) of refund requests, disputes and cancellations"),
    "C12": dict(stages=PAY, must_see=["resolve_dispute"], rule="distinct shapes (winner, percentage, fee kinds, amount size, same-party) of resolved disputes"),
    "C13": dict(stages=PAY, must_see=["release", "accept_and_pay"], rule="distinct shapes (fee kinds per side, amount size, incentive, same-party, accounts touched) of releases and acceptances"),
    "C15": dict(stages=COM, must_see=["vote counted", "vote removed"], rule="distinct (decision method, direction, sums of ayes, nays and support) of tallies compared with the standing votes"),
    "C16": dict(stages=COM, must_see=["vote counted", "vote removed", "membership sold on"], rule="distinct (method, direction, weight, votes on the poll, membership, poll) of votes cast and removed, and distinct refusals"),
    "C17": dict(stages=COM, must_see=["vote counted", "vote removed", "unlocked"], rule="distinct (standing locks, amount frozen) after votes, removals and unlocks, and distinct refusals"),
    "C18": dict(stages=COM, must_see=["administration changed", "membership changed"], rule="distinct (call, kind of caller, communities and admins) after changes of administration, and distinct refusals"),
    "C19": dict(stages=COM, must_see=["acted as account"], rule="distinct (call made, kind of caller, community) dispatched as a community account, and distinct refusals"),
    "C20": dict(stages=COM, must_see=["membership changed", "add_member", "remove_member", "promote", "demote"], rule="distinct (call, memberships of the community with holders and ranks) after membership calls, and distinct refusals"),
    "C21": dict(stages=COM, must_see=["registered"], rule="distinct (community, kind of caller, decision method, track given, name, deposit) registered, and distinct refusals"),
    "C22": dict(stages=COM, must_see=["memberships created"], rule="distinct (amount, first id, price, memberships for sale) created, and distinct refusals"),
    "C14": dict(stages=KRE, must_see=["created", "released", "accepted", "outside", "in a batch"], rule="distinct (settlement, kinds of payer and payee, amount size, fee raised to the minimum, payer speaking as a community) settled"),
    "C23": dict(stages=KRE, must_see=["allowed", "denied", "compared"], rule="distinct (purpose or filter, call, verdict) decided and distinct pairs of purposes or callers compared"),
    "C24": dict(stages=KRE, must_see=["looked up", "may send", "may not send", "place with account", "place without account", "speaks for a community", "speaks for nobody"],
                rule="distinct (kind of account, address, place or caller, outcome) translated"),
    "C25": dict(stages=KRE, must_see=["reserve believed", "reserve not believed", "reserve transfer", "withdrawal", "call made", "call refused", "free message", "paid message", "turned away"],
                rule="distinct (instructions executed, chain of origin, verdict) of messages received"),
    "C26": dict(stages=KRE, must_see=["admitted", "refused", "founded", "not founded", "member submits", "track looked up", "memberships put up for sale", "memberships not put up for sale"], rule="distinct (privilege, kind of caller, admitted) decided and distinct shapes of foundings"),
    "C27": dict(stages=KRE, must_see=["accepted", "refused"], rule="distinct (verdict, genuine, age of the block, length and zeroness of the challenge, current block) judged"),
    "C28": dict(stages=KRE, must_see=["call weighed", "nested call weighed", "message weighed", "unsupported weighed", "several assets weighed", "fee computed"],
                rule="distinct (call or instruction, weight) weighed and distinct (time, proof) sizes priced"),
    "C29": dict(stages=KRE, must_see=["native fee", "asset fee to author", "asset fee without author", "refused"], rule="distinct (kind of fee, outcome, sizes, author, treasury) charged"),
    "C30": dict(stages=KRE, must_see=["owns something", "owns nothing"], rule="distinct sets of balances reported and compared with the ledger"),
    "C31": dict(stages=KRE, must_see=["paid in the native currency", "paid in an asset", "paid by the pass account", "paid with gas", "free of charge", "nothing to pay", "cannot pay",
                                      "second time refused", "wrong signer refused", "out of its time refused", "meant for elsewhere refused", "out of turn refused"],
                rule="distinct (call, payer, means of payment, period, size of the fee) of transactions that ran and (claims that hold, turn, room, verdict) of all"),
    "C32": dict(stages=KRE, must_see=["no room", "operational in a full block"], rule="distinct (fullness per class in twentieths, bytes, class, verdict) of blocks and transactions offered to them"),
    # with overflow checks the recorded finding of C15 is a panic, without them it is not
    "C33": dict(stages=[rec("payments", 10, 90, 300), rec("communities", 10, 90, 40, checked=False), rec("kreivo", 10, 90, 300)],
                must_see=["compared", "tried out", "tried out with success", "tried out and then done"],
                rule="distinct digests (step, its outcome, all of storage) recorded in the executions compared, of the part with the most"),
}
