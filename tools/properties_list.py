ID = "common/src/payment_id.rs"
LOC = "common/src/multilocation_asset_id.rs"

prop("C01", "Payment id: number, bytes and parts are one lossless mapping",
     "Every 64-bit number is exactly one payment id and every payment id is exactly one number: turning a number into an id and back, or into its eight little-endian bytes, loses and changes nothing. The block number and the extrinsic index an id was made from (an index that fits 16 bits) are read back unchanged from it, and distinct numbers give distinct ids.",
     ["inputs", "configurations"], "every 64-bit number; every (block, index below 2^16, extra of at least two bytes); debug and optimised builds, node and web feature sets",
     "The two existing tests look at one id and one truncation; the claim is about all 2^64 ids and every build.",
     [ID], [("conversions between number, bytes, components", f"{ID}: From/Into<u64>, From<(u32,u32,&[u8])>, to_bytes, AsRef"), ],
     "self-written monitors over generated and coverage-guided (libFuzzer) inputs, comparing every conversion with an independent reference; overflow and debug assertions on",
     "Random, edge-value and coverage-guided sampling of the input space; held on what was explored.",
     observe=["PaymentId::from_number/to_number/to_bytes/block_number/extrinsic_index"], hook=False)
prop("C02", "Payment id text reads back to the same id, plain and pretty",
     "For every payment id the plain text is the base58 form of its eight bytes, and the pretty text is the same with one dash after the fifth character. Reading either text back yields the same id, so two different ids never share a text.",
     ["inputs", "configurations"], "every 64-bit id, both text forms, debug and optimised builds, node and web feature sets",
     "A test fixes one id; ids with leading zero bytes, short texts and the extreme values are not reached.",
     [ID], [("text form", f"{ID}: Display, encode"), ("reading text", f"{ID}: FromStr, new")],
     "self-written monitors with an independent base58 reference over generated and coverage-guided inputs",
     "Sampling of ids with edge values and coverage guidance; held on what was explored.", observe=["format!(\"{id}\")", "str::parse", "PaymentId::new", "PaymentId::encode"], hook=False)
prop("C03", "Hostile payment id text never crashes or aliases another id",
     "Reading any text as a payment id returns, without panicking, either an error or an id. Text is accepted only if, with at most one dash removed, it is exactly the canonical text of the id it yields; the infallible constructor gives the zero id for text that is refused.",
     ["inputs", "configurations"], "every text: any length, any Unicode, any number and place of dashes, non-alphabet characters; debug and optimised builds, node and web feature sets",
     "No test feeds malformed text; the parser copies into a fixed buffer and decodes into a fixed array, so lengths and places of the dash matter.",
     [ID], [("reading text", f"{ID}: FromStr::from_str, new")],
     "crash monitor and self-written canonical-form oracle over mutated and coverage-guided texts",
     "Sampling of texts near canonical ones, plus coverage guidance; held on what was explored.", observe=["str::parse::<PaymentId>", "PaymentId::new"], hook=False)
prop("C04", "On-chain encodings are stable, exact and reject malformed bytes",
     "A payment id is encoded on chain exactly as an unsigned 64-bit number, and an asset location exactly as its published variant layout; decoding gives back the same value, consumes exactly those bytes, never panics, and refuses truncated or unknown forms. No value takes more bytes than the declared maximum or other than a declared fixed size, the JSON form of an asset location reads back to the same location, and the metadata of an id is that of a 64-bit number.",
     ["inputs"], "every id, every asset location, every byte string offered for decoding",
     "No test touches the encodings: the feature that contains them is not built by the test command.",
     [ID, LOC], [("hand-written codec of the id", f"{ID}: mod runtime"), ("derived codec of asset locations", f"{LOC}: FungibleAssetLocation, NetworkId, Para")],
     "self-written monitors with independent reference encoder/decoder over valid, mutated and coverage-guided byte strings",
     "Sampling; the codec derive macros are the real ones, the XCM types are stand-ins.", hook=False)
prop("C05", "Asset locations and XCM locations convert one to one",
     "Every asset location has exactly one cross-chain location (local asset: this chain's assets pallet and index; sibling: parachain, pallet, index; external: network, optionally followed by parachain, pallet, index), and converting that back gives the same asset. Any cross-chain location converts, without panicking, either to nothing or to the one asset whose location it is; out-of-range components never alias another asset.",
     ["inputs"], "every asset location; every cross-chain location up to the shapes a peer can send, including out-of-range parachain ids and indices",
     "No test reaches the conversion; it is fed by locations chosen by other chains.",
     [LOC], [("conversion", f"{LOC}: AsFungibleAssetLocation::convert/convert_back")],
     "crash monitor and inverse/meaning oracle over generated, mutated and coverage-guided locations",
     "Sampling; the XCM location types are stand-ins with the real shape.", hook=False)
prop("C06", "The shared library is free of undefined behaviour on any input",
     "Whatever number, text, byte string or location is handed to the shared library, executing it causes no undefined behaviour: no out-of-bounds or unaligned access, no use of invalid values, no leak. This holds on 64-bit and 32-bit targets and with or without debug assertions.",
     ["inputs", "configurations"], "every input of the public interface; 64-bit and 32-bit; optimised code without assertions",
     "Undefined behaviour usually passes a test unnoticed; the library builds byte views with unsafe code and is linked into the node and the browser.",
     [ID, LOC], [("raw byte view of an id", f"{ID}: AsRef<[u8]>"), ("ASCII views", f"{ID}: FromStr, Display")],
     "Miri (UB interpreter) and AddressSanitizer with coverage guidance over the workloads of C01-C05",
     "Miri and ASan observe the executions run; held on what was explored.", hook=False)

PAY = "pallets/payments/src/lib.rs"
PAYT = "pallets/payments/src/types.rs"
PTECH = "self-written monitors on recorded call histories: the real pallet runs over an observed ledger, scheduler and fee handler, every call's effect is compared with an independent executable model"
PNOTE = "Sampled histories (random and coverage-guided) with injected ledger and scheduler faults; the substrate framework, ledger and scheduler are stand-ins."
PWHY_H = "The pallet's tests walk a few fixed histories with one fee schedule; the claim is about every interleaving of calls by every party, every amount, fee schedule and failing operation."

prop("C07", "Payments never create, destroy or misplace money",
     "Whatever sequence of payment calls is made, the total of every asset stays the same and only the parties of the payment concerned, its fee recipients and the dispute resolver see their balances change. Every call is done entirely or not at all: when it fails, or any underlying transfer, hold or scheduling operation it needs fails half way, balances, holds, records and events are exactly as they were. No call panics.",
     ["histories", "inputs", "fault_sequences"], "all histories of payment calls by any callers with any amounts, assets and fees; any single ledger or scheduler failure inside a call",
     PWHY_H, [PAY], [("settlement transfers", f"{PAY}: settle_payment, cancel_payment, reserve_payment_amount, try_transfer_fees")],
     PTECH, PNOTE, state=[("escrowed funds", "what is held for payments in each account", f"{PAY}: HoldReason::TransferPayment")],
     observe=["all balances and holds before and after each call", "the whole storage after a failed call"], hook=False)
prop("C08", "Escrowed funds always equal what live payments need",
     "After every call, what each account has on hold for payments is exactly the sum over its live payments: the amount for the beneficiary, the sender's fees plus the incentive for the sender, and the incentive for a beneficiary that disputed a refund. Creating a payment takes exactly the amount, the incentive share of it (rounded down) and the sender's fees out of the sender's free balance; settled and cancelled payments keep nothing on hold.",
     ["histories", "inputs", "fault_sequences"], "all histories of payment calls over several senders, beneficiaries (also the same account) and assets",
     PWHY_H, [PAY, PAYT], [("reservation", f"{PAY}: reserve_payment_amount"), ("release of holds", f"{PAY}: settle_payment, cancel_payment, dispute_refund")],
     PTECH, PNOTE, observe=["held balances per account and asset", "free balances of the parties"], hook=False)
prop("C09", "A payment follows its life cycle and is settled at most once",
     "A payment moves only along created or requested, refund requested, disputed, settled or cancelled: it is released only while created, disputed only while a refund is pending, resolved only while disputed, accepted only while requested, and nothing happens to it after it was settled or cancelled. A new payment never takes over the id of another live or settled payment (an open request to the same payer may be replaced), every successful call announces exactly the matching event, and a call that is legal and affordable for all involved succeeds.",
     ["histories", "inputs"], "all histories of payment calls, including repeated and out-of-order calls, id generators that repeat or run out of ids",
     PWHY_H, [PAY], [("state checks of each call", f"{PAY}: release, request_refund, accept_and_pay, cancel, dispute_refund, resolve_dispute, create_payment")],
     PTECH, PNOTE, state=[("payment state", "where a payment is in its life cycle", f"{PAYT}: PaymentState")], observe=["call results", "events"], hook=False)
prop("C10", "Only the right party can act on a payment",
     "A payment can be released, put up for refund or accepted only by its sender, cancelled or disputed only by its beneficiary, and its dispute resolved only by the configured resolver; creating payments and requests needs the configured sender and beneficiary permissions. No other account, nor an unsigned or root caller that is not the resolver, ever succeeds.",
     ["histories", "inputs"], "every call on every payment by every caller: parties, strangers, barred accounts, root, nobody",
     "The tests try a handful of wrong callers; the claim quantifies over all callers in all reachable states.", [PAY],
     [("origin checks", f"{PAY}: SenderOrigin, BeneficiaryOrigin, DisputeResolver"), ("party lookup", f"{PAY}: PaymentParties")],
     PTECH, PNOTE, observe=["which caller each successful call had"], hook=False)
prop("C11", "Refunds happen on time, in full, and not after a dispute",
     "A requested refund is announced with, and carried out at, exactly the block that lies the configured buffer after the request, unless the beneficiary cancelled or disputed it before; the beneficiary can dispute it at any block strictly before that one and not later. A refund or cancellation returns to the sender everything they put in (amount, fees and incentive) and leaves the beneficiary as if the payment had never been, and after a dispute or cancellation no automatic refund happens or stays scheduled.",
     ["histories", "schedules"], "all histories with any buffer length, any request, dispute and cancel times, several refunds due in the same block",
     PWHY_H, [PAY], [("scheduling and unscheduling", f"{PAY}: request_refund, dispute_refund"), ("refund", f"{PAY}: cancel, cancel_payment")],
     PTECH, PNOTE, observe=["scheduled calls as they run", "balances", "announced expiry"], hook=False)
prop("C12", "A resolved dispute splits the escrow exactly as decided",
     "When a dispute is resolved in favour of a party at some percentage, that party gets that percentage of the amount rounded down and the other party the rest; the losing party's incentive goes to the resolver and the winner's is returned. Of the fees only those due even in disputes are charged, to the recipients and in the amounts agreed, and the others return to who set them aside.",
     ["histories", "inputs"], "every amount, percentage, winner, resolver, incentive rate and fee schedule, including recipients with several fees of both kinds and recipients that are parties themselves",
     "The tests resolve a few disputes with round numbers and one fee per recipient.", [PAY, PAYT],
     [("split", f"{PAY}: settle_payment"), ("fees due in disputes", f"{PAYT}: get_summary; {PAY}: try_transfer_fees")],
     PTECH, PNOTE, observe=["balances of parties, recipients, resolver"], hook=False)
prop("C13", "Releasing or accepting pays exactly the agreed amount and fees",
     "When a payment is released, or a payment request accepted, the beneficiary receives exactly the amount less their fees, the sender is charged exactly the amount plus their fees and gets the incentive back, and every fee recipient receives exactly what was quoted when the payment was created, even if fees changed since. Each fee is charged once, to the right side.",
     ["histories", "inputs"], "every amount and fee schedule: fixed, proportional, dependent on remark, parties or asset, several fees per recipient, recipients that are parties, schedules that change between creation and settlement",
     PWHY_H, [PAY, PAYT], [("fee summary and transfer", f"{PAYT}: get_summary; {PAY}: try_transfer_fees"), ("settlement", f"{PAY}: settle_payment, accept_and_pay")],
     PTECH, PNOTE, observe=["balances of parties and recipients"], hook=False)

CL = "pallets/communities/src/lib.rs"
CF = "pallets/communities/src/functions.rs"
CT = "pallets/communities/src/types.rs"
CI = "pallets/communities/src/impls.rs"
CO = "pallets/communities/src/origin.rs"
CM = "pallets/communities-manager/src/lib.rs"
CTECH = "self-written monitors on recorded call histories: the real pallets run over observed memberships, polls, ledger, collections, tracks and collective, and everything visible is compared with an independent executable model after every step"
CNOTE = "Sampled histories (random and coverage-guided) with injected failures of dependencies; the substrate framework and the pallets around are stand-ins."
CWHY = "The tests walk a few fixed histories of one or two communities; the claim is about every interleaving of calls by all callers with memberships changing hands, ranks and decision methods changing and dependencies failing."

prop("C15", "A poll's tally is the sum of the votes that stand",
     "At every moment, the ayes of an ongoing poll are the sum of what the standing aye votes counted for when cast (one per membership, the membership's rank, or the amount voted with, as the community decides), its approval is ayes over all votes, and its support is the aye weight over the whole electorate. Replacing a vote counts the new one only, removing a vote takes away exactly what it added, and votes on other polls never matter.",
     ["histories", "inputs"], "all histories of votes, changed and removed votes on several polls of several communities, under every decision method, any amounts and ranks",
     CWHY, [CF, CI, CT], [("counting", f"{CF}: try_vote, try_remove_vote, Tally::add_vote/remove_vote"), ("reading", f"{CI}: VoteTally for Tally")],
     CTECH, CNOTE + " Three recorded known findings are recognised by an exact model of what the code does instead.", observe=["ayes, approval and support of every ongoing poll after every step"], hook=False)
prop("C16", "One membership, one vote, cast only by its holder in its own community",
     "A vote is accepted exactly when the caller holds the membership named, the poll is ongoing and belongs to that membership's community, the kind of vote is the one the community decides by, it meets the minimum, and the caller owns what they vote with. Each membership has at most one standing vote per poll, removable only by its holder while the poll is ongoing, and a refused call changes nothing.",
     ["histories", "inputs", "fault_sequences"], "every caller, membership, poll and vote in every reachable state, including memberships that were transferred, released or belong to other communities",
     CWHY, [CL, CF], [("membership check", f"{CL}: vote, remove_vote"), ("poll and vote type checks", f"{CF}: try_vote, try_remove_vote")],
     CTECH, CNOTE, observe=["call results", "events", "tallies"], hook=False)
prop("C17", "Voting freezes exactly what standing votes need, and unlocking frees it",
     "What an account has frozen because of votes is, for each asset, the largest amount among the votes it cast with that asset that are neither removed nor unlocked, and never touches other assets, other accounts or anything frozen for other reasons. Funds cannot be unlocked while the poll is ongoing, and once it has ended the account that voted can always unlock them.",
     ["histories", "inputs"], "all histories of votes with amounts in several assets on several polls, removals, replacements, memberships changing hands, polls ending, unlocks in any order",
     CWHY, [CF, CL], [("locks", f"{CF}: update_locks"), ("unlocking", f"{CL}: unlock")],
     CTECH, CNOTE + " One recorded known finding (two votes of one account on one poll) is recognised by an exact model of what the code does instead.",
     state=[("vote locks", "what each account's votes hold back per poll", f"{CL}: CommunityVoteLocks")], observe=["frozen balance of every account and asset after every step"], hook=False)
prop("C18", "Only a community and its admin have authority over it",
     "The only callers with authority over a community are the community itself, by decision of its members, and the one admin it last appointed, and only while it exists and is active; nothing one community, its admin or its members do changes another community's admin, decision method or members. No caller ever has authority over two communities, root and unsigned callers have none, and calls without authority are refused without effect.",
     ["histories", "inputs"], "all histories of founding, handing over, blocking and managing several communities by every kind of caller, including attempts to appoint admins of other communities",
     CWHY, [CL, CF, CO], [("authority", f"{CO}: EnsureCommunity"), ("appointing admins", f"{CL}: create, set_admin_origin; {CF}: register"), ("decision method", f"{CL}: set_decision_method")],
     CTECH, CNOTE, state=[("admins", "which origin administers which community", f"{CL}: CommunityIdFor")],
     observe=["which community each possible caller is accepted for, after every step", "votes each community accepts"], hook=False)
prop("C19", "Acting as a community account is acting as that account, no more",
     "A call dispatched as a community's account runs with exactly the permissions of that one account: it is signed by the account of the community the caller has authority over, restrictions on ordinary accounts still apply, and it is charged at least the weight and in the class of the call itself. If the inner call fails the whole call fails and leaves no trace, and no one is ever taken for the account of a community they do not speak for.",
     ["histories", "inputs"], "every caller, community and inner call, including nested, failing and forbidden ones",
     CWHY, [CL, CF, CO], [("dispatch", f"{CF}: do_dispatch_as_community_account; {CL}: dispatch_as_account"), ("speaking for the account", f"{CO}: AsSignedByCommunity, AsSignedByStaticCommunity")],
     CTECH, CNOTE, observe=["signer seen by inner calls", "storage after failed calls", "declared weight and class"], hook=False)
prop("C20", "Membership calls affect exactly the membership and member named",
     "Adding a member gives them one membership out of the community's own stock, removing takes exactly the named membership from exactly the named holder, and promoting or demoting moves the rank of exactly the named membership by one, never past either end. Nothing else changes, the announced event names what happened and the resulting rank, and calls naming memberships of others, unassigned ones or other communities' are refused.",
     ["histories", "inputs", "fault_sequences"], "all histories over several communities with shared members, several memberships per member, empty stocks, ranks at both ends",
     CWHY, [CL, CF], [("member management", f"{CL}: add_member, remove_member, promote, demote"), ("lookups", f"{CF}: is_member, member_rank, get_memberships")],
     CTECH, CNOTE, observe=["the whole membership table and every lookup after every step", "events"], hook=False)
prop("C21", "Registering a community sets it up completely or not at all",
     "After a community is registered it is active under the named admin, decides by the method given, owns and administers its collection of memberships without limit of supply, has its own governance track deciding in its name (as given, or named after it and never passing with less than half approval), belongs to the collective and its account stays alive; the deposit has moved once from who registered it to the configured receiver. If anything fails, including any single step half way, nothing at all has changed, and no existing community, collection, track or admin is ever taken over.",
     ["histories", "inputs", "fault_sequences"], "every caller, id, name, admin, method and track in every reachable state; any single failing dependency",
     "The tests register one community on a fresh chain; the claim covers taken ids and half-way failures.", [CM, CF],
     [("registration", f"{CM}: register, default track"), ("founding", f"{CF}: register")],
     CTECH, CNOTE, observe=["collections, tracks, collective, balances, providers, authority", "whole storage after a failed call"], hook=False)
prop("C22", "Creating memberships for sale creates exactly what was asked",
     "Only callers allowed to can create memberships, at most 1024 at once; a successful call creates exactly the asked number of consecutive ids from the given start (fewer only when ids run out), all owned by the configured owner and on sale to anyone at the given price, and announces the start and the number created. If any id is taken or any step fails, nothing is created.",
     ["inputs", "histories", "fault_sequences"], "every amount, start and price, overlapping ranges, ranges at the end of the id space, any failing step",
     "The tests create one small batch.", [CM], [("batch creation", f"{CM}: create_memberships")],
     CTECH, CNOTE, observe=["all items with owner and price after every call", "events"], hook=False)

K = "runtime/kreivo/src/"
KX, KXC, KC, KS, KM = K + "xcm_config.rs", K + "xcm_config/communities.rs", K + "communities/mod.rs", K + "configuration/system_support.rs", K + "configuration/monetary_stuff.rs"
KTECH = "self-written monitors on recorded histories: the real runtime configuration runs with the real pallets of this repository over observed stand-ins of everything else, and each decision, message and balance is compared with an independent executable statement of the property"
KNOTE = "Sampled (random and coverage-guided) histories; the pallets, message executor and framework from outside this repository are stand-ins, so what those do is assumed, not checked."
KWHY = "The runtime has no runnable tests of behaviour at all; the claim is about every caller, account, place, call and message."

prop("C14", "Kreivo payments charge each side its fee once and never share an id",
     "On Kreivo, settling a payment moves the amount from payer to payee, plus 1 % paid by the payer and 3 % paid by the payee, each at least the asset's minimum balance, to the treasury and nowhere else; a side that is a community pays no fee. Every payment created gets an id that no other payment has or had (save for an open request it replaces), and none is created outside a transaction.",
     ["histories", "inputs"], "all interleavings of payments, requests, acceptances and releases between people, communities, other chains and pallets' accounts, in any asset and amount, in any block and transaction",
     KWHY, [K + "payments.rs", PAY, "common/src/payment_id.rs"], [("fees", K + "payments.rs: KreivoFeeHandler"), ("ids", K + "payments.rs: PaymentId::next")],
     KTECH, KNOTE, observe=["balances of everybody after each settlement", "ids of stored payments"], hook=False)
prop("C23", "Delegates can do only what they were delegated for",
     "A proxy may make exactly the calls of the purpose it was appointed for (anything; anything but moving native currency or assets; assets; owning or managing assets; collating; rejecting announcements; with batches and multisigs alongside the limited ones), and one purpose includes another only where it allows everything the other allows. Contracts may call nothing but plain native transfers, and nobody but root may change what another caller has scheduled.",
     ["inputs", "configurations"], "every call of every pallet of the chain, every pair of purposes, every pair of callers",
     KWHY, [K + "impls.rs", K + "contracts.rs", K + "lib.rs"], [("purposes", K + "impls.rs: ProxyType, InstanceFilter"), ("contracts", K + "contracts.rs: CallFilter"), ("scheduling", K + "impls.rs: EqualOrGreatestRootCmp")],
     KTECH, KNOTE + " All calls are enumerated, with sampled arguments.", observe=["verdict of every filter on every call"], hook=False)
prop("C24", "Each community, address and place has one account, and nobody else speaks for it",
     "Every community has its own account, found by its number or its account; a place in the network has an account only if it is the relay chain, a sibling chain, an account here or on the relay chain, or an existing number of a community, and distinct owners never share one. Only the community itself, its account and its appointed admin have authority over it or send messages in its name, each under the true identity; everyone else, including the accounts of other pallets, is refused.",
     ["inputs", "histories"], "every account (people, communities, chains, pallets and their sub-accounts), address, place and caller, with any communities existing",
     KWHY, [KC, KXC, KX, KS], [("accounts to communities", f"{KC}: AccountToCommunityId; {KXC}: SignedByCommunityToPlurality"), ("addresses", f"{KS}: CommunityLookup"), ("places", f"{KX}: LocationToAccountId; {KXC}: PluralityConvertsToCommunityAccountId, AccountId32FromRelay"), ("sending", f"{KX}: CanSendXcmMessages, CanExecuteXcmTransactions")],
     KTECH, KNOTE, observe=["account of every place and address", "community every caller is accepted for", "identity messages are sent under"], hook=False)
prop("C25", "Messages from other chains can only spend, mint and command what is theirs",
     "A message from elsewhere creates an asset here only when it comes from the chain that issues the asset (or, for assets of Polkadot, from the asset hub), takes only from the sender's own account, and makes calls only as the sender's own account or identity, never as root; teleports are never accepted. Unless it comes from the relay chain or its executive body it runs only if it pays, the price, in the chain's own asset or one of the asset hub or Polkadot, goes to the treasury, and what the hub or the relay chain sends honestly arrives in full less that price.",
     ["inputs", "programs"], "every sender and every message program, including cleared and descended senders, several assets, unknown assets, failing and unpaid programs",
     KWHY, [KX, KXC, K + "constants.rs"], [("reserves", f"{KX}: Reserves, ReserveAssetsFrom, ReserveForeignAssetsFrom"), ("barrier", f"{KX}: Barrier"), ("payment", f"{KX}: Traders, fee receivers"), ("calls", f"{KX}: XcmOriginToTransactDispatchOrigin"), ("assets", f"{KX}: AssetTransactors")],
     KTECH, KNOTE, observe=["all balances before and after every message", "who calls were made as", "which instructions ran"], hook=False)
prop("C26", "Every privilege is held by exactly who it was given to",
     "Forcing assets, memberships, queues, preimages, schedules, treasury and tracks takes root; nobody can create assets, spend the treasury or add to the collective directly; collators are selected by root or the relay chain's defence body; contracts are uploaded by root and instantiated by root and the first two communities; disputes are resolved by root; the collective decides for root and its own offices only, by promoted members only, and its referenda are cancelled and killed by their own offices; memberships are put up for sale by root or their office and are the treasury's; community referenda are submitted by that community's members only, and each community changes its own track only. Founding a community and registering a pass is free for root, a pass also for communities, and costs others the set price, paid to the treasury once.",
     ["inputs", "histories"], "every privileged operation, every kind of caller (root, nobody, people, members, admins, communities and parts of them, offices, other chains and their bodies), any communities existing",
     KWHY, [K + "lib.rs", KC, KS, KM, K + "communities/governance.rs", K + "collective/mod.rs", K + "collective/governance.rs", K + "collective/tracks.rs", K + "governance/origins.rs", K + "contracts.rs"],
     [("offices", K + "governance/origins.rs"), ("community referenda", K + "communities/governance.rs: EnsureCommunityMember, EnsureOriginToTrack"), ("tracks", K + "collective/tracks.rs"), ("prices", f"{KC}: RegisterOrigin; {KS}: EnsureSignedPays")],
     KTECH, KNOTE, observe=["admission and identity for every privilege and caller", "balances, tracks, collections and collective after founding"], hook=False)
prop("C27", "Passkey credentials are accepted only over a recent existing block",
     "A credential is accepted exactly if its challenge is the hash of the block it names and that block is one of the three before the current one. Challenges over blocks that do not exist yet, older blocks, other blocks' hashes, shortened or extended hashes are refused.",
     ["inputs", "histories"], "every current block, named block and challenge", KWHY, [KS], [("challenge", f"{KS}: UnincludedBlockHashChallenger")],
     KTECH, KNOTE, observe=["verdict on every challenge"], hook=False)
prop("C28", "Work is never weighed or priced at less than it asks for",
     "The fee for work never falls as time or proof size grow, is that of the dearer of the two at the chain's fixed rates, and length is charged by the byte at its fixed rate. Calls and messages that carry other calls or instructions weigh at least as much as what they carry, withdrawing, transferring or sending away several assets at once weighs no less than one by one, messages with more than a hundred instructions and unsupported instructions cannot run, and no call of this repository's pallets is free.",
     ["inputs", "programs"], "every weight, length, call, nested call and message program of up to 120 instructions over up to 100 assets", KWHY,
     [K + "constants.rs", K + "weights/xcm/mod.rs", KX, KM, CL], [("fees", K + "constants.rs: WeightToFee"), ("messages", K + "weights/xcm/mod.rs: KreivoXcmWeight; " + f"{KX}: MaxInstructions"), ("nested calls", f"{CL}: dispatch_as_account")],
     KTECH, KNOTE, observe=["declared weight of calls and messages", "fees"], hook=False)
prop("C29", "Fees charged arrive once, in full, where they belong",
     "A fee taken in native currency goes to the treasury, one taken in an asset at its rate to the block's author; what was charged in excess returns to the payer, and no other account changes. Whoever can afford a fee can pay it, and a payment that is refused changes nothing.",
     ["inputs", "histories"], "every fee, actual cost, payer, asset rate, author known or not, recipients that exist or not", KWHY,
     ["runtime/common/src/impls.rs", KM], [("native", f"{KM}: pallet_transaction_payment, ResolveTo treasury"), ("assets", "runtime/common/src/impls.rs: AssetsToBlockAuthor; " + f"{KM}: pallet_asset_tx_payment")],
     KTECH, KNOTE, observe=["all balances before and after each charge"], hook=False)
prop("C30", "Reported balances are the balances",
     "Asked what an account owns, the chain reports every asset and the native currency the account has a free balance of, each once, under the place it comes from and with the right amount, and nothing else.",
     ["inputs", "histories"], "every account and every set of assets, local, of sibling chains and of other networks", KWHY,
     [K + "apis.rs", "common/src/multilocation_asset_id.rs"], [("query", K + "apis.rs: query_account_balances")],
     KTECH, KNOTE, observe=["answers and ledger"], hook=False)
prop("C31", "A transaction runs once, as its signer meant it, and is paid for",
     "A signed transaction runs only when the key of the account it names signed it for this chain, its current versions and the present period, at that account's next nonce and no second time; otherwise it is refused and nothing changes. It then makes its call exactly once as its signer, and the fee that was quoted, less what was not used, is paid by the signer or the pass account a session key belongs to: with the gas of a membership they hold, else in the asset chosen, else in the native currency. Only proving that one holds a device skips both the fee and the nonce.",
     ["inputs", "histories"], "every transaction, with any one of its claims wrong, sent any number of times over any number of blocks", KWHY,
     [K + "lib.rs", K + "apis.rs", K + "configuration/system_support.rs", K + "configuration/monetary_stuff.rs"],
     [("checks on transactions", K + "lib.rs: SignedExtra"), ("entry points", K + "apis.rs: apply_extrinsic, validate_transaction, query_info"), ("naming accounts", K + "configuration/system_support.rs: CommunityLookup"), ("gas", K + "configuration/monetary_stuff.rs: GasBurner")],
     KTECH, KNOTE, observe=["verdicts, calls made, nonces, ledger, gas tanks"], hook=False)
prop("C32", "Blocks take what fits and no more",
     "Transactions are let into a block as long as, and only as long as, all of it stays within two seconds of computation, five mebibytes of proof and five mebibytes of transactions, of which ordinary ones get at most three quarters; what a transaction declared but did not use is free again. Operational ones find a quarter of a block reserved for them however full it is. Scheduled calls and messages from other chains are given some of a block, never more than one.",
     ["inputs", "histories"], "every sequence of transactions of every weight, length and class, in blocks that start with any amount of other work", KWHY,
     [K + "configuration/system_support.rs", K + "lib.rs"],
     [("limits", K + "configuration/system_support.rs: RuntimeBlockWeights, RuntimeBlockLength"), ("check", K + "lib.rs: SignedExtra"), ("service weights", K + "lib.rs: MessageQueueServiceWeight, MaximumSchedulerWeight")],
     KTECH, KNOTE, observe=["verdicts on transactions"], hook=False)
prop("C33", "The same calls from the same state always give the same result",
     "Whatever calls, transactions and messages are executed in whatever order, their results, their events and every bit of the state they leave depend only on the state before and on themselves. Executed again in another process or thread, after any other work, or with other calls tried out and undone in between, they give exactly the same. In payments and in the runtime's own code a build with overflow checks and debug assertions gives the same as one without.",
     ["histories", "schedules", "configurations"], "every history of calls to the payments and communities pallets and the Kreivo runtime, every other work done before or tried out in between by the same process",
     "a test runs once, in one build, in a fresh process: what differs between two executions cannot show",
     ["pallets/payments/src/lib.rs", "pallets/payments/src/types.rs", "pallets/communities/src/lib.rs", "pallets/communities/src/functions.rs", "pallets/communities/src/origin.rs", "pallets/communities-manager/src/lib.rs", K + "payments.rs", K + "impls.rs", K + "xcm_config.rs", K + "lib.rs"],
     [("all state lives in storage", "pallets/payments/src/lib.rs: #[pallet::storage]"), ("all state lives in storage", "pallets/communities/src/lib.rs: #[pallet::storage]"), ("ids from block, index and beneficiary only", K + "payments.rs: PaymentId::next")],
     "offline comparison of recorded executions: a digest per step of outcome and all of storage, over processes, threads, builds, orders, with calls tried out and rolled back in between",
     KNOTE, observe=["outcomes of calls", "events", "storage"], hook=False)
