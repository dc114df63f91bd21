#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
A="programs/asset/program/src/processor/"
T="programs/asset/types/src/"
SBF="The on-chain (SBF) tests do not run in the stable suite at all; the 24 stable tests only exercise extension builders of the types crate. "
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
        why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe or ["account bytes, lamports and owners before and after each transaction"],hook_needed=None)))

p("P01","Only an authorised holder can move ownership, and an authorised one always can",
 "The owner recorded in an asset changes only through a successful transfer, which is accepted exactly when it is signed by the current owner, by the owner's delegate holding the transfer role, or (on managed assets) by the manager holding the transfer role, provided the asset is unlocked, not soulbound and its royalty rule passes. After an accepted transfer to a different recipient the recipient is the owner and the previous delegate is cleared; a transfer to the current owner changes nothing, delegate included. No other instruction, signer combination or account aliasing ever changes an asset's owner.",
 ["inputs","histories"],"all instruction sequences, all signer/account combinations (missing, wrong, duplicated, aliased), all asset standards and delegate/manager configurations",
 SBF+"Even the SBF tests sample a handful of signer/role combinations; the claim is over every history of delegation, locking and transfer.",
 [A+"transfer.rs","programs/asset/program/src/utils.rs"],
 [("transfer authorisation and owner assignment",A+"transfer.rs"),("delegate/manager role lookup","programs/asset/program/src/utils.rs: assert_delegate")],
 [("owner","current holder","asset header bytes 4..36"),("delegate","holder's delegate and its roles","asset header bytes 100..133")])

p("P02","Burn needs burn rights, destroys the asset and refunds all its lamports",
 "A burn is accepted exactly when it is signed by the owner, by the delegate with the burn role, or by the manager with the burn role, the asset is unlocked, a grouped asset is burned together with its own group account, and an asset that is itself a group has no members. An accepted burn leaves the account empty, with no lamports and assigned to the system program, and every lamport it held goes to the given recipient, or to the signer when no recipient is given. Closing an unfinished (never created) account needs that account's own signature and refunds it entirely in the same way, and can never be applied to a created asset.",
 ["inputs","histories"],"all histories and account combinations ending in a burn or close, including wrong or missing group, recipient aliasing, and non-empty groups",
 SBF+"Authorisation, group bookkeeping and refunds interact over arbitrary prior histories.",
 [A+"burn.rs",A+"close.rs","programs/asset/program/src/utils.rs"],
 [("burn authorisation and close",A+"burn.rs"),("buffer close",A+"close.rs"),("account teardown","programs/asset/program/src/utils.rs: close_program_account")])

p("P03","A locked asset is frozen until someone with the lock right unlocks it",
 "While an asset is locked it cannot be transferred or burned, nor can its delegate be changed or revoked, and it stays locked until an explicit unlock succeeds. Locking and unlocking are accepted exactly for the delegate with the lock role or the manager with the lock role, and for the owner only while no delegate is set; unlocking an unlocked asset is harmless and locking a locked one is refused. Locking and unlocking change nothing but the lock state.",
 ["inputs","histories"],"all histories interleaving lock, unlock, approve, revoke, transfer, burn and every other instruction, with every signer",
 SBF+"Freezing is a statement about all continuations of a history while the state is locked.",
 [A+"lock.rs",A+"unlock.rs",A+"mod.rs","programs/asset/program/src/processor/mod.rs"],
 [("locked-state gate before dispatch",A+"mod.rs"),("lock/unlock authorisation",A+"lock.rs, unlock.rs")],
 [("state","locked/unlocked byte","asset header byte 1")])

p("P04","A delegate has exactly the roles granted, until revoked or the asset moves",
 "Only the owner can appoint a delegate, and only the owner or the delegate itself can revoke; after any history the delegate's roles are exactly the union of the roles granted to it since it was appointed, minus those revoked, where appointing a different address replaces the previous delegate and its roles. Revoking everything, or the last remaining role, removes the delegate entirely. A role that is not held never authorises an action, and the manager's or another asset's roles never leak into the holder's delegate or vice versa.",
 ["inputs","histories"],"all histories of approve, revoke, transfer, lock, burn over all role subsets, delegates and signers",
 SBF+"The role set is a function of the entire history of grants and revocations.",
 [A+"approve.rs",A+"revoke.rs",T+"state/delegate.rs","programs/asset/program/src/utils.rs"],
 [("grant and union of roles",A+"approve.rs"),("revocation",A+"revoke.rs"),("role bit mask",T+"state/delegate.rs")])

p("P05","Royalty rules cannot be bypassed",
 "A transfer of an asset carrying a royalty rule succeeds only if the rule holds for the asset, the transfer authority (signer) and the recipient of that transfer; an asset without its own rule that belongs to a group is bound by the group's rule, so the true group account has to be presented. The only exemption from rules is a wallet-to-wallet transfer: the transfer is a top-level instruction (not issued by another program) and both signer and recipient are plain system accounts. A rule that holds never blocks an otherwise valid transfer.",
 ["inputs","histories"],"all constraint trees, all owners/keys of asset, signer and recipient, direct and cross-program calls, asset-level and group-level rules, missing/foreign/fake group accounts",
 SBF+"SBF tests use one allow-list and one deny-list; rules are arbitrary nested constraint trees evaluated on arbitrary accounts.",
 [A+"transfer.rs","programs/asset/program/src/utils.rs",T+"constraints/"],
 [("royalty validation and exemption",A+"transfer.rs"),("constraint evaluation",T+"constraints/")])

p("P06","Constraint trees mean what they say, built or parsed",
 "Evaluating a constraint tree yields the boolean of its definition: conjunction, disjunction and negation with their usual meaning (an empty conjunction passes, an empty disjunction fails), the empty constraint passes, an ownership constraint passes exactly when the designated account holds data and is owned by a listed program, and a key constraint exactly when the designated account's address is listed. A tree assembled with the builders, read back from its bytes, re-encoded and nested inside a royalty extension evaluates identically and re-encodes to the same bytes. Truncated or malformed rules are refused rather than evaluated as passing.",
 ["inputs"],"all constraint trees (any nesting, width and key lists), all account configurations, all truncations and tag corruptions of their encoding",
 "Unit tests check the construction of a few fixed trees and a handful of evaluations; the claim is over every tree and every account assignment.",
 [T+"constraints/and.rs",T+"constraints/or.rs",T+"constraints/not.rs",T+"constraints/owned_by.rs",T+"constraints/pubkey_match.rs",T+"constraints/mod.rs",T+"extensions/royalties.rs"],
 [("evaluation","ConstraintXxx::assert in "+T+"constraints/"),("parsing","FromBytes/ConstraintFactory in "+T+"constraints/mod.rs"),("builders",T+"constraints/*Builder")],
 None,["result of evaluating parsed constraints against account contexts; bytes produced by builders"])

p("P07","Token standards keep their promises for the asset's whole life",
 "The standard chosen at creation never changes. A soulbound asset never changes owner; an asset is managed exactly when it carries a manager and is a proxied asset exactly when it carries proxy data whose declared program and seeds derive the asset's own address, neither of which can later be added, removed or re-derived; a proxied asset takes part as the subject of an instruction only with its own signature. Creation with any other combination is refused, and every valid combination is accepted.",
 ["inputs","histories"],"all creation arguments, standards and extension sets, and all later histories",
 SBF+"The mutual dependencies standard/extension must hold after every history, on every path that can add or remove extensions.",
 [A+"create.rs",A+"update.rs",A+"remove.rs",A+"transfer.rs",A+"mod.rs"],
 [("standard/extension validation",A+"create.rs"),("proxied asset must sign",A+"mod.rs"),("refuse to add/remove manager and proxy",A+"update.rs, remove.rs")])

p("P08","A group's recorded size always equals its number of members",
 "After any history the size stored in a group equals the number of existing assets that name that group, and it never exceeds the group's maximum when one is set. Joining a full group is refused, the maximum can never be set below the current size, and the size cannot be set by any argument. A group that still has members can neither be burned nor lose its grouping data.",
 ["inputs","histories"],"all histories of create-into-group, group, ungroup, burn, update, remove, including the same account passed in several roles and nested groups",
 SBF+"It is a global conservation law over whole histories and several accounts.",
 [A+"group.rs",A+"ungroup.rs",A+"create.rs",A+"burn.rs",A+"update.rs",A+"remove.rs",T+"extensions/grouping.rs"],
 [("increment/decrement and max check",A+"group.rs, ungroup.rs, create.rs, burn.rs"),("size preserved on update",T+"extensions/grouping.rs: on_update")],
 [("size","number of members","Grouping extension bytes 0..8"),("max_size","0 = unlimited","Grouping extension bytes 8..16")])

p("P09","Group membership changes only with the group's consent",
 "An asset joins a group only when the group's authority or its grouping delegate signs, the asset and the group have the same authority, the asset is not already in a group, and the account presented really is a created group; it leaves only when the authority or grouping delegate of the very group it belongs to signs, or by being burned. When these hold (and the group is not full) the change is accepted and only the membership and the group size change. No other instruction changes which group an asset belongs to.",
 ["inputs","histories"],"all combinations of asset, group, authority and delegate accounts and signatures; all histories",
 SBF+"SBF tests sample one wrong authority; forged groups, wrong groups, swapped roles and delegates are unbounded combinations.",
 [A+"group.rs",A+"ungroup.rs",A+"create.rs",T+"extensions/grouping.rs"],
 [("authorisation of join/leave",A+"group.rs, ungroup.rs, create.rs")],
 [("group","group the asset belongs to","asset header bytes 36..68")])

p("P10","Only the authority changes an asset's content, and only while it is mutable",
 "An asset's name, mutability and extensions change only through an update or removal signed by its current authority while the asset is mutable (besides the creator's own verification mark and a group's member count); a valid such request is applied exactly as asked. Once immutable, an asset stays immutable and its name and extension set never change again. The authority itself changes only when both the current and the new authority sign the handover of a mutable asset, and resizing needs the current authority's signature on a mutable asset.",
 ["inputs","histories"],"all histories and all signers, for mutable and immutable assets; all update arguments",
 SBF+"Immutability is a claim about all continuations; authorisation about all signer/account combinations.",
 [A+"update.rs",A+"remove.rs",A+"handover.rs",A+"resize.rs"],
 [("authority and mutability checks",A+"update.rs, remove.rs, resize.rs"),("two-party handover",A+"handover.rs")],
 [("mutable","content can change","asset header byte 3"),("authority","update authority","asset header bytes 68..100")])

p("P11","Stored extensions always form one well-formed chain and look-ups agree with it",
 "After any accepted instruction, the extensions stored in an asset or unfinished account form a contiguous chain that starts right after the base data, each entry's recorded end being aligned, equal to the start of the next one and within the account, with no type appearing twice and no unknown type. Looking up an extension by type, or the first or last one, returns exactly that entry's bytes, for reading and for in-place modification, and reports absence for all others.",
 ["inputs","histories"],"all histories of create, allocate, write, update, remove, resize with all extension types and lengths; all lookups on any account so produced",
 SBF+"Chain integrity depends on arbitrary interleavings of growing, shrinking and removing in the middle.",
 [T+"state/asset.rs",T+"extensions/mod.rs",A+"allocate.rs",A+"write.rs",A+"update.rs",A+"remove.rs"],
 [("chain walk",T+"state/asset.rs: get/contains/first/last/get_extensions"),("boundary maintenance",A+"allocate.rs, update.rs, remove.rs")])

p("P12","Changing one part of an asset preserves everything else, byte for byte",
 "When an extension is updated, added or removed, or an account is trimmed or extended, every other extension keeps its type, its length, its exact data and its order, and every base field not named by the instruction keeps its value. The changed extension holds exactly the data supplied (except for the fields the program protects), whether it arrived inline or as the first extension of a separately prepared buffer account. Trimming and extending never lose extension data.",
 ["inputs","histories"],"all positions, sizes (growing, shrinking, unaligned, zero) and orders of extensions; inline and buffered updates; all histories",
 SBF+"Needs every relative position/size combination, not one sample.",
 [A+"update.rs",A+"remove.rs",A+"resize.rs"],
 [("in-place shift of following extensions",A+"update.rs, remove.rs"),("trim/extend",A+"resize.rs")])

p("P13","Piecewise assembly yields the same asset as creating it in one go",
 "An asset whose extensions were added one at a time and whose data was written in any sequence of chunks ends up with the same fields and the same extension contents (their order aside) as the asset created with the same extensions in a single instruction. While an extension is still missing data nothing further can be started and the asset cannot be created, data beyond the announced length is refused, and each extension type can be added only once. Only the account being assembled can authorise additions to it, and only before it has been created.",
 ["inputs","histories"],"all extension lists, all chunkings, append and overwrite, all interleavings with other instructions and with failed attempts",
 SBF+"Equivalence quantifies over all chunkings and orders.",
 [A+"allocate.rs",A+"write.rs",A+"create.rs"],
 [("announce extension",A+"allocate.rs"),("append/overwrite data",A+"write.rs"),("finalise",A+"create.rs")])

p("P14","A creator is marked verified only with that creator's consent; shares total 100",
 "Every stored creator list has shares adding up to exactly 100. A creator becomes verified only by signing a verification themselves, or by being the asset's authority when its list is first attached or it is first added to the list; it becomes unverified only by signing an un-verification, and an update can neither forge a verification nor drop or unverify a verified creator. Verifying changes only that creator's mark.",
 ["inputs","histories"],"all creator lists (any length, duplicates, shares wrapping around), all update paths (inline and buffered), all verify/unverify sequences",
 SBF+"Unit tests build one list; forging attempts come in unbounded variety.",
 [T+"extensions/creators.rs",A+"verify.rs",A+"unverify.rs",A+"update.rs",A+"create.rs"],
 [("on_create/on_update",T+"extensions/creators.rs"),("verify/unverify",A+"verify.rs, unverify.rs")],
 [("verified","per-creator mark","Creators extension, byte 32 of each 34-byte entry")])

p("P15","Malformed extension data never ends up in an asset, on any path",
 "The extension data of a created asset is well-formed for its type, whichever path it came by (creation, piecewise assembly, inline update, buffered update): creators are whole entries, royalty basis points are at most 10000 with a complete rule, a grouping starts with zero members, manager data is complete and proxy data has exactly its size, attribute/link/metadata/blob/property encodings are complete. Ill-formed data is refused before it becomes part of an asset, and well-formed data is always accepted.",
 ["inputs"],"all byte strings as data of every extension type, on every path",
 SBF+"Unit tests only use builder output; the claim is about arbitrary attacker-supplied bytes.",
 [T+"extensions/mod.rs",T+"extensions/",A+"create.rs",A+"write.rs",A+"update.rs","programs/asset/program/src/utils.rs"],
 [("on_create/on_update dispatch",T+"extensions/mod.rs"),("validation at every storing site",A+"create.rs, write.rs, update.rs")])

p("P16","Lamports are conserved, rent is funded by the payer, excess is refunded",
 "No instruction creates or destroys lamports, takes them from an account that did not sign as payer, or leaves a live asset below the rent-exempt minimum for its size. Growing an account charges the payer exactly what is needed to reach that minimum; shrinking or removing data refunds exactly the excess over it to the designated account; burning or closing an account refunds all of it.",
 ["inputs","histories"],"all histories, sizes, pre-existing balances and payer/recipient choices (including aliasing)",
 SBF+"Balance accounting over every size change and balance is not sampled by any stable test.",
 ["programs/asset/program/src/utils.rs",A+"create.rs",A+"allocate.rs",A+"write.rs",A+"update.rs",A+"remove.rs",A+"resize.rs",A+"burn.rs",A+"close.rs"],
 [("resize and fund/refund","programs/asset/program/src/utils.rs: resize"),("close","programs/asset/program/src/utils.rs: close_program_account")])

p("P17","An instruction changes nothing but the accounts and fields it is about",
 "An accepted instruction modifies only the accounts it is documented to modify and, within them, only the documented fields; every other account passed along, including additional assets, keeps its data, owner and (beyond the documented refunds and payments) lamports. A refused instruction leaves no trace. Passing the same account in several positions never yields an effect that separate accounts could not have.",
 ["inputs","histories"],"all instructions with arbitrary extra, aliased and read-only accounts",
 SBF+"Frame conditions must hold for every account list.",
 [A+"mod.rs","programs/asset/program/src/instruction.rs",A],
 [("account checks per instruction",A),("read-only/ownership rules","runtime rules applied by the monitor's SVM")])

p("P18","Accounts are initialised once and never mistaken for something else",
 "Creation is accepted only on a fresh account or a program-owned, not yet created one, with that account's signature; a created asset can never be re-created, re-assembled, closed as a buffer or used as an update buffer. Every instruction on an asset is refused when the account is not owned by the asset program, is empty, or is not a created asset, and system/program accounts presented must be the genuine ones. Unknown instruction tags, truncated arguments and missing accounts are refused.",
 ["inputs","histories"],"all account kinds (foreign-owned look-alikes, buffers, burned accounts, empty) in all positions of all instructions; all instruction byte strings",
 SBF+"Type confusion lives in combinations nobody writes tests for.",
 [A+"create.rs","programs/asset/program/src/instruction.rs",A,"programs/asset/program/src/macros"],
 [("ownership/discriminator checks",A),("instruction decoding","programs/asset/program/src/instruction.rs")])

p("P20","Extension values survive encoding and decoding",
 "For every extension type, the bytes produced by its builder, read back through its view, give exactly the values put in, in order, and look-ups by name find exactly the matching entry with its type. Modifying a value in place through the mutable view changes that value and nothing else. The byte layout is fixed: data written earlier (including by versions without the later optional fields) reads back the same. Reading truncated or arbitrary bytes yields a value or a refusal, never a different valid-looking value for the entries that are intact.",
 ["inputs"],"all values accepted by builders (any count, any string up to 255 bytes, all numeric extremes) and all in-place modifications; all truncations",
 "Unit tests round-trip one or two fixed samples per type.",
 [T+"extensions/"],
 [("builders and views",T+"extensions/*.rs"),("property values",T+"extensions/properties.rs")],
 None,["values returned by views over builder output"])

p("P21","No instruction, account data or type operation causes undefined behaviour",
 "Processing any instruction on any accounts reachable by transactions, and building, reading and modifying any extension or constraint, never reads or writes outside the memory it was given, never forms misaligned or invalid values and never loops forever. Hostile input ends in a refusal or an abort of that transaction only.",
 ["inputs","histories"],"all instruction bytes, account lists and account contents reachable through transactions; all uses of the public type API",
 "Tests never look at memory accesses; undefined behaviour passes silently.",
 ["programs/asset/program/src/","programs/asset/types/src/","programs/bridge/src/","programs/proxy/src/"],
 [("slice bounds and pod casts",T),("raw account parsing and resize","programs/asset/program/src/")],
 None,["AddressSanitizer and Miri reports, bounds-checked memory syscalls, watchdog"])

p("P22","Clients, interface and program agree on every encoding",
 "For every instruction and all arguments, the Rust clients of the asset and bridge programs, the instruction interface crate and the programs agree: every way of building an instruction (struct, builder, CPI struct, CPI builder) gives the same tag, argument encoding, account order, signer and writable flags and placeholder for absent accounts, which the program accepts and carries out as documented (the interface crate additionally lets the asset sign). Account bytes written by the program decode in the client to the same owner, authority, group, delegate and roles, name, standard, state, mutability and extension list and values. The interface dispatcher and decoder recognise exactly the same instructions as the program, and error codes decode to the same errors.",
 ["inputs"],"all instructions, all argument values, all presence patterns of optional accounts; all asset states",
 "The client tests that would compare them need the SBF runtime and do not run in the stable suite.",
 ["clients/rust/asset/src/generated/","clients/rust/asset/src/impls.rs","clients/rust/asset/src/hooked/","clients/rust/bridge/src/generated/","programs/asset/interface/src/","programs/asset/program/src/instruction.rs"],
 [("instruction encoders","clients/rust/asset/src/generated/instructions, programs/asset/interface/src/generated/instructions"),("account decoder","clients/rust/asset/src/impls.rs, generated/accounts")],
 None,["encoded instructions, decoded accounts, effect of client-built transactions on the program"])

p("P23","The mint helper always produces transactions that mint the asset asked for",
 "For any asset description (name, standard, mutability, extensions of any size, strings up to 255 bytes), the instruction sequence returned by the mint helper, executed in order, succeeds and yields exactly that asset. Each instruction stays small enough for a transaction packet. Extensions described in JSON decode to the values described. The helper that allocates and writes an extension from within another program likewise yields exactly the extension given.",
 ["inputs"],"all extension lists and data sizes, in particular sizes around the chunk limits",
 "The test for it needs the SBF runtime; the chunk boundary cases are unbounded.",
 ["clients/rust/asset/src/mint.rs","clients/rust/asset/src/impls.rs",T+"extensions/json"],
 [("chunking","clients/rust/asset/src/mint.rs"),("size pre-computation","clients/rust/asset/src/impls.rs")],
 None,["execution of the returned instructions on the real program"])

p("P24","Proxied assets obey only their owner, delegate and proxy authority",
 "The proxy program creates an asset at the address derived from the signed stub, owned by the given owner, and lets it be transferred only by its owner or delegate; every completed transfer raises its transfer counter by exactly one and records the time, and leaves the other contents intact. Only the proxy authority can update it, and nobody can use the proxy program's signature over the asset for anything else: handing over, removing data, resizing or draining it. Other instructions forwarded through it have the same authorisation as on an ordinary asset.",
 ["inputs","histories"],"all instructions and account lists sent to the proxy program, all histories",
 SBF+"The privilege of signing for the asset must be safe for every forwarded instruction and account list.",
 ["programs/proxy/src/","programs/asset/interface/src/processor.rs"],
 [("proxy instructions","programs/proxy/src/processor"),("forwarding with the asset's signature","programs/asset/interface/src/processor.rs")])

p("P25","A bridged token exists on exactly one side at a time",
 "As long as nobody sends the token or the asset to the vault outside the bridge, the original token sits in the bridge's custody (a token account of the vault) exactly when the bridged asset is outside it, and vice versa: each bridge operation moves one to the caller's counterparty and takes the other in, atomically, and requires the signature of whoever gives up the one. The vault's recorded state always matches where the two really are. An operation with accounts that do not belong to the same mint is refused.",
 ["inputs","histories"],"all histories of bridge operations and failures of the inner token or asset transfer; all account substitutions",
 SBF+"Exclusivity is an invariant over whole histories with faults in the middle of the operation.",
 ["programs/bridge/src/processor/bridge.rs","programs/bridge/src/state.rs"],
 [("state flip and the two transfers","programs/bridge/src/processor/bridge.rs")],
 [("vault state","idle: original outside, asset inside; active: the opposite","vault account byte 1")])

p("P26","A bridge asset faithfully represents its token and needs the proper consent",
 "A bridge asset can be created only once per mint, only for a genuine non-fungible token whose metadata belongs to that mint, with the update authority's signature or, for a token of a verified collection, once the collection itself has been bridged. Name, symbol, link and creators with shares are carried over exactly, and so is the royalty of a programmable collection; the asset starts in the vault's custody with the token's update authority as authority, at the addresses derived from the mint.",
 ["inputs"],"all token metadata contents, all account substitutions and signer sets",
 SBF+"Metadata contents and account substitutions are unbounded.",
 ["programs/bridge/src/processor/create.rs"],
 [("metadata checks and asset creation","programs/bridge/src/processor/create.rs")])

p("P27","An embedded interface description comes back intact from the program binary",
 "For every interface description embedded in a program binary, extracting it returns the same type and the same content, wherever the sections lie in the binary. Compressing a description for embedding loses nothing of it, and the asset program carries its published description. A binary without a description, or with damaged sections, yields an error, not a crash or a wrong description.",
 ["inputs"],"all descriptions and all binary layouts, truncations and corruptions",
 "Only a smoke path is exercised by tests; binaries and descriptions are unbounded.",
 ["include-idl/src/lib.rs","include-idl/src/parse.rs","include-idl/src/shrink.rs","include-idl-cli/src/main.rs"],
 [("compress and embed","include-idl/src/lib.rs"),("extract","include-idl/src/parse.rs")],
 None,["round trip over synthesised ELF binaries"])

p("P28","The JavaScript clients build the transactions the programs expect",
 "For all arguments, every instruction built by the JavaScript clients (asset, bridge, proxy) is what the program expects: address, accounts in order with the signer and writable flags, defaults for accounts left out (identity, payer, system program, derived addresses), and data that the program decodes to the same values. With a proxy given, the instruction goes to the proxy with the asset program passed along, and nothing else does. The helpers (mint, initialize, write, updateWithBuffer), sent in order, leave exactly the asset or extension described, whatever the sizes and chunk size, each transaction signed by all who must and within the packet limit when the payer pays the fees, and no buffer left behind.",
 ["inputs"],"all instructions, arguments, presence patterns, extension contents and sizes, chunk sizes",
 "The JavaScript tests need a validator and network; contents, sizes and presence patterns are unbounded.",
 ["clients/js/asset/src","clients/js/bridge/src","clients/js/proxy/src"],
 [("generated instructions","clients/js/asset/src/generated/instructions"),("chunked helpers","clients/js/asset/src/updateWithBuffer.ts")],
 None,["execution of what the clients build on the real programs"])

p("P29","The JavaScript clients read accounts as the programs wrote them",
 "Every account the asset program can leave behind (any header, extensions of every type and of older layouts, unknown or spare bytes at the end) is decoded by the JavaScript client without an error to the values stored, extension by extension and property by property; fetching a list returns them in order and tells missing accounts from present ones. Vaults, derived addresses, error codes and program addresses agree with the programs, and a query by a field selects exactly the accounts with that value.",
 ["inputs","histories"],"all reachable accounts, all query fields and values",
 "Reachable accounts are unbounded and the JavaScript tests do not run here.",
 ["clients/js/asset/src/hooked","clients/js/asset/src/extensions","clients/js/asset/src/generated","clients/js/bridge/src","clients/js/proxy/src"],
 [("account decoder","clients/js/asset/src/hooked/internalAssetAccountData.ts")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
