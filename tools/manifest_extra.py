
TECH["P24"]="runtime monitoring: real proxy and asset programs on an in-process SVM, every transaction judged online against reference semantics, plus shadow counters over the history"
TECH["P25"]="runtime monitoring: real bridge and asset programs on an in-process SVM with a token-metadata stand-in, custody invariant checked after every transaction and each one judged against reference semantics"
TECH["P26"]="runtime monitoring: real bridge and asset programs on an in-process SVM, created assets compared with the token's metadata"
for _p in ("P24","P25","P26"):
    NOTE[_p]="random hostile histories with substituted, forged and mutated accounts; complete only over the situations listed in the evidence"

TECH["P11"]+="; plus a monitor on the type library's look-ups over generated account data"
TECH["P06"]="runtime monitoring: real constraint builders, parsers and evaluation run on generated and damaged trees, each result compared with an independent evaluator and encoder"
NOTE["P06"]="random trees (any nesting and width), account assignments, truncations and corruptions; complete only over the situations listed in the evidence"
TECH["P20"]="runtime monitoring: real extension builders and views run on generated values, raw layouts and hostile bytes, each result compared with independent codecs"
NOTE["P20"]="random values, sizes and in-place edits; complete only over the situations listed in the evidence"

TECH["P21"]="sanitizers: AddressSanitizer and debug assertions under the hostile transaction and type workloads, Miri on one recorded transaction per distinct situation and on type library cases, bounds monitors on account memory, non-termination watchdog"
NOTE["P21"]="native hostile histories, their distinct situations re-run under the interpreter; complete only over what was executed"

TECH["P22"]="runtime monitoring: instructions built in every form by the real clients and the interface crate compared with the documented layout and executed on the real program on an in-process SVM, where reference semantics judge the effect; accounts the program wrote decoded with the real client and compared with an independent decoder"
NOTE["P22"]="all instructions and forms, random arguments, presence patterns and asset states; complete only over the situations listed in the evidence"
TECH["P23"]="runtime monitoring: instruction sequences returned by the real mint helper executed on the real program on an in-process SVM, the resulting account compared with the description, packet sizes measured"
NOTE["P23"]="random descriptions with extension sizes concentrated around the chunk limits; complete only over the situations listed in the evidence"
TECH["P27"]="runtime monitoring: descriptions compressed, embedded in synthesised program binaries and extracted by the real library and command-line tool, intact and damaged, compared with an independent reader"
NOTE["P27"]="random descriptions, section layouts, truncations and corruptions; binaries are synthesised because no SBF linker is installed; complete only over the situations listed in the evidence"

TECH["P28"]="runtime monitoring: instructions and transaction groups built by the real JavaScript clients compared with the documented layout and executed on the real programs on an in-process SVM, where reference semantics give the expected account"
NOTE["P28"]="random arguments, presence patterns, sizes around the chunk limits; the umi library is a stand-in because it is not installed; complete only over the situations listed in the evidence"
TECH["P29"]="runtime monitoring: accounts written by the real program decoded, fetched and queried with the real JavaScript clients, compared with an independent decoder"
NOTE["P29"]="accounts from random histories of the real program and damaged ones; the umi library is a stand-in because it is not installed; complete only over the situations listed in the evidence"
