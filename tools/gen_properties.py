#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept so that the statements are edited in one readable place)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

prop("C01", "Successful funding balances the transaction and pays the fee rate",
 "When a transaction is funded successfully from a list of spendable outputs, its inputs cover its outputs plus a fee of at least the fee rate times its estimated signed size. "
 "What is paid beyond that fee is never more than an amount too small to be worth giving back as change (the change output's dust limit or the cost of creating and later spending it) plus, when the fee rate is not a whole number, rounding of at most one satoshi per input and output.",
 ["inputs", "configurations", "histories"],
 "every fee rate and dust rate, every mix of existing inputs and outputs (with or without a change destination or a remainder output), every list of spendable outputs including more than 252 of them and values at the exact funding threshold, and repeated funding calls",
 "TestAddFunding checks four hand-written totals against a 5% band around the fee; thresholds where change appears, count-prefix boundaries (253 inputs), zero dust rates and mixed script types are never reached.",
 ["inputs.go", "fees.go", "outputs.go"],
 [("AddFunding", "inputs.go:AddFunding"), ("CalculateFee/AdjustFee", "fees.go:AdjustFee"), ("EstimatedSize", "fees.go:EstimatedSize")],
 [("MsgTx.TxOut[i].Value with Outputs[i].IsRemainder", "the change that absorbs what is left", "models.go:OutputSupplement")],
 ["after every AddFunding call: inputs, outputs, supplements, error"])

prop("C02", "Funding takes offered outputs in order and leaves payments alone",
 "Funding appends only offered spendable outputs, in the offered order, skipping those already being spent, and stops as soon as the transaction is funded; each appended input carries the offered locking script, value and key identifier. "
 "Existing inputs and every output that is not marked as the remainder keep their position, script, value and markings. "
 "At most one output is added, and it pays the configured change destination, is marked as the remainder and carries the change key identifier.",
 ["inputs", "histories", "configurations"],
 "every list of offered outputs with duplicates (within the list and with existing inputs), every prior builder state, success and failure outcomes, plain and break-change funding",
 "Tests look at the number of inputs and at one or two output scripts on a handful of fixed UTXO lists without duplicates; order, supplements and untouched outputs are not compared.",
 ["inputs.go", "fees.go", "outputs.go"],
 [("AddInputUTXO duplicate check", "inputs.go:AddInputUTXO"), ("funding loop", "inputs.go:AddFunding"), ("change output creation", "inputs.go:AddFunding"), ("change creation when already funded", "fees.go:AdjustFee")],
 [("Inputs/MsgTx.TxIn", "inputs and what they spend", "txbuilder.go:TxBuilder")],
 ["before and after every AddFunding / AddFundingBreakChange call"])

prop("C03", "Funding fails for lack of value only when value is really lacking",
 "At a positive fee rate, when every offered output can be spent by a supported script, funding reports insufficient value only if no leading part of the offered list, added to what the transaction already spends, covers the outputs plus the fee (plus one change output when the change is to be broken up), up to one satoshi of rounding per input and output when the fee rate is not a whole number. "
 "The only other failure is the request for a change destination, given only when there is neither a change destination nor a remainder output and more is left over than change is worth.",
 ["inputs", "configurations", "histories"],
 "totals placed at, just below and just above the exact threshold, transactions that are already funded by any excess, zero dust rates, more than 252 inputs, retries after a failed attempt",
 "Existing tests fund with far more than is needed; no test exercises a total within a few satoshis of the threshold or an already funded builder with a small excess.",
 ["inputs.go", "fees.go"],
 [("already-funded test", "inputs.go:AddFunding, inputs.go:AddFundingBreakChange"), ("needed funding arithmetic", "inputs.go:AddFunding, inputs.go:AddFundingBreakChange"), ("change below minimum", "outputs.go:AddOutput")],
 [], ["error returned by every funding call against an exact recomputation"])

prop("C04", "Break-change funding balances and splits change over the given addresses",
 "When funding with change to be broken up succeeds, the inputs cover the outputs plus at least the fee for the estimated signed size, and the excess is at most what is too small to be worth a change output plus rounding. "
 "Every added output pays one of the given change addresses, each used at most once and with its key identifier, exactly one of them is the remainder, and every other one is worth at least nine tenths of the break value; if a remainder output already existed it receives all the change and nothing is added.",
 ["inputs", "configurations", "histories"],
 "every number of change addresses from none (with a remainder output) or one up to enough to cross the 252-output boundary, every break value of at least one satoshi, fee and dust rates, funding thresholds and the library's random choices",
 "Test_AddFundingBreakChange uses 5 addresses, a few break values and one fee rate, and checks the fee within a band; small break values, one address, key identifiers and boundary counts are not reached.",
 ["inputs.go", "break_value.go", "fees.go"],
 [("AddFundingBreakChange", "inputs.go:AddFundingBreakChange"), ("BreakValue", "break_value.go:BreakValue"), ("AddOutputs", "break_value.go:AddOutputs")],
 [], ["before and after every AddFundingBreakChange call"])

prop("C05", "Sending the maximum spends everything offered and pays out all but the fee",
 "When a transaction is set to send the maximum, successful funding spends every offered output exactly once and the remainder output receives exactly the total input value minus the other outputs and the fee for the estimated signed size. "
 "It fails for insufficient value exactly when the total input value is below the other outputs plus that fee.",
 ["inputs", "configurations", "histories"],
 "any number of offered outputs (including none with inputs already present, duplicates, and more than 252), any other outputs, any fee rate, totals at the threshold, plain and break-change funding",
 "TestSendMax tries three fixed UTXO sets and compares the fee to a 5% band.",
 ["inputs.go", "outputs.go", "fees.go"],
 [("SendMax branch of funding", "inputs.go:AddFunding, inputs.go:AddFundingBreakChange"), ("AddMaxOutput/AddMaxScriptOutput", "outputs.go"), ("CalculateFee", "fees.go:CalculateFee")],
 [("SendMax", "spend all offered outputs", "txbuilder.go:TxBuilder")],
 ["after every funding call of a send-max builder"])

prop("C06", "A successfully signed transaction validly spends every input",
 "When signing succeeds, the unlocking script of every input satisfies the locking script it spends for the transaction exactly as it is left, including any fee adjustment made while signing. "
 "This holds for pay-to-public-key-hash, pay-to-public-key and multi-signature public-key-hash inputs in any mix, with keys supplied in any order and together with unrelated keys. Every signature is for the whole transaction, so that no input or output can be changed without it becoming invalid.",
 ["inputs", "configurations", "histories"],
 "every mix and number of supported locking scripts (multi-signature with any threshold and number of signers, also above 16), key orders, key supersets, fee adjustments that add, change or remove the change output during signing, and signing again after an edit",
 "The tests never verify a produced signature against the final transaction except for one fixed vector; multi-signature inputs are only checked for size.",
 ["sign.go", "sig_hash.go", "fees.go"],
 [("Sign/signInput", "sign.go:Sign, sign.go:signInput"), ("SignOnly", "sign.go:SignOnly"), ("SignatureHash", "sig_hash.go:SignatureHash"), ("cache reset after fee adjustment", "sign.go:Sign")],
 [("SigHashCache", "hash fragments of the transaction being signed", "sig_hash.go:SigHashCache")],
 ["final transaction bytes and spent outputs after every Sign / SignOnly call"])

prop("C07", "Signing sets the fee to the rate and changes nothing but change",
 "When full signing succeeds, the fee is at least the fee rate times the final size in bytes, and exceeds it by no more than the larger of 5% and 3 satoshis unless there is no change output, in which case by no more than an amount too small to be worth change. "
 "Outpoints, sequences, other outputs, version and lock time stay as they were; only the remainder's value may change, or one change output may appear or (if the library added it for the fee) disappear. "
 "It reports insufficient value only if the inputs cannot cover the non-remainder outputs, the fee and the minimum worth keeping in an existing remainder output.",
 ["inputs", "configurations", "histories"],
 "any input value relative to the outputs (short, exact, slightly over, far over), with or without remainder output, change destination and change output added for the fee, fee rates from tiny to large, repeated signing",
 "Tests check the fee after signing within 5% on a few fixed layouts with a change output of ample value.",
 ["sign.go", "fees.go"],
 [("fee adjustment loop", "sign.go:Sign"), ("AdjustFee", "fees.go:AdjustFee")],
 [("IsRemainder / added-for-fee marking", "which output absorbs fee adjustments", "models.go:OutputSupplement")],
 ["before and after every Sign call"])

prop("C08", "Partial signing reports missing keys truthfully and can be completed",
 "Signing reports a missing key exactly when some input it had to sign cannot be satisfied with the given keys; the inputs that can be satisfied are validly signed, the others are left alone, and the keys returned are exactly the ones used, each once. "
 "Signing without fee adjustment touches nothing but the unlocking scripts of inputs that had none. "
 "After several holders have signed in turn the transaction is completely and validly signed and its fee is still at least the fee rate times its final size.",
 ["inputs", "histories"],
 "every partition of the required keys over any sequence of signers, any order, multi-signature inputs whose signers are incomplete, inputs already signed by others, keys that are nearly but not quite the ones named",
 "No test signs with missing keys, checks the returned keys or completes a transaction with a second signer.",
 ["sign.go", "fees.go"],
 [("Sign/SignOnly missing key handling", "sign.go:Sign, sign.go:SignOnly"), ("appendKeys", "sign.go:appendKeys"), ("signInput", "sign.go:signInput")],
 [], ["returned keys, error and transaction after every signing step"])

prop("C09", "Signing one input demands the right key, script type and position",
 "Signing a single pay-to-public-key-hash input succeeds exactly when the position exists, the spent script is pay-to-public-key-hash and the key is the one it names, and then yields a valid unlocking script, signed for the whole transaction, on that input alone. "
 "Otherwise it reports the matching error (wrong key, wrong script type, or position out of range) and changes nothing.",
 ["inputs", "histories"],
 "every supported and unsupported script type, right, wrong and related keys, keys whose hash differs from the one named in a single bit, positions inside and past the end, shared or fresh hash caches, any order over the inputs of a transaction",
 "Tests only take the success path on one-input transactions.",
 ["sign.go"],
 [("SignP2PKHInput", "sign.go:SignP2PKHInput"), ("InputSignature", "sign.go:InputSignature")],
 [], ["before and after every SignP2PKHInput call"])

prop("C10", "The estimated size is a tight upper bound on the signed size",
 "For a transaction whose inputs all use supported scripts, the size estimated before signing is never below the size after signing and exceeds it by at most a few bytes per signature. "
 "For inputs known only by embedded unlocking data the estimate uses the size stated there.",
 ["inputs", "configurations"],
 "any mix of inputs (multi-signature thresholds whose unlocking script crosses 252 bytes included) and outputs, input and output counts across the one-byte/three-byte count boundary, scripts across the same boundary",
 "Size tests cover one single-input layout per type; counts above 252 and mixed layouts are not signed and measured.",
 ["fees.go", "sign.go"],
 [("UnlockingScriptSize/InputSize", "fees.go"), ("EstimatedSize", "fees.go:EstimatedSize")],
 [], ["estimate before, serialized size after signing"])

prop("C11", "Size, fee and dust figures follow the wire format and the rates exactly",
 "The size, fee and dust figures given for an output, an input, an address, a spendable output or a whole transaction equal those computed from the wire encoding: sizes count the script and its length prefix, fees are the size times the rate rounded up, and the dust limit is three times the rate times the output size plus 148 rounded down, at least 1. "
 "Total input value, output value with or without change, fee and recoverable remainder are the exact sums over the transaction.",
 ["inputs", "configurations"],
 "script lengths across every length-prefix boundary (252/253, 65535/65536), all supported script types, counts across the prefix boundary, all rates, values up to the total coin supply, inputs described by embedded unlocking data, inputs of which only the script or only the value is known",
 "Tests check three or four constants for the two most common script types.",
 ["fees.go", "inputs.go", "outputs.go"],
 [("VarIntSerializeSize, InputSize, OutputSize, EstimatedFeeValue", "fees.go"), ("DustLimit*, OutputFeeAndDust*, OutputTotalCost", "outputs.go"), ("UTXOFee, LockingScriptInputFee, LockingScriptOutputFee, AddressOutputFee", "inputs.go")],
 [], ["return values"])

prop("C12", "Every edit acts on exactly the named element and keeps data aligned",
 "After any sequence of adding, inserting, updating and removing inputs and outputs, changing output values or scripts, setting change and randomizing, every input still carries the outpoint, locking script, value and key identifier it was given and every output its script, value, key identifier and markings, all in the expected order. "
 "Replacing a dust amount, adding to or subtracting from a value, and marking matching outputs as change follow their documented arithmetic, and no value ever wraps around.",
 ["histories", "inputs"],
 "arbitrary interleavings of all editing operations at every position, on new builders and on ones made from existing transactions, with repeated scripts, dust outputs, values below and above the dust limit",
 "No test runs more than one kind of edit on a builder, inserts in the middle, or looks at the supplementary data after an edit.",
 ["inputs.go", "outputs.go", "break_value.go", "txbuilder.go"],
 [("AddInput*, InsertInput, UpdateInputUTXO, RemoveInput", "inputs.go"), ("AddOutput, InsertOutput, RemoveOutput, value edits, SetChangeLockingScript", "outputs.go"), ("AddOutputs, RandomizeOutputs*", "break_value.go")],
 [("Inputs vs MsgTx.TxIn, Outputs vs MsgTx.TxOut", "parallel lists that must stay aligned", "txbuilder.go:TxBuilder")],
 ["full builder state after every edit against an independent model"])

prop("C13", "No builder ever spends the same output twice",
 "Whatever sequence of adding, inserting, updating, removing and funding is applied to a builder, no two of its inputs refer to the same transaction output. "
 "An attempt to add, insert or switch to an output already being spent is refused with the duplicate error, and an output that is not being spent is never refused.",
 ["histories", "inputs"],
 "histories over small sets of outpoints that agree in hash, in index, or in most hash bytes, including re-adding after removal and updating an input to its own outpoint",
 "There is no test for duplicate inputs.",
 ["inputs.go"],
 [("duplicate checks", "inputs.go:AddInputUTXO, UpdateInputUTXO, InsertInput, AddInput"), ("duplicate skipping", "inputs.go:AddFunding, AddFundingBreakChange")],
 [], ["outpoints after every operation; error kind"])

prop("C14", "A refused operation leaves the transaction exactly as it was",
 "When an edit, a fee adjustment or the signing of a single input is refused (duplicate output, value below the minimum, position past the end, too little value to subtract, not enough change for the fee, wrong key), the transaction, its supplementary data and its change settings are exactly what they were before the call. "
 "A position past the end is always refused with an error.",
 ["histories", "inputs"],
 "every refusing operation at every point of any editing history, positions from the end onwards, values around each minimum",
 "Tests hardly exercise refusals and never compare the state afterwards.",
 ["inputs.go", "outputs.go", "fees.go", "sign.go"],
 [("range and dust checks before mutation", "inputs.go, outputs.go"), ("AdjustFee", "fees.go:AdjustFee")],
 [], ["state before and after every call that returns an error"])

prop("C15", "A copy of a builder is equal and shares nothing with the original",
 "A copy has the same content and behaves the same under any further operation as the original would. "
 "No operation on one of them, including in-place changes to scripts, ever shows in the other.",
 ["histories", "inputs", "schedules"],
 "copies taken at any point of any history (with fee-added change outputs, signed inputs, identifiers), followed by any operations or raw byte writes on either side, also concurrently",
 "Copying is not tested at all.",
 ["txbuilder.go", "models.go"],
 [("Copy of builder and supplements", "txbuilder.go:Copy"), ("CopyString", "txbuilder.go:CopyString")],
 [("added-for-fee marking", "must survive copying so that fee adjustment behaves the same", "models.go:OutputSupplement")],
 ["state of both sides after every operation on one of them; race detector"])

prop("C16", "Signature hashes follow the network's replay-protected digest",
 "For the standard signature hash types (all, none, single, each with or without anyone-can-pay) the signature hash, its preimage and the signature made from it are byte for byte those of the replay-protected digest algorithm applied to the transaction, the spent value and the locking script after its last code separator exactly as written. "
 "An input position past the end, or a locking script that cannot be read because it ends inside of a push, is refused with an error.",
 ["inputs", "configurations"],
 "any transaction shape (versions, lock times, sequences, counts across 252, single with no matching output, outputs without script or value), script contents including code separators, non-minimal pushes and lengths across prefix boundaries, values, all standard types",
 "Four fixed vectors of two shapes, all with the default hash type, no code separator.",
 ["sig_hash.go", "sign.go"],
 [("writeSignatureHashPreimageBytes", "sig_hash.go"), ("afterOpCodeSeparator", "sig_hash.go"), ("InputSignature", "sign.go")],
 [], ["preimage bytes, hash and signature against an independent implementation"])

prop("C17", "Reusing signature hash fragments never changes a signature hash",
 "Computing signature hashes for the inputs of a transaction with one shared cache, in any order and with any mix of hash types, gives the same results as computing each from scratch, provided the cache is cleared (or its output part is cleared, if only outputs changed) after the transaction changes.",
 ["histories", "inputs"],
 "any order of inputs and hash types over one cache, interleaved with transaction changes followed by the matching clear",
 "Tests always start from an empty cache and compute one hash.",
 ["sig_hash.go", "sign.go"],
 [("SigHashCache Clear/ClearOutputs/HashPrevOuts/HashSequence/HashOutputs", "sig_hash.go")],
 [("cached hash fragments", "must reflect the current transaction or be absent", "sig_hash.go:SigHashCache")],
 ["hash values with a shared cache against fresh computation"])

prop("C18", "Breaking a value into outputs loses and creates nothing",
 "Breaking a value over a list of destinations returns outputs that together with the fees for including them (when fees are to be taken out) add up to exactly the value; nothing is returned only if the value is too small for a single output, and every destination is used if there are ten thousand times the break value, and the fees, for each of them. "
 "Each destination is used at most once, with its key identifier, taken from the front of the list; exactly one output is marked as the remainder if that was asked for and none otherwise, and every output but the remainder-carrying one is worth at least nine tenths of the break value.",
 ["inputs", "configurations"],
 "values from zero to the coin supply, break values from 1 satoshi, 1 to several hundred destinations of any script type, some named several times, all rates, both fee modes, both forms (addresses and locking scripts), and the library's random choices",
 "Tests use 5 to 20 pay-to-public-key-hash addresses and large break values; the locking script form, one destination, small break values, markings and identifiers are not tested.",
 ["break_value.go"],
 [("BreakValue", "break_value.go:BreakValue"), ("BreakValueLockingScripts", "break_value.go:BreakValueLockingScripts")],
 [], ["returned outputs"])

prop("C19", "Breaking a quantity returns positive parts that add up to it",
 "Breaking a quantity returns positive parts that add up to exactly that quantity, at most one part more than the requested count (and no fewer than that count when the quantity is ten thousand times the break quantity for each), with at most one part below nine tenths of the break quantity.",
 ["inputs", "configurations"],
 "quantities from zero to large, break quantities and counts from 1 upwards, and the library's random choices",
 "There is no test for it.",
 ["break_value.go"],
 [("BreakQuantity", "break_value.go:BreakQuantity")],
 [], ["returned quantities"])

prop("C20", "Randomizing outputs permutes whole outputs and nothing else",
 "Randomizing the outputs, or those after a given position, yields a permutation of the same outputs in which each keeps its value, script, key identifier, remainder and dust marking and its treatment in later fee adjustments; outputs up to the given position and everything else in the transaction stay as they were. "
 "Every order of the outputs concerned can come up.",
 ["inputs", "histories", "schedules"],
 "any number of outputs including none and one, any position, any markings, repeated randomization, the library's random choices",
 "Tests only compare scripts and values, on outputs that all carry the same markings.",
 ["break_value.go"],
 [("RandomizeOutputs, RandomizeOutputsAfter", "break_value.go")],
 [], ["output/supplement pairs before and after"])

prop("C21", "Building from an existing transaction attaches the right spent outputs",
 "A builder made from an existing transaction carries that transaction unchanged and attaches to each input exactly the script and value (and key identifier, when known) of the output it spends; every output starts without markings, and no two inputs or outputs share their data. "
 "Missing input data is reported exactly when some input's spent output was not supplied (an input that spends nothing lacks nothing), and the builder returned with it still answers queries about what is known.",
 ["inputs", "histories"],
 "transactions with any inputs and outputs, supplied parents in any order with unrelated and repeated ones, several inputs from one parent, indexes past the parent's outputs, offered outputs of the same parent at other indexes, missing parents, the three ways of supplying spent outputs",
 "Tests only build from scratch.",
 ["txbuilder.go"],
 [("NewTxBuilderFromWire, NewTxBuilderFromWireUTXOs, NewTxBuilderFromTransactionWithOutputs", "txbuilder.go"), ("InputOutput", "txbuilder.go:InputOutput")],
 [], ["returned builder and error"])

prop("C22", "The standalone fee calculations agree with the wire format and the builder",
 "The standalone fee calculations give the same sizes and fees as the wire encoding and as the builder's own figures for every supported script type, including the agent transfer type, and report an error for scripts they do not support and for sizes that no transaction can have. "
 "The fee, input value and output value of a transaction are the exact sums, taking value and size from embedded unlocking data where the spent output is unknown.",
 ["inputs", "configurations"],
 "all script types and lengths across prefix boundaries, unknown scripts, counts across 252, rates, transactions with inputs described only by unlocking data",
 "The standalone package has no tests.",
 ["fees/fees.go", "fees.go"],
 [("EstimateSize, EstimateUnlockingSize, OutputTotalCost", "fees/fees.go"), ("InputValue, InputsValue, OutputsValue, Fee", "fees/fees.go"), ("DustLimit*", "fees/fees.go")],
 [], ["return values"])

prop("C23", "Fee adjustment moves value only between the fee and the change",
 "Adjusting the fee by an amount changes the fee by exactly that amount when a remainder output is there to absorb it; lowering the fee without one adds a change output paying for itself, or leaves the fee when too little is left; an increase that leaves too little removes the change output only if the library added it for the fee. "
 "Calculating the fee brings it exactly to the estimate and zeroizing it exactly to zero under the same rule, and no other output or input is touched. "
 "A successful adjustment says that nothing more can be done exactly when it neither altered a remainder's value nor added one.",
 ["inputs", "histories", "configurations"],
 "any current fee including negative ones, any adjustment up or down around each threshold, with and without remainder outputs and change destination, outputs at the 252 boundary, repeated adjustments",
 "Tests look at three low-balance layouts.",
 ["fees.go"],
 [("AdjustFee, CalculateFee, ZeroizeFee", "fees.go")],
 [("added-for-fee marking", "whether the change output may be removed again", "models.go:OutputSupplement")],
 ["state before and after every adjustment"])

prop("C24", "Queries and calculations change neither the transaction nor their arguments",
 "Asking a builder or the library for sizes, fees, values, addresses, hashes, signatures, text or serialized form leaves the builder, the transaction and every argument byte for byte as it was. "
 "Operations that do change the builder leave their arguments (offered outputs, addresses, scripts, keys, parent transactions) unchanged.",
 ["inputs", "histories"],
 "every query and calculation on every kind of script, including scripts that get rewritten internally for estimation, at any point of any history",
 "Tests never compare arguments or state after a query.",
 ["fees.go", "fees/fees.go", "txbuilder.go", "sign.go", "sig_hash.go", "inputs.go", "outputs.go", "print.go"],
 [("copy before removing the verify suffix", "fees.go:UnlockingScriptSize"), ("read-only accessors", "txbuilder.go, fees.go")],
 [], ["deep snapshots of builder and arguments around every call"])

prop("C25", "Independent builders can be used concurrently",
 "Builders that share no data, including copies of one builder, can be funded, edited, signed and queried from different threads at the same time without data races, and each ends in the same state as when the same steps run alone. "
 "Queries on one builder that nobody is changing may also run concurrently.",
 ["schedules", "histories"],
 "interleavings of many concurrent builders over all operations of the library, and of concurrent queries on one builder",
 "All tests are single threaded and the race detector is not used.",
 ["txbuilder.go", "inputs.go", "outputs.go", "sign.go", "sig_hash.go", "fees.go", "break_value.go", "fees/fees.go"],
 [("no shared mutable package state", "all files"), ("deep copy", "txbuilder.go:Copy")],
 [("package level variables", "must be read-only or synchronized", "break_value.go:BreakIncrements")],
 ["race detector reports; final states against sequential runs"])

prop("C26", "Text renderings state the transaction's real figures",
 "The text forms of a builder and of a transaction with its spent outputs state the transaction's identifier, sizes, lock time, each input's outpoint, script and value, each output's exact value and script, markings and key identifiers, and the fee as they are. "
 "Sizes and fees that cannot be known are left out rather than misstated, and the estimated size agrees with the builder's estimate.",
 ["inputs"],
 "any transaction shape, values of up to the coin supply with every satoshi significant, unknown spent outputs, embedded unlocking data, negative fees",
 "The text forms are only logged by tests.",
 ["txbuilder.go", "print.go"],
 [("String", "txbuilder.go:String"), ("TxString", "print.go:TxString")],
 [], ["parsed text against the transaction"])

prop("C27", "The command line tool prints valid transactions doing what was asked",
 "Given a key and spendable outputs obtained from the block explorer, the send command prints a validly signed transaction spending exactly the named outputs, paying the amount to the address and the rest minus the fee at the configured rate back to the key; the chained variant prints the requested number of such transactions each spending the previous one; consolidation spends every listed output to the recipient. "
 "The extended form printed describes the same transactions and spent outputs, and when anything is wrong (bad argument, explorer error, missing output, insufficient value) no transaction is printed.",
 ["inputs", "configurations", "fault_sequences"],
 "any number and value of outpoints, amounts around what is affordable, configured fee rates, networks, explorer failures (error status, malformed or truncated answers, wrong index)",
 "The command line tool has no tests.",
 ["cmd/main.go"],
 [("CreateSend, CreateSends, Consolidate", "cmd/main.go"), ("GetTx, GetUTXOs, httpGet", "cmd/main.go")],
 [], ["standard output of the tool; requests seen by a stand-in explorer"])

prop("C28", "Serialized form and identifier are exactly those of the transaction",
 "The serialized form of a builder is the network encoding of its version, inputs, outputs and lock time, decodes back to the same transaction, and its identifier is the double SHA-256 of those bytes at every moment of any history. "
 "The accessors for counts, single inputs, outputs, spent outputs, addresses, whether an input is signed and whether all are agree with it, and a position past the last input is never reported as signed. "
 "A new builder is an empty version 1 transaction with lock time 0.",
 ["histories", "inputs"],
 "any transaction shape reached by any history, counts and scripts across length-prefix boundaries, signed and unsigned",
 "Tests serialize one fixed transaction.",
 ["txbuilder.go"],
 [("Serialize, TxID, GetMsgTx, Input, Output, InputOutput, InputCount, OutputCount", "txbuilder.go")],
 [], ["bytes against an independent encoder after every step"])

prop("C29", "No locking or unlocking script can crash the library",
 "Whatever bytes locking scripts and unlocking scripts consist of, estimating, funding, querying, printing, signing and fee calculations return a result or an error and never crash, hang, take up memory out of proportion to the scripts or report a negative or absurdly large size. "
 "Scripts that are not of a supported type are never treated as supported.",
 ["inputs"],
 "arbitrary bytes, truncated and mutated forms of every supported script type, thresholds above the number of signers, embedded unlocking data with arbitrary content",
 "Tests only use well formed scripts.",
 ["fees.go", "fees/fees.go", "sign.go", "inputs.go", "print.go", "txbuilder.go"],
 [("script type matching before use", "fees.go:UnlockingScriptSize, sign.go:signInput, fees/fees.go:EstimateUnlockingSize"), ("fallback size for unknown scripts", "fees.go:EstimatedSize")],
 [], ["panics, returned sizes and errors"])

prop("C30", "Unlocking scripts built by hand unlock exactly what they should",
 "An unlocking script assembled from individually made signatures for a pay-to-public-key-hash, pay-to-public-key or multi-signature output unlocks it for any standard hash type if and only if enough of the right signers are included, in whatever combination. "
 "Mismatched numbers of keys and signatures are refused.",
 ["inputs", "configurations"],
 "every threshold and set of present signers, all standard hash types, any input position and transaction shape",
 "There is no test for the assembly of multi-signature unlocking scripts or for hash types other than the default.",
 ["sign.go"],
 [("P2PKHUnlockingScript, P2PKUnlockingScript, P2MultiPKHUnlockingScript, InputSignature", "sign.go")],
 [], ["script evaluation of the assembled scripts"])

prop("C31", "Breaking up a value does not give away the remainder",
 "When the same value or quantity, enough for several parts, is broken up again and again, it comes in more than one part, the remainder, and the output to every destination, turns up at every position among the outputs returned (so does the largest part of a quantity), and the amounts differ from one time to the next. "
 "The same holds for change that is broken up while funding.",
 ["inputs", "histories"],
 "any number of destinations, values, break values and fee modes, repeated calls with the same arguments in one process",
 "Tests judge single results, so a fixed order or a fixed sequence of amounts goes unnoticed.",
 ["break_value.go", "inputs.go"],
 [("random amounts and shuffle", "break_value.go:BreakValue, BreakValueLockingScripts, BreakQuantity"), ("change broken up", "inputs.go:AddFundingBreakChange")],
 [], ["positions and amounts over many repetitions"])

prop("C32", "The tool's readable listing describes the transaction it prints",
 "The readable listing that the command line tool prints with each transaction states that transaction's identifier and lock time, the outputs it spends with their exact values, every output with its exact value in order, and the fee. "
 "Addresses are shown in the form of the configured network and never in that of another one.",
 ["inputs", "configurations"],
 "all commands, any number and value of outputs spent, with every satoshi significant, both networks",
 "The command line tool has no tests.",
 ["cmd/main.go", "txbuilder.go"],
 [("listing", "cmd/main.go:CreateSend, CreateSends, Consolidate"), ("String", "txbuilder.go:String")],
 [], ["standard output of the tool against the decoded transaction"])

prop("C33", "Outputs worth too little are refused, and only those",
 "Adding or inserting an ordinary output is refused with the below-dust error exactly when its value is less than the fee for including it at the builder's fee rate; data outputs, dust outputs and the output that is to receive the maximum are accepted whatever the value given, and a dust output is worth its dust limit. "
 "Replacing a dust amount by one below the dust limit, and lowering an output to below it, are refused; amounts at or above the limit are accepted.",
 ["inputs", "configurations"],
 "values around the fee and around the dust limit, every script type and scripts that look like data but are not, any fee and dust rates, every operation that adds an output or changes its value",
 "Tests use a few amounts far from the thresholds at one rate.",
 ["outputs.go"],
 [("minimum value", "outputs.go:AddOutput, InsertOutput"), ("dust limit", "outputs.go:AddValueToOutput, SubtractValueFromOutput")],
 [], ["result and value after every call against exact thresholds"])

prop("C34", "Whatever the history, successful signing gives a valid transaction",
 "After any history of adding, inserting, updating and removing inputs and outputs, funding, adjusting the fee, randomizing, copying, storing and reading back, and earlier partial or full signing, a successful signing with all keys leaves a transaction in which every input validly unlocks the output it was said to spend, no output is spent twice and the fee is at least the fee rate times the size. "
 "All outputs that are not the remainder stay as they were throughout signing, funding and adjusting the fee, and with all keys given the only reasons for failure are lack of value and the lack of a change destination.",
 ["histories", "inputs"],
 "any order of calls of any length, any mix of supported scripts, rates changed on the way, several signings along one history",
 "Tests sign freshly made transactions; edits after signing and several operations in combination are never exercised.",
 ["sign.go", "inputs.go", "outputs.go", "fees.go", "break_value.go", "txbuilder.go"],
 [("full signing", "sign.go:Sign"), ("supplementary data kept in step", "inputs.go, outputs.go")],
 [("supplementary data of inputs and outputs", "same length and order as in the transaction", "txbuilder.go:TxBuilder")],
 ["signatures, fee and outputs after every successful signing of a history"])

prop("C35", "What cannot be spent or paid to is refused, never passed over",
 "Signing a transaction with an input that spends a script of a type the library cannot sign (and that it would have to sign) never succeeds and reports the script as unsupported rather than a key as missing, and leaves that input alone. "
 "Funding never succeeds with an offered output whose unlocking size cannot be known among the inputs it added, and reports it when it had to take one. "
 "A payment, change, fee or dust request for an address without a script is refused and changes nothing, and so is breaking up change with nowhere to put it.",
 ["inputs", "configurations"],
 "unsupported inputs of every kind at every position, signed by others or not, with all or some of the keys; unknown and data scripts at every position of the offered list for both kinds of funding and for sending the maximum; every call that takes an address",
 "Tests only sign and fund with supported scripts and valid addresses.",
 ["sign.go", "inputs.go", "outputs.go", "break_value.go"],
 [("signing of each script type", "sign.go:Sign, SignOnly"), ("size of each input", "inputs.go:AddFunding, AddFundingBreakChange"), ("addresses", "outputs.go, break_value.go:BreakValue")],
 [], ["error and state after every call"])

prop("C36", "Private keys never leave the hands they were given to",
 "After any signing, successful or not, no private key that was given can be found in the builder, in anything returned other than the caller's own keys, in the text or stored form of the transaction or in an error, and no signature lets a key be worked out from a guessable or repeated secret number. "
 "The command line tool never prints, logs, writes to a file or sends out a valid private key it was given in its place, whether the command succeeds or fails.",
 ["inputs", "fault_sequences"],
 "every way of signing and script type, keys in any number and order, missing and wrong keys, every command of the tool with valid or spoiled other arguments and explorer answers",
 "Tests look at what should be in a result, never at what must not be anywhere in it.",
 ["sign.go", "signature.go", "txbuilder.go", "cmd/main.go"],
 [("signing", "sign.go"), ("commands that take a key", "cmd/main.go")],
 [], ["everything reachable from the builder, results and errors", "output, log, requests and files of the tool process"])

prop("C37", "The way a transaction was put together does not matter",
 "Builders with the same visible content (inputs with what they spend, outputs with their marks and identifiers, rates, change destination) answer every query the same and do the same with every later call, byte for byte, whether the content was added in order, inserted in any order, reached by replacing and removing, or read from a stored transaction and the outputs it spends. "
 "Change that the fee calculation itself added, and may take away again, is the one thing that is remembered besides.",
 ["histories", "inputs"],
 "any content, any two ways of getting there, any later sequence of edits, funding, fee adjustments and signings",
 "Tests build each transaction one way and compare it with constants.",
 ["inputs.go", "outputs.go", "txbuilder.go", "fees.go", "sign.go"],
 [("adding and inserting", "inputs.go, outputs.go"), ("reading", "txbuilder.go:NewTxBuilderFromWire, NewTxBuilderFromWireUTXOs")],
 [("supplementary data of inputs and outputs", "decides later behaviour only through what callers can see", "models.go")],
 ["answers, outcome and bytes after the same calls on builders made in different ways"])

prop("C38", "The order of the keys, repeats and extra keys change nothing",
 "Signing the same transaction with the same set of private keys gives the same answer, the same signed transaction and the same set of keys reported as used, whatever the order in which the keys are listed, however often one is repeated and whichever keys that nothing asks for are listed with them. "
 "Every key reported was given and is reported once.",
 ["inputs", "configurations"],
 "all supported scripts including multiple signatures with more keys than needed, sets with keys missing, long lists, with and without adjusting the fee",
 "Tests give the keys once in the order of the inputs.",
 ["sign.go"],
 [("keys tried for each input", "sign.go:Sign, SignOnly")],
 [], ["answer, transaction and keys reported for permuted and padded key lists"])

prop("C39", "A builder's data survives being stored as JSON",
 "The supplementary data of inputs and outputs, addresses with identifiers, and whole builders stored as JSON and read back, once or again and again, are the same in everything a caller can set or see, and everything done afterwards has the same outcome. "
 "Supplementary data written by earlier versions (named locking script, value, identifier and marks) is read as what it says.",
 ["inputs", "histories"],
 "any content with any values, identifiers of any text, any later calls; not the note that change was added by the fee calculation itself, which is not stored",
 "Nothing is stored in the tests.",
 ["models.go", "txbuilder.go"],
 [("stored names", "models.go:InputSupplement, OutputSupplement, AddressKeyID"), ("builder", "txbuilder.go:TxBuilder")],
 [], ["data after storing and reading, and the outcome of later calls on both"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
