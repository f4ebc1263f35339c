#!/usr/bin/env python3
"""Writes known_findings.json: the defects found in the original tree and the commits that repaired them."""
import json, os
fixed = [l.split(" ", 2) for l in """
C20 4d41319 RandomizeOutputsAfter shuffled outputs without their supplements, so remainder and dust marks and key ids moved to other outputs
C12 27c3f8b SubtractOutputValue on an output below the dust limit wrapped around to an enormous value
C22 ac7402c the fees package estimated every unknown script as an agent transfer (nil dereference)
C22 cdd1f60 fees.InputValue returned the size in the unlocking data as the value
C14 50e0889 UpdateInputUTXO with the index just past the last input panicked
C14 6f74e65 InsertOutput past the last output panicked
C18 af00e7c BreakValue, BreakQuantity and their variants panicked on small break values or a single destination
C01 f750ecc the fee did not include the growth of the input and output count encodings at 253
C03 ccd2b87 funding failed when the change was too small for an output instead of leaving it to the fee
C03 ca87616 break-change funding of already funded transactions and of transactions with only a remainder output failed
C05 ee4cf5c sending the maximum of existing inputs failed when no more outputs were offered
C07 0970885 signing reported insufficient value although an existing change output could pay the fee
C08 fe15007 signing some of the inputs set the fee for the unsigned size, so the completed transaction paid less than the rate
C14 3c5b66d AdjustFee took the amount from the change output before refusing
C16 eeb10c8 the signed script after a code separator was re-encoded, changing pushes that are not minimal
C26 88e547e text forms rounded output values to single precision
C26 94de50a the estimated size in the text form of a transaction ignored the size in the unlocking data
C21 e7f45bf builders made from a wire transaction with missing previous outputs had fewer supplements than inputs and panicked later
C29 c2342a1 multi-pkh scripts that require more signers than there are gave a size that wrapped around
C14 5dbbd3a AddMaxOutput with an invalid address failed but still turned on sending the maximum
C20 3152465 RandomizeOutputsAfter past the last output panicked
C29 5bd4720 truncated agent and multi-pkh scripts (e.g. 64 51) panicked, and a script followed by an incomplete push was taken for the script type
C29 ae1c681 unlocking data with huge item counts panicked or exhausted memory, and a huge size made the estimated size negative
C27 b4ca5de create_send with a negative amount printed a transaction paying nearly 2^64
C27 e6f5d22 create_sends with a count below one printed a transaction
C27 ede4a99 transactions without outputs were printed and crashed create_sends
C27 bc39ccf create_sends printed the first transactions of a chain that could not be completed
C27 13daeee a different transaction returned by the explorer was accepted as the one asked for
C32 e9e4b58 the tool's listing showed mainnet addresses on every network and values rounded to single precision
C12 fb77bd8 adding to an output beyond 64 bits wrapped its value around
C08 9ef02f6 signing a multi-pkh input that names the same key twice returned that key twice
C19 2d10c7d breaking a very large quantity returned several parts far below the break quantity because a multiple wrapped around
C21 69081d5 building from a wire transaction reported missing input data for an input that spends nothing (coinbase)
""".strip().split("\n")]
out = {"known": [], "fixed": ["fixed: property=%s %s %s" % tuple(l) for l in fixed]}
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
open(path, "w").write(json.dumps(out, indent=1) + "\n")
