From 4d41319e5f557a2a34ed547295cb9cf6d5663cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:48 +0000
Subject: [PATCH 01/33] fix: keep output supplements with their outputs in
 RandomizeOutputsAfter

---
 break_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index abfebc6..bea9c7d 100644
--- a/break_value.go
+++ b/break_value.go
@@ -400,7 +400,7 @@ func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
 		randOutputs[i] = &Output{
 			TxOut:      *txout,
-			Supplement: *tx.Outputs[i],
+			Supplement: *tx.Outputs[index+1+i],
 		}
 	}
 
-- 
2.43.0


From 27c3f8b110eba5fa9cd9907e1adc211dbf1cb012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:50 +0000
Subject: [PATCH 02/33] fix: refuse to subtract from an output that is already
 below dust

---
 outputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/outputs.go b/outputs.go
index 413ce67..36cdf49 100644
--- a/outputs.go
+++ b/outputs.go
@@ -268,7 +268,7 @@ func (tx *TxBuilder) SubtractValueFromOutput(index uint32, value uint64) error {
 
 	dust := DustLimitForOutput(tx.MsgTx.TxOut[index], tx.DustFeeRate)
 
-	if tx.MsgTx.TxOut[index].Value-dust < value {
+	if tx.MsgTx.TxOut[index].Value < dust || tx.MsgTx.TxOut[index].Value-dust < value {
 		return fmt.Errorf("Output value too small to subtract : %d - %d (dust %d)",
 			tx.MsgTx.TxOut[index].Value, value, dust)
 	}
-- 
2.43.0


From ac7402c9dd842fefedfd5d97be35237c3ee76cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:51 +0000
Subject: [PATCH 03/33] fix: estimate agent transfer unlocking size only when
 the script matches

---
 fees/fees.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fees/fees.go b/fees/fees.go
index eb9b3d6..534c0f5 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -139,8 +139,10 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err != nil {
-		agentUnlockingSize, err := EstimateUnlockingSize(info.AgentLockingScript)
+	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+		agentLockingScript := info.AgentLockingScript.Copy()
+		agentLockingScript.RemoveHardVerify()
+		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
 		if err != nil {
 			return 0, errors.Wrap(err, "agent")
 		}
-- 
2.43.0


From cdd1f602c3e6aa660c16cf0292e5eeca6ec81d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:53 +0000
Subject: [PATCH 04/33] fix: return the value of unlocking data as the input
 value

---
 fees/fees.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fees/fees.go b/fees/fees.go
index 534c0f5..d425882 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -235,7 +235,7 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	return unlockingData.Size, nil
+	return unlockingData.Value, nil
 }
 
 func InputSizeForUnlockingScriptSize(unlockingScriptSize int) int {
-- 
2.43.0


From 50e0889d328d046fc2c1084206219325e276f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:55 +0000
Subject: [PATCH 05/33] fix: return an error when updating an input just past
 the end

---
 inputs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inputs.go b/inputs.go
index d13c0e7..91fa522 100644
--- a/inputs.go
+++ b/inputs.go
@@ -43,7 +43,7 @@ func (tx *TxBuilder) AddInputUTXO(utxo bitcoin.UTXO) error {
 }
 
 func (tx *TxBuilder) UpdateInputUTXO(index int, utxo bitcoin.UTXO) error {
-	if index > len(tx.MsgTx.TxIn) {
+	if index >= len(tx.MsgTx.TxIn) {
 		return errors.New("Input index out of range")
 	}
 
-- 
2.43.0


From 6f74e65108de1aa51ad58bd253b19c0e7da78666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:57 +0000
Subject: [PATCH 06/33] fix: return an error when inserting an output past the
 end

---
 outputs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/outputs.go b/outputs.go
index 36cdf49..78b9980 100644
--- a/outputs.go
+++ b/outputs.go
@@ -201,6 +201,10 @@ func (tx *TxBuilder) AddOutput(lockScript bitcoin.Script, value uint64,
 func (tx *TxBuilder) InsertOutput(index int, lockScript bitcoin.Script, value uint64,
 	isRemainder, isDust bool) error {
 
+	if index > len(tx.MsgTx.TxOut) {
+		return errors.New("Output index out of range")
+	}
+
 	output := &OutputSupplement{
 		IsRemainder: isRemainder,
 		IsDust:      isDust,
-- 
2.43.0


From af00e7cb823bc2bf6e8ae1306019a55cf5ac6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:59 +0000
Subject: [PATCH 07/33] fix: break values with small break values or a single
 destination without panicking

---
 break_value.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/break_value.go b/break_value.go
index bea9c7d..55f7fef 100644
--- a/break_value.go
+++ b/break_value.go
@@ -85,7 +85,7 @@ func BreakValue(value, breakValue uint64, addresses []AddressKeyID,
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -169,7 +169,12 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided lockingScripts
-	average := 2 * (value / uint64(len(lockingScripts)-1))
+	var average uint64
+	if len(lockingScripts) == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(len(lockingScripts)-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
@@ -218,7 +223,7 @@ func BreakValueLockingScripts(value, breakValue uint64, lockingScripts []bitcoin
 			outputValue *= 1000
 		}
 
-		if rand.Intn(2) == 1 {
+		if outputValue >= 10 && rand.Intn(2) == 1 {
 			outputValue = outputValue - (outputValue / 10) +
 				uint64(rand.Int63n(int64(outputValue/5)))
 		}
@@ -294,7 +299,12 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 	// Choose random multiples of breakValue until the value is taken up.
 
 	// Find the average value to break the value into the provided addresses
-	average := 2 * (value / uint64(count-1))
+	var average uint64
+	if count == 1 {
+		average = value
+	} else {
+		average = 2 * (value / uint64(count-1))
+	}
 
 	// Find the power to use for choosing random values
 	factor := average / breakValue
-- 
2.43.0


From f750eccb99647b1eecc22f971429df9aa7cfdf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:00 +0000
Subject: [PATCH 08/33] fix: include growth of the input and output counts in
 the fee

---
 fees.go   |  7 +++++++
 inputs.go | 16 +++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/fees.go b/fees.go
index e054ae6..9a5fa65 100644
--- a/fees.go
+++ b/fees.go
@@ -357,6 +357,7 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			} else {
 				newSize = currentSize + uint64(OutputSize(tx.ChangeScript))
 			}
+			newSize += countSizeIncrease(len(tx.MsgTx.TxOut), 1)
 			newFee := EstimatedFeeValue(newSize, float64(tx.FeeRate))
 
 			changeOutputFee := newFee - currentFee
@@ -427,6 +428,12 @@ func VarIntSerializeSize(val uint64) int {
 	return 9
 }
 
+// countSizeIncrease returns the number of bytes that the serialized count of inputs or outputs grows
+// by when more inputs or outputs are added.
+func countSizeIncrease(count, added int) uint64 {
+	return uint64(VarIntSerializeSize(uint64(count+added)) - VarIntSerializeSize(uint64(count)))
+}
+
 func EstimatedFeeValue(size uint64, feeRate float64) uint64 {
 	return uint64(math.Ceil(float64(size) * feeRate))
 }
diff --git a/inputs.go b/inputs.go
index 91fa522..657fad0 100644
--- a/inputs.go
+++ b/inputs.go
@@ -187,6 +187,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		changeDustLimit = DustLimit(P2PKHOutputSize, tx.DustFeeRate)
 		changeOutputFee = uint64(float32(P2PKHOutputSize) * tx.FeeRate)
 	}
+	changeOutputFee += EstimatedFeeValue(countSizeIncrease(len(tx.MsgTx.TxOut), 1),
+		float64(tx.FeeRate)) // Add cost of larger output count
 
 	for _, utxo := range utxos {
 		if err := tx.AddInputUTXO(utxo); err != nil {
@@ -202,6 +204,8 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 			return errors.Wrap(err, "utxo fee")
 		}
 		neededFunding += inputFee // Add cost of input
+		neededFunding += EstimatedFeeValue(countSizeIncrease(len(tx.MsgTx.TxIn)-1, 1),
+			float64(tx.FeeRate)) // Add cost of larger input count
 
 		if tx.SendMax {
 			continue
@@ -286,7 +290,8 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			return errors.Wrap(err, "first change locking script")
 		}
 
-		firstChangeOutputSize = uint64(OutputSize(lockingScript))
+		firstChangeOutputSize = uint64(OutputSize(lockingScript)) +
+			countSizeIncrease(len(tx.MsgTx.TxOut), 1)
 	}
 
 	inputValue := tx.InputValue()
@@ -343,7 +348,7 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			return errors.Wrap(err, "input size")
 		}
 
-		estSize += uint64(inputSize)
+		estSize += uint64(inputSize) + countSizeIncrease(len(tx.MsgTx.TxIn)-1, 1)
 		estFeeValue = EstimatedFeeValue(estSize, feeRate)
 		neededFunding = estFeeValue + outputValue - inputValue
 		inputValue += utxo.Value
@@ -356,7 +361,12 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 			// Funding complete
 			// Re-calculate fee without estimating first change output because BreakValue will take
 			// the fees out of the values.
-			finalFeeValue := EstimatedFeeValue(estSize-firstChangeOutputSize, feeRate)
+			finalSize := estSize - firstChangeOutputSize
+			if !remainderIncluded {
+				// BreakValue doesn't include the size of the output count.
+				finalSize += countSizeIncrease(len(tx.MsgTx.TxOut), len(changeAddresses))
+			}
+			finalFeeValue := EstimatedFeeValue(finalSize, feeRate)
 			finalNeededFunding := finalFeeValue + outputValue - inputValue + utxo.Value
 			changeValue := utxo.Value - finalNeededFunding
 
-- 
2.43.0


From ccd2b8780db1ff2d0c2e8de752614e6a55acd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:02 +0000
Subject: [PATCH 09/33] fix: leave change that is too small for an output to
 the fee instead of failing

---
 inputs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inputs.go b/inputs.go
index 657fad0..16a5ee8 100644
--- a/inputs.go
+++ b/inputs.go
@@ -181,6 +181,9 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 	if changeDustLimit == 0 && len(tx.ChangeScript) > 0 {
 		changeOutputFee, changeDustLimit = OutputFeeAndDustForLockingScript(tx.ChangeScript,
 			tx.DustFeeRate, tx.FeeRate)
+		if changeDustLimit < changeOutputFee {
+			changeDustLimit = changeOutputFee // AddOutput doesn't allow values below the output fee
+		}
 	}
 	if changeDustLimit == 0 {
 		// Use P2PKH dust limit
-- 
2.43.0


From ca87616ff4b54fd069ab73a915edeca5343acff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:04 +0000
Subject: [PATCH 10/33] fix: break change funding of already funded txs and of
 txs with a remainder output only

---
 inputs.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/inputs.go b/inputs.go
index 16a5ee8..12ebeb7 100644
--- a/inputs.go
+++ b/inputs.go
@@ -303,27 +303,19 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 	feeRate := float64(tx.FeeRate)
 	estFeeValue := EstimatedFeeValue(estSize, feeRate)
 
-	changeLockingScript, err := changeAddresses[0].Address.LockingScript()
-	if err != nil {
-		return errors.Wrap(err, "change locking script")
+	if !remainderIncluded && len(changeAddresses) == 0 {
+		return errors.Wrap(ErrChangeAddressNeeded, "no addresses to break change to")
 	}
 
-	outputFee, inputFee, _ := OutputTotalCost(changeLockingScript, tx.FeeRate)
-
 	// Check if tx is already funded.
 	if !tx.SendMax && inputValue > outputValue && inputValue-outputValue >= estFeeValue {
 		if !remainderIncluded {
-			// Ensure added change output is funded
-			if inputValue-outputValue >= estFeeValue+outputFee+inputFee {
-				if err := tx.SetChangeAddress(changeAddresses[0].Address,
-					changeAddresses[0].KeyID); err != nil {
-					return errors.Wrap(err, "set change address")
-				}
-				return tx.CalculateFee() // Already funded
+			if err := tx.SetChangeAddress(changeAddresses[0].Address,
+				changeAddresses[0].KeyID); err != nil {
+				return errors.Wrap(err, "set change address")
 			}
-		} else {
-			return tx.CalculateFee() // Already funded
 		}
+		return tx.CalculateFee() // Already funded
 	}
 
 	if len(utxos) == 0 {
-- 
2.43.0


From ee4cf5c0898100ed4edf33fd38f35744cfab46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:06 +0000
Subject: [PATCH 11/33] fix: allow sending the max of existing inputs when no
 more utxos are given

---
 inputs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputs.go b/inputs.go
index 12ebeb7..a817865 100644
--- a/inputs.go
+++ b/inputs.go
@@ -154,7 +154,7 @@ func (tx *TxBuilder) AddFunding(utxos []bitcoin.UTXO) error {
 		return tx.CalculateFee() // Already funded
 	}
 
-	if len(utxos) == 0 {
+	if len(utxos) == 0 && !tx.SendMax {
 		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("no more utxos: %d/%d",
 			inputValue, outputValue+estFeeValue))
 	}
@@ -318,7 +318,7 @@ func (tx *TxBuilder) AddFundingBreakChange(utxos []bitcoin.UTXO, breakValue uint
 		return tx.CalculateFee() // Already funded
 	}
 
-	if len(utxos) == 0 {
+	if len(utxos) == 0 && !tx.SendMax {
 		return errors.Wrap(ErrInsufficientValue, fmt.Sprintf("no more utxos: %d/%d", inputValue,
 			outputValue+estFeeValue))
 	}
-- 
2.43.0


From 0970885a5ae6ae8143d874fd6f951e29006e269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:08 +0000
Subject: [PATCH 12/33] fix: let an existing change output pay the fee when
 signing

---
 sign.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sign.go b/sign.go
index 0bfd78f..e701c97 100644
--- a/sign.go
+++ b/sign.go
@@ -71,9 +71,9 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 	outputValue := tx.OutputValue(true)
 	shc := SigHashCache{}
 
-	if inputValue < outputValue+estimatedFee {
+	if inputValue < tx.OutputValue(false)+estimatedFee {
 		return nil, errors.Wrap(ErrInsufficientValue, fmt.Sprintf("%d/%d", inputValue,
-			outputValue+estimatedFee))
+			tx.OutputValue(false)+estimatedFee))
 	}
 
 	var err error
-- 
2.43.0


From fe15007255467b1dfb73d44fead1370265cc0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:10 +0000
Subject: [PATCH 13/33] fix: pay for missing signatures when only some inputs
 can be signed

---
 sign.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sign.go b/sign.go
index e701c97..93ae24f 100644
--- a/sign.go
+++ b/sign.go
@@ -110,7 +110,12 @@ func (tx *TxBuilder) Sign(keys []bitcoin.Key) ([]bitcoin.Key, error) {
 		}
 
 		// Check fee and adjust if too low
-		targetFee := int64(EstimatedFeeValue(uint64(tx.MsgTx.SerializeSize()), float64(tx.FeeRate)))
+		size := tx.MsgTx.SerializeSize()
+		if missingKey {
+			// Leave room for the signatures that still have to be added.
+			size = tx.EstimatedSize()
+		}
+		targetFee := int64(EstimatedFeeValue(uint64(size), float64(tx.FeeRate)))
 		inputValue = tx.InputValue()
 		outputValue = tx.OutputValue(false)
 		changeValue := tx.changeSum()
-- 
2.43.0


From 3c5b66dedc0cc92928d7671f2c60ce5d0dce3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:12 +0000
Subject: [PATCH 14/33] fix: leave the change output alone when it can't pay
 the fee increase

---
 fees.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fees.go b/fees.go
index 9a5fa65..ed2ca93 100644
--- a/fees.go
+++ b/fees.go
@@ -323,14 +323,11 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 			return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
 		}
 
-		// Decrease change, thereby increasing the fee
-		tx.MsgTx.TxOut[changeOutputIndex].Value -= uint64(amount)
-
 		outputFee, inputFee, _ := OutputTotalCost(tx.MsgTx.TxOut[changeOutputIndex].LockingScript,
 			tx.FeeRate)
 
 		// Check if change is below dust
-		if tx.MsgTx.TxOut[changeOutputIndex].Value < outputFee+inputFee {
+		if tx.MsgTx.TxOut[changeOutputIndex].Value-uint64(amount) < outputFee+inputFee {
 			if !tx.Outputs[changeOutputIndex].addedForFee {
 				// Don't remove outputs unless they were added by fee adjustment
 				return false, errors.Wrap(ErrInsufficientValue, "Not enough change for tx fee")
@@ -341,6 +338,9 @@ func (tx *TxBuilder) AdjustFee(amount int64) (bool, error) {
 				tx.MsgTx.TxOut[changeOutputIndex+1:]...)
 			tx.Outputs = append(tx.Outputs[:changeOutputIndex], tx.Outputs[changeOutputIndex+1:]...)
 			done = true
+		} else {
+			// Decrease change, thereby increasing the fee
+			tx.MsgTx.TxOut[changeOutputIndex].Value -= uint64(amount)
 		}
 	} else {
 		// Decrease fee, transfer to change
-- 
2.43.0


From eeb10c8e37bbcef75cc440be7bf2997847dd47b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:14 +0000
Subject: [PATCH 15/33] fix: sign the bytes after the last code separator
 exactly as written

---
 sig_hash.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/sig_hash.go b/sig_hash.go
index ac29cb8..ffb6e87 100644
--- a/sig_hash.go
+++ b/sig_hash.go
@@ -219,23 +219,21 @@ func writeSignatureHashPreimageBytes(w io.Writer, tx *wire.MsgTx, index int, loc
 // NOTE: This is only correct if the last OP_CODESEPARATOR is actually executed when the script is
 // executed, so there is room for error here depending on the locking script. --ce
 func afterOpCodeSeparator(lockScript []byte) ([]byte, error) {
-	items, err := bitcoin.ParseScriptItems(bytes.NewReader(lockScript), -1)
-	if err != nil {
-		return nil, errors.Wrap(err, "parse")
-	}
+	// Find the position in the bytes, rather than re-serializing the items, because items with non
+	// minimal push op codes serialize differently.
+	start := 0
+	r := bytes.NewReader(lockScript)
+	for r.Len() > 0 {
+		item, err := bitcoin.ParseScript(r)
+		if err != nil {
+			return nil, errors.Wrap(err, "parse")
+		}
 
-	itemCount := len(items)
-	for i := itemCount - 1; i >= 0; i-- {
-		item := items[i]
 		if item.Type == bitcoin.ScriptItemTypeOpCode && item.OpCode == bitcoin.OP_CODESEPARATOR {
-			if i == itemCount-1 {
-				return nil, nil // OP_CODESEPARATOR is the last op code of the script
-			}
-
-			return items[i+1:].Script()
+			start = len(lockScript) - r.Len()
 		}
 	}
 
-	// No OP_CODESEPARATOR found so return the full locking script.
-	return lockScript, nil
+	// If no OP_CODESEPARATOR was found this returns the full locking script.
+	return lockScript[start:], nil
 }
-- 
2.43.0


From 88e547e7ea9a7fddeb7598a236653fd30884bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:16 +0000
Subject: [PATCH 16/33] fix: print exact output values

---
 txbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txbuilder.go b/txbuilder.go
index d542968..3fcf9d3 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -293,7 +293,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 	}
 	result += "  Outputs:\n\n"
 	for i, output := range tx.MsgTx.TxOut {
-		result += fmt.Sprintf("    Value: %.08f\n", float32(output.Value)/100000000.0)
+		result += fmt.Sprintf("    Value: %.08f\n", float64(output.Value)/100000000.0)
 		result += fmt.Sprintf("    LockingScript: %s\n", output.LockingScript)
 		ra, err := bitcoin.RawAddressFromLockingScript(output.LockingScript)
 		if err == nil {
-- 
2.43.0


From 94de50ac86ab73e7eaa416d6286b42d532ac85b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:18 +0000
Subject: [PATCH 17/33] fix: use the size in the unlocking data for the
 estimated size in text

---
 print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/print.go b/print.go
index d6e321c..b8fce54 100644
--- a/print.go
+++ b/print.go
@@ -67,7 +67,7 @@ func TxString(tx expanded_tx.TransactionWithOutputs) string {
 
 				inputsValue += unlockData.Value
 				inputsSize += InputBaseSize + wire.VarIntSerializeSize(uint64(unlockData.Size)) +
-					len(txin.UnlockingScript)
+					int(unlockData.Size)
 				continue
 			}
 		}
-- 
2.43.0


From e7f45bf7d3e3df04790a0ad975d58b23d9a4a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:20 +0000
Subject: [PATCH 18/33] fix: return a usable builder when input data is missing

---
 txbuilder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/txbuilder.go b/txbuilder.go
index 3fcf9d3..4dd4552 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -202,6 +202,7 @@ func NewTxBuilderFromWire(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
@@ -244,6 +245,7 @@ func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 			}
 		}
 		if !found {
+			result.Inputs[i] = &InputSupplement{}
 			missingErr = ErrMissingInputData
 		}
 	}
-- 
2.43.0


From c2342a17ee0866a637284e92caa68253f58922b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:22 +0000
Subject: [PATCH 19/33] fix: don't estimate sizes for multi-pkh scripts that
 require too many signers

---
 fees.go      | 2 +-
 fees/fees.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fees.go b/fees.go
index ed2ca93..b673021 100644
--- a/fees.go
+++ b/fees.go
@@ -121,7 +121,7 @@ func UnlockingScriptSize(lockingScript bitcoin.Script) (int, error) {
 		return MaxSignaturesPushDataSize + PublicKeyPushDataSize, nil
 	}
 
-	if required, total, err := lockingScript.MultiPKHCounts(); err == nil {
+	if required, total, err := lockingScript.MultiPKHCounts(); err == nil && required <= total {
 		scriptSize := int(total - required) // OP_FALSE for all signatures not included
 
 		// Signature, public key and OP_TRUE for each required signature
diff --git a/fees/fees.go b/fees/fees.go
index d425882..ded0d5c 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -133,7 +133,7 @@ func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
 		return MaxSignaturesPushDataSize + PublicKeyPushDataSize, nil
 	}
 
-	if required, total, err := lockingScript.MultiPKHCounts(); err == nil {
+	if required, total, err := lockingScript.MultiPKHCounts(); err == nil && required <= total {
 		return int(total-required) + // OP_FALSE for all signatures not included
 			// Signature, public key and OP_TRUE for each required signature
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
-- 
2.43.0


From 5dbbd3ac75318ae5e14aed92e5d340d1f34a7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:16 +0000
Subject: [PATCH 20/33] fix: AddMaxOutput with an invalid address doesn't turn
 on sending the maximum

---
 outputs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/outputs.go b/outputs.go
index 78b9980..ef4dfc7 100644
--- a/outputs.go
+++ b/outputs.go
@@ -150,12 +150,11 @@ func (tx *TxBuilder) AddDustOutput(address bitcoin.RawAddress, isRemainder bool)
 // AddMaxOutput adds an output to TxBuilder with a script paying the specified address and the
 // remainder flag set so that it gets all remaining value after fees are taken.
 func (tx *TxBuilder) AddMaxOutput(address bitcoin.RawAddress) error {
-	tx.SendMax = true
 	script, err := address.LockingScript()
 	if err != nil {
 		return err
 	}
-	return tx.AddOutput(script, 0, true, false)
+	return tx.AddMaxScriptOutput(script)
 }
 
 // AddMaxOutput adds an output to TxBuilder with a script paying the specified address and the
-- 
2.43.0


From 3152465519fb07ef1f244c0a6ac984f011be7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:16 +0000
Subject: [PATCH 21/33] fix: randomizing outputs after the last one does
 nothing instead of panicking

---
 break_value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/break_value.go b/break_value.go
index 55f7fef..c8a5aa8 100644
--- a/break_value.go
+++ b/break_value.go
@@ -405,6 +405,10 @@ func (tx *TxBuilder) RandomizeOutputs() {
 // example an index of zero will leave the first output in place. Be careful not to do this on txs
 // that depend on outputs being at a specific index.
 func (tx *TxBuilder) RandomizeOutputsAfter(index int) {
+	if index+1 >= len(tx.MsgTx.TxOut) {
+		return // no outputs after the index
+	}
+
 	randLength := len(tx.MsgTx.TxOut) - (index + 1)
 	randOutputs := make([]*Output, randLength)
 	for i, txout := range tx.MsgTx.TxOut[index+1:] {
-- 
2.43.0


From 5bd472037c1666dca0b84916c80ba7e3335386cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:46 +0000
Subject: [PATCH 22/33] fix: malformed locking scripts no longer panic or match
 a script type

Matching multi-pkh and agent bitcoin transfer scripts panicked on scripts that
only start like those scripts, and a complete script followed by an incomplete
push was accepted as the script type.
---
 fees.go                     |  9 ++---
 fees/fees.go                |  9 ++---
 inputs.go                   |  3 +-
 internal/scripts/scripts.go | 67 +++++++++++++++++++++++++++++++++++++
 outputs.go                  |  3 +-
 sign.go                     |  9 ++---
 txbuilder.go                |  5 +--
 7 files changed, 89 insertions(+), 16 deletions(-)
 create mode 100644 internal/scripts/scripts.go

diff --git a/fees.go b/fees.go
index b673021..5db791f 100644
--- a/fees.go
+++ b/fees.go
@@ -9,6 +9,7 @@ import (
 	"github.com/tokenized/channels/unlocking_data"
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
+	"github.com/tokenized/txbuilder/internal/scripts"
 
 	"github.com/pkg/errors"
 )
@@ -111,17 +112,17 @@ const (
 // UnlockingScriptSize calculates the length of the unlocking script needed to unlock the specified
 // locking script.
 func UnlockingScriptSize(lockingScript bitcoin.Script) (int, error) {
-	if lockingScript.IsP2PK() {
+	if scripts.IsP2PK(lockingScript) {
 		// Only a signature in a P2PK unlocking script
 		return MaxSignaturesPushDataSize, nil
 	}
 
-	if lockingScript.IsP2PKH() {
+	if scripts.IsP2PKH(lockingScript) {
 		// Signature and a public key in a P2PKH unlocking script
 		return MaxSignaturesPushDataSize + PublicKeyPushDataSize, nil
 	}
 
-	if required, total, err := lockingScript.MultiPKHCounts(); err == nil && required <= total {
+	if required, total, err := scripts.MultiPKHCounts(lockingScript); err == nil && required <= total {
 		scriptSize := int(total - required) // OP_FALSE for all signatures not included
 
 		// Signature, public key and OP_TRUE for each required signature
@@ -130,7 +131,7 @@ func UnlockingScriptSize(lockingScript bitcoin.Script) (int, error) {
 		return scriptSize, nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+	if info, err := scripts.MatchAgentBitcoinTransfer(lockingScript); err == nil && info != nil {
 		agentUnlockingScript := info.AgentLockingScript.Copy()
 		agentUnlockingScript.RemoveHardVerify()
 		agentUnlockingSize, err := UnlockingScriptSize(agentUnlockingScript)
diff --git a/fees/fees.go b/fees/fees.go
index ded0d5c..abfa3b2 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -9,6 +9,7 @@ import (
 	"github.com/tokenized/channels/unlocking_data"
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
+	"github.com/tokenized/txbuilder/internal/scripts"
 
 	"github.com/pkg/errors"
 )
@@ -123,23 +124,23 @@ func EstimateInputSize(txin *wire.TxIn, lockingScript bitcoin.Script,
 }
 
 func EstimateUnlockingSize(lockingScript bitcoin.Script) (int, error) {
-	if lockingScript.IsP2PK() {
+	if scripts.IsP2PK(lockingScript) {
 		// Only a signature in a P2PK unlocking script
 		return MaxSignaturesPushDataSize, nil
 	}
 
-	if lockingScript.IsP2PKH() {
+	if scripts.IsP2PKH(lockingScript) {
 		// Signature and a public key in a P2PKH unlocking script
 		return MaxSignaturesPushDataSize + PublicKeyPushDataSize, nil
 	}
 
-	if required, total, err := lockingScript.MultiPKHCounts(); err == nil && required <= total {
+	if required, total, err := scripts.MultiPKHCounts(lockingScript); err == nil && required <= total {
 		return int(total-required) + // OP_FALSE for all signatures not included
 			// Signature, public key and OP_TRUE for each required signature
 			int(required)*(MaxSignaturesPushDataSize+PublicKeyPushDataSize+1), nil
 	}
 
-	if info, err := agent_bitcoin_transfer.MatchScript(lockingScript); err == nil && info != nil {
+	if info, err := scripts.MatchAgentBitcoinTransfer(lockingScript); err == nil && info != nil {
 		agentLockingScript := info.AgentLockingScript.Copy()
 		agentLockingScript.RemoveHardVerify()
 		agentUnlockingSize, err := EstimateUnlockingSize(agentLockingScript)
diff --git a/inputs.go b/inputs.go
index a817865..4b25afb 100644
--- a/inputs.go
+++ b/inputs.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
+	"github.com/tokenized/txbuilder/internal/scripts"
 
 	"github.com/pkg/errors"
 )
@@ -14,7 +15,7 @@ func (tx *TxBuilder) InputAddress(index int) (bitcoin.RawAddress, error) {
 	if index >= len(tx.Inputs) {
 		return bitcoin.RawAddress{}, errors.New("Input index out of range")
 	}
-	return bitcoin.RawAddressFromLockingScript(tx.Inputs[index].LockingScript)
+	return scripts.RawAddress(tx.Inputs[index].LockingScript)
 }
 
 // AddInputUTXO adds an input to TxBuilder using a UTXO.
diff --git a/internal/scripts/scripts.go b/internal/scripts/scripts.go
new file mode 100644
index 0000000..5563f5e
--- /dev/null
+++ b/internal/scripts/scripts.go
@@ -0,0 +1,67 @@
+// Package scripts contains versions of the script matching functions of other packages that are safe
+// to use on any script, including malformed scripts provided by others. The functions they are based
+// on can panic, or match, when a script only starts like the script they are matching.
+package scripts
+
+import (
+	"bytes"
+
+	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
+	"github.com/tokenized/pkg/bitcoin"
+
+	"github.com/pkg/errors"
+)
+
+// IsP2PK returns true if the locking script is a P2PK locking script. A script that ends in an
+// incomplete push is not.
+func IsP2PK(lockingScript bitcoin.Script) bool {
+	return lockingScript.IsP2PK() && isComplete(lockingScript)
+}
+
+// IsP2PKH returns true if the locking script is a P2PKH locking script. A script that ends in an
+// incomplete push is not.
+func IsP2PKH(lockingScript bitcoin.Script) bool {
+	return lockingScript.IsP2PKH() && isComplete(lockingScript)
+}
+
+// MultiPKHCounts returns the number of required signatures and total signers for a multi-pkh locking
+// script, or an error if the locking script is not a multi-pkh locking script.
+func MultiPKHCounts(lockingScript bitcoin.Script) (required, total uint32, err error) {
+	defer recoverMalformed(&err)
+
+	if !isComplete(lockingScript) {
+		return 0, 0, bitcoin.ErrWrongScriptTemplate
+	}
+
+	return lockingScript.MultiPKHCounts()
+}
+
+// MatchAgentBitcoinTransfer returns the information about an agent bitcoin transfer locking script,
+// or an error if the locking script is not an agent bitcoin transfer locking script.
+func MatchAgentBitcoinTransfer(lockingScript bitcoin.Script) (info *agent_bitcoin_transfer.Info,
+	err error) {
+	defer recoverMalformed(&err)
+
+	return agent_bitcoin_transfer.MatchScript(lockingScript)
+}
+
+// RawAddress returns the address a locking script pays to, or an error if the locking script doesn't
+// pay to an address.
+func RawAddress(lockingScript bitcoin.Script) (ra bitcoin.RawAddress, err error) {
+	defer recoverMalformed(&err)
+
+	return bitcoin.RawAddressFromLockingScript(lockingScript)
+}
+
+// isComplete returns false if the script ends in an incomplete push.
+func isComplete(lockingScript bitcoin.Script) bool {
+	_, err := bitcoin.ParseScriptItems(bytes.NewReader(lockingScript), -1)
+	return err == nil
+}
+
+// recoverMalformed converts a panic while matching a script into a script template error.
+func recoverMalformed(err *error) {
+	if r := recover(); r != nil {
+		*err = errors.Wrapf(bitcoin.ErrUnknownScriptTemplate, "malformed: %v", r)
+	}
+}
diff --git a/outputs.go b/outputs.go
index ef4dfc7..6c42974 100644
--- a/outputs.go
+++ b/outputs.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
+	"github.com/tokenized/txbuilder/internal/scripts"
 
 	"github.com/pkg/errors"
 )
@@ -93,7 +94,7 @@ func (tx *TxBuilder) OutputAddress(index int) (bitcoin.RawAddress, error) {
 	if index >= len(tx.MsgTx.TxOut) {
 		return bitcoin.RawAddress{}, errors.New("Output index out of range")
 	}
-	return bitcoin.RawAddressFromLockingScript(tx.MsgTx.TxOut[index].LockingScript)
+	return scripts.RawAddress(tx.MsgTx.TxOut[index].LockingScript)
 }
 
 func (tx *TxBuilder) SetChangeAddress(address bitcoin.RawAddress, keyID string) error {
diff --git a/sign.go b/sign.go
index 93ae24f..77889b9 100644
--- a/sign.go
+++ b/sign.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
+	"github.com/tokenized/txbuilder/internal/scripts"
 
 	"github.com/pkg/errors"
 )
@@ -37,7 +38,7 @@ func (tx *TxBuilder) SignP2PKHInput(index int, key bitcoin.Key, hashCache *SigHa
 		return errors.New("Input index out of range")
 	}
 
-	address, err := bitcoin.RawAddressFromLockingScript(tx.Inputs[index].LockingScript)
+	address, err := scripts.RawAddress(tx.Inputs[index].LockingScript)
 	if err != nil {
 		return err
 	}
@@ -230,7 +231,7 @@ func (tx *TxBuilder) signInput(index int, keys []bitcoin.Key,
 	lockingScript := tx.Inputs[index].LockingScript
 	value := tx.Inputs[index].Value
 
-	if lockingScript.IsP2PKH() {
+	if scripts.IsP2PKH(lockingScript) {
 		for _, key := range keys {
 			keyLockingScript, err := key.LockingScript()
 			if err != nil {
@@ -254,7 +255,7 @@ func (tx *TxBuilder) signInput(index int, keys []bitcoin.Key,
 		return nil, ErrMissingPrivateKey
 	}
 
-	if lockingScript.IsP2PK() {
+	if scripts.IsP2PK(lockingScript) {
 		scriptItems, err := bitcoin.ParseScriptItems(bytes.NewReader(lockingScript), -1)
 		if err != nil {
 			return nil, errors.Wrap(err, "parse locking script")
@@ -292,7 +293,7 @@ func (tx *TxBuilder) signInput(index int, keys []bitcoin.Key,
 		return nil, ErrMissingPrivateKey
 	}
 
-	if required, total, err := lockingScript.MultiPKHCounts(); err == nil {
+	if required, total, err := scripts.MultiPKHCounts(lockingScript); err == nil {
 		pubKeyHashes := make([][]byte, len(keys))
 		for i, key := range keys {
 			pubKeyHashes[i] = bitcoin.Hash160(key.PublicKey().Bytes())
diff --git a/txbuilder.go b/txbuilder.go
index 4dd4552..cf99ab9 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
+	"github.com/tokenized/txbuilder/internal/scripts"
 
 	"github.com/pkg/errors"
 )
@@ -281,7 +282,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 		result += fmt.Sprintf("    UnlockingScript: %s\n", input.UnlockingScript)
 		result += fmt.Sprintf("    Sequence: %x\n", input.Sequence)
 
-		ra, err := bitcoin.RawAddressFromLockingScript(tx.Inputs[i].LockingScript)
+		ra, err := scripts.RawAddress(tx.Inputs[i].LockingScript)
 		if err == nil {
 			result += fmt.Sprintf("    Address: %s\n",
 				bitcoin.NewAddressFromRawAddress(ra, net).String())
@@ -297,7 +298,7 @@ func (tx *TxBuilder) String(net bitcoin.Network) string {
 	for i, output := range tx.MsgTx.TxOut {
 		result += fmt.Sprintf("    Value: %.08f\n", float64(output.Value)/100000000.0)
 		result += fmt.Sprintf("    LockingScript: %s\n", output.LockingScript)
-		ra, err := bitcoin.RawAddressFromLockingScript(output.LockingScript)
+		ra, err := scripts.RawAddress(output.LockingScript)
 		if err == nil {
 			result += fmt.Sprintf("    Address: %s\n",
 				bitcoin.NewAddressFromRawAddress(ra, net).String())
-- 
2.43.0


From ae1c681b89005509346c51252ca1c095cd1119b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:16 +0000
Subject: [PATCH 23/33] fix: unlocking data with any content no longer panics
 or gives an impossible size

Unlocking data is provided by others. The item counts of its envelope were
trusted when allocating, and its size could make the estimated tx size negative.
---
 fees.go                     | 32 +++++++----------
 fees/fees.go                | 22 +++++-------
 internal/scripts/scripts.go | 68 +++++++++++++++++++++++++++++++++++++
 print.go                    | 38 ++++++++++-----------
 4 files changed, 108 insertions(+), 52 deletions(-)

diff --git a/fees.go b/fees.go
index 5db791f..f7e74b1 100644
--- a/fees.go
+++ b/fees.go
@@ -5,8 +5,6 @@ import (
 	"math"
 
 	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
-	"github.com/tokenized/channels"
-	"github.com/tokenized/channels/unlocking_data"
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
 	"github.com/tokenized/txbuilder/internal/scripts"
@@ -107,6 +105,10 @@ const (
 	// This is actually the estimated size of a P2PKH input, but is used for dust calculation of all
 	//   locking scripts.
 	DustInputSize = 148
+
+	// MaxUnlockingScriptSize is the maximum size of an unlocking script accepted from unlocking
+	// data. Unlocking data is provided by others so the size in it can be anything.
+	MaxUnlockingScriptSize = math.MaxUint32
 )
 
 // UnlockingScriptSize calculates the length of the unlocking script needed to unlock the specified
@@ -194,16 +196,12 @@ func (tx *TxBuilder) EstimatedSize() int {
 		if len(input.LockingScript) == 0 {
 			txin := tx.MsgTx.TxIn[i]
 			if txin.UnlockingScript.IsFalseOpReturn() {
-				protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-				msg, _, err := protocols.Parse(txin.UnlockingScript)
-				if err == nil {
-					unlockData, ok := msg.(*unlocking_data.UnlockingData)
-					if ok {
-						result += InputBaseSize + // outpoint + sequence
-							VarIntSerializeSize(unlockData.Size) +
-							int(unlockData.Size)
-						continue
-					}
+				unlockData, err := scripts.ParseUnlockingData(txin.UnlockingScript)
+				if err == nil && unlockData.Size <= MaxUnlockingScriptSize {
+					result += InputBaseSize + // outpoint + sequence
+						VarIntSerializeSize(unlockData.Size) +
+						int(unlockData.Size)
+					continue
 				}
 			}
 		}
@@ -245,14 +243,10 @@ func (tx *TxBuilder) InputValue() uint64 {
 		if input.Value == 0 {
 			txin := tx.MsgTx.TxIn[i]
 			if txin.UnlockingScript.IsFalseOpReturn() {
-				protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-				msg, _, err := protocols.Parse(txin.UnlockingScript)
+				unlockData, err := scripts.ParseUnlockingData(txin.UnlockingScript)
 				if err == nil {
-					unlockData, ok := msg.(*unlocking_data.UnlockingData)
-					if ok {
-						inputValue += unlockData.Value
-						continue
-					}
+					inputValue += unlockData.Value
+					continue
 				}
 			}
 		}
diff --git a/fees/fees.go b/fees/fees.go
index abfa3b2..0d1c43b 100644
--- a/fees/fees.go
+++ b/fees/fees.go
@@ -5,8 +5,6 @@ import (
 
 	"github.com/tokenized/bitcoin_interpreter"
 	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
-	"github.com/tokenized/channels"
-	"github.com/tokenized/channels/unlocking_data"
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
 	"github.com/tokenized/txbuilder/internal/scripts"
@@ -34,6 +32,10 @@ const (
 	// locking scripts.
 	DustInputSize = 148
 
+	// MaxUnlockingScriptSize is the maximum size of an unlocking script accepted from unlocking
+	// data. Unlocking data is provided by others so the size in it can be anything.
+	MaxUnlockingScriptSize = math.MaxUint32
+
 	PublicKeyHashPushDataSize = 21                   // 1 byte push op code + 33 byte public key
 	PublicKeyPushDataSize     = 34                   // 1 byte push op code + 33 byte public key
 	MaxSignatureSize          = 73                   // 72 byte sig + 1 byte sig hash type
@@ -107,15 +109,13 @@ func EstimateInputSize(txin *wire.TxIn, lockingScript bitcoin.Script,
 		return 0, MissingUnlockingData
 	}
 
-	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-	msg, _, err := protocols.Parse(txin.UnlockingScript)
+	unlockingData, err := scripts.ParseUnlockingData(txin.UnlockingScript)
 	if err != nil {
 		return 0, MissingUnlockingData
 	}
 
-	unlockingData, ok := msg.(*unlocking_data.UnlockingData)
-	if !ok {
-		return 0, MissingUnlockingData
+	if unlockingData.Size > MaxUnlockingScriptSize {
+		return 0, errors.Wrapf(MissingUnlockingData, "invalid size: %d", unlockingData.Size)
 	}
 
 	return InputBaseSize + // outpoint + sequence
@@ -225,17 +225,11 @@ func InputValue(txin *wire.TxIn, inputOutput *wire.TxOut) (uint64, error) {
 		return 0, MissingUnlockingData
 	}
 
-	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-	msg, _, err := protocols.Parse(txin.UnlockingScript)
+	unlockingData, err := scripts.ParseUnlockingData(txin.UnlockingScript)
 	if err != nil {
 		return 0, MissingUnlockingData
 	}
 
-	unlockingData, ok := msg.(*unlocking_data.UnlockingData)
-	if !ok {
-		return 0, MissingUnlockingData
-	}
-
 	return unlockingData.Value, nil
 }
 
diff --git a/internal/scripts/scripts.go b/internal/scripts/scripts.go
index 5563f5e..371713f 100644
--- a/internal/scripts/scripts.go
+++ b/internal/scripts/scripts.go
@@ -7,6 +7,8 @@ import (
 	"bytes"
 
 	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
+	"github.com/tokenized/channels"
+	"github.com/tokenized/channels/unlocking_data"
 	"github.com/tokenized/pkg/bitcoin"
 
 	"github.com/pkg/errors"
@@ -53,6 +55,72 @@ func RawAddress(lockingScript bitcoin.Script) (ra bitcoin.RawAddress, err error)
 	return bitcoin.RawAddressFromLockingScript(lockingScript)
 }
 
+// ParseUnlockingData returns the unlocking data embedded in an unlocking script, or an error if there
+// isn't any.
+func ParseUnlockingData(unlockingScript bitcoin.Script) (data *unlocking_data.UnlockingData,
+	err error) {
+	defer recoverMalformed(&err)
+
+	if err := checkEnvelopeCounts(unlockingScript); err != nil {
+		return nil, errors.Wrap(err, "envelope counts")
+	}
+
+	protocols := channels.NewProtocols(unlocking_data.NewProtocol())
+	msg, _, err := protocols.Parse(unlockingScript)
+	if err != nil {
+		return nil, errors.Wrap(err, "parse")
+	}
+
+	unlockData, ok := msg.(*unlocking_data.UnlockingData)
+	if !ok {
+		return nil, errors.Wrap(channels.ErrInvalidMessage, "not unlocking data")
+	}
+
+	return unlockData, nil
+}
+
+// checkEnvelopeCounts returns an error if the script has counts of envelope protocol ids or payload
+// items that are more than can be in the script, because memory is allocated for the counts when the
+// envelope is parsed.
+func checkEnvelopeCounts(script bitcoin.Script) error {
+	r := bytes.NewReader(script)
+
+	// Skip OP_FALSE OP_RETURN and the envelope protocol id.
+	for {
+		item, err := bitcoin.ParseScript(r)
+		if err != nil {
+			return errors.Wrap(err, "header")
+		}
+
+		if item.Type == bitcoin.ScriptItemTypePushData {
+			break
+		}
+	}
+
+	// There is a count followed by that many items, first for protocol ids then for payload items.
+	for i := 0; i < 2; i++ {
+		countItem, err := bitcoin.ParseScript(r)
+		if err != nil {
+			return errors.Wrap(err, "count")
+		}
+
+		count, err := bitcoin.ScriptNumberValue(countItem)
+		if err != nil {
+			return errors.Wrap(err, "count value")
+		}
+
+		if count < 0 || count > int64(r.Len()) {
+			return errors.Wrapf(bitcoin.ErrInvalidScript, "count %d", count)
+		}
+
+		if _, err := bitcoin.ParseScriptItems(r, int(count)); err != nil {
+			return errors.Wrap(err, "items")
+		}
+	}
+
+	return nil
+}
+
 // isComplete returns false if the script ends in an incomplete push.
 func isComplete(lockingScript bitcoin.Script) bool {
 	_, err := bitcoin.ParseScriptItems(bytes.NewReader(lockingScript), -1)
diff --git a/print.go b/print.go
index b8fce54..6c19d1d 100644
--- a/print.go
+++ b/print.go
@@ -4,10 +4,9 @@ import (
 	"bytes"
 	"fmt"
 
-	"github.com/tokenized/channels"
-	"github.com/tokenized/channels/unlocking_data"
 	"github.com/tokenized/pkg/expanded_tx"
 	"github.com/tokenized/pkg/wire"
+	"github.com/tokenized/txbuilder/internal/scripts"
 )
 
 func TxString(tx expanded_tx.TransactionWithOutputs) string {
@@ -46,30 +45,31 @@ func TxString(tx expanded_tx.TransactionWithOutputs) string {
 			continue
 		}
 
-		protocols := channels.NewProtocols(unlocking_data.NewProtocol())
-		if msg, _, err := protocols.Parse(txin.UnlockingScript); err == nil {
-			if unlockData, ok := msg.(*unlocking_data.UnlockingData); ok {
-				result.Write([]byte("    Embedded unlocking data:\n"))
+		if unlockData, err := scripts.ParseUnlockingData(txin.UnlockingScript); err == nil {
+			result.Write([]byte("    Embedded unlocking data:\n"))
 
-				if unlockData.Size > 0 {
-					result.Write([]byte(fmt.Sprintf("      Size: %d\n", unlockData.Size)))
-				} else {
-					feeSizeKnown = false
-				}
+			if unlockData.Size > 0 {
+				result.Write([]byte(fmt.Sprintf("      Size: %d\n", unlockData.Size)))
+			} else {
+				feeSizeKnown = false
+			}
 
-				if unlockData.Value > 0 {
-					result.Write([]byte(fmt.Sprintf("      Value: %d\n", unlockData.Value)))
-				} else {
-					feeValueKnown = false
-				}
+			if unlockData.Value > 0 {
+				result.Write([]byte(fmt.Sprintf("      Value: %d\n", unlockData.Value)))
+			} else {
+				feeValueKnown = false
+			}
 
-				result.Write([]byte(fmt.Sprintf("      Party: %s\n\n", unlockData.Party)))
+			result.Write([]byte(fmt.Sprintf("      Party: %s\n\n", unlockData.Party)))
 
-				inputsValue += unlockData.Value
+			inputsValue += unlockData.Value
+			if unlockData.Size <= MaxUnlockingScriptSize {
 				inputsSize += InputBaseSize + wire.VarIntSerializeSize(uint64(unlockData.Size)) +
 					int(unlockData.Size)
-				continue
+			} else {
+				feeSizeKnown = false
 			}
+			continue
 		}
 
 		if len(txin.UnlockingScript) > 0 && !txin.UnlockingScript.IsFalseOpReturn() {
-- 
2.43.0


From b4ca5de6ed1c8fae3e46bb5b74d1a10c9ae58fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:43 +0000
Subject: [PATCH 24/33] fix: create_send refuses negative amounts instead of
 wrapping them

---
 cmd/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 3f5a018..32d2898 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -91,7 +91,7 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 	}
 	address := bitcoin.NewRawAddressFromAddress(ad)
 
-	amount, err := strconv.Atoi(args[2])
+	amount, err := strconv.ParseUint(args[2], 10, 64)
 	if err != nil {
 		fmt.Printf("Invalid amount : %s : %s\n", args[2], err)
 		return
@@ -124,7 +124,7 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 	}
 
 	if !changeAddress.Equal(address) {
-		if err := tx.AddPaymentOutput(address, uint64(amount), false); err != nil {
+		if err := tx.AddPaymentOutput(address, amount, false); err != nil {
 			fmt.Printf("Failed to add payment output : %s\n", err)
 			return
 		}
-- 
2.43.0


From e6f5d228249a9a0b8082b373a0af70ba39a42f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:44 +0000
Subject: [PATCH 25/33] fix: create_sends refuses a count less than one

---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 32d2898..e73d03f 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -174,6 +174,10 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		fmt.Printf("Invalid amount : %s : %s\n", args[0], err)
 		return
 	}
+	if count < 1 {
+		fmt.Printf("Invalid count : %s : must be at least one\n", args[0])
+		return
+	}
 
 	key, err := bitcoin.KeyFromStr(args[1])
 	if err != nil {
-- 
2.43.0


From ede4a999cbdac4c4147ff93b7f85fc8f17d7bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:45 +0000
Subject: [PATCH 26/33] fix: don't print transactions without outputs

create_sends crashed spending the missing output of the previous transaction.
---
 cmd/main.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index e73d03f..5ea916d 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -140,6 +140,11 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Insufficient value : nothing left after fee\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -227,6 +232,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	if len(tx.MsgTx.TxOut) == 0 {
+		fmt.Printf("Insufficient value : nothing left after fee\n")
+		return
+	}
+
 	buf := &bytes.Buffer{}
 	if err := tx.MsgTx.Serialize(buf); err != nil {
 		fmt.Printf("Failed to serialize tx : %s\n", err)
@@ -276,6 +286,11 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 			return
 		}
 
+		if len(tx.MsgTx.TxOut) == 0 {
+			fmt.Printf("Insufficient value : nothing left after fee\n")
+			return
+		}
+
 		buf := &bytes.Buffer{}
 		if err := tx.MsgTx.Serialize(buf); err != nil {
 			fmt.Printf("Failed to serialize tx : %s\n", err)
-- 
2.43.0


From bc39ccf96893f534bdef5f3f215336034f6473fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:46 +0000
Subject: [PATCH 27/33] fix: create_sends prints nothing when the chain can't
 be completed

---
 cmd/main.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 5ea916d..5228e5f 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -196,6 +196,9 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
+	// Only print the transactions when all of them can be created.
+	out := &bytes.Buffer{}
+
 	tx := txbuilder.NewTxBuilder(cfg.FeeRate, cfg.DustFeeRate)
 	for i := 2; i < len(args); i++ {
 		outpoint, err := wire.OutPointFromStr(args[i])
@@ -243,10 +246,10 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
-	fmt.Printf("Tx : %s\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))
+	fmt.Fprintf(out, "Tx : %s\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))
 
 	h := hex.EncodeToString(buf.Bytes())
-	fmt.Printf("Tx Hex : %s\n", h)
+	fmt.Fprintf(out, "Tx Hex : %s\n", h)
 
 	tefBuf := &bytes.Buffer{}
 	if err := tef.Serialize(tefBuf, tx); err != nil {
@@ -255,7 +258,7 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 	}
 
 	h = hex.EncodeToString(tefBuf.Bytes())
-	fmt.Printf("Extended Tx Hex : %s\n", h)
+	fmt.Fprintf(out, "Extended Tx Hex : %s\n", h)
 
 	cumulativeTefBuf := &bytes.Buffer{}
 	if err := tef.Serialize(cumulativeTefBuf, tx); err != nil {
@@ -297,10 +300,10 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 			return
 		}
 
-		fmt.Printf("Tx : %s\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))
+		fmt.Fprintf(out, "Tx : %s\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))
 
 		h := hex.EncodeToString(buf.Bytes())
-		fmt.Printf("Tx Hex : %s\n", h)
+		fmt.Fprintf(out, "Tx Hex : %s\n", h)
 
 		tefBuf := &bytes.Buffer{}
 		if err := tef.Serialize(tefBuf, tx); err != nil {
@@ -309,7 +312,7 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		}
 
 		h = hex.EncodeToString(tefBuf.Bytes())
-		fmt.Printf("Extended Tx Hex : %s\n", h)
+		fmt.Fprintf(out, "Extended Tx Hex : %s\n", h)
 
 		if err := tef.Serialize(cumulativeTefBuf, tx); err != nil {
 			fmt.Printf("Failed to serialize extended tx format : %s\n", err)
@@ -318,7 +321,9 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 	}
 
 	h = hex.EncodeToString(cumulativeTefBuf.Bytes())
-	fmt.Printf("Cumulative Extended Txs Hex : %s\n", h)
+	fmt.Fprintf(out, "Cumulative Extended Txs Hex : %s\n", h)
+
+	fmt.Print(out.String())
 }
 
 func Consolidate(ctx context.Context, cfg *Config, args []string) {
-- 
2.43.0


From 13daeee24b5c0cdc0021a3ba6f882e37a5d2cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:46 +0000
Subject: [PATCH 28/33] fix: check that the transaction from the explorer is
 the requested one

---
 cmd/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index 5228e5f..807d058 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -446,6 +446,10 @@ func GetTx(ctx context.Context, cfg *Config, hash bitcoin.Hash32) (*wire.MsgTx,
 		return nil, errors.Wrap(err, "decode tx")
 	}
 
+	if txid := *tx.TxHash(); !txid.Equal(&hash) {
+		return nil, fmt.Errorf("Wrong tx : got %s, want %s", txid, hash)
+	}
+
 	return tx, nil
 }
 
-- 
2.43.0


From e9e4b58bd2df0576b78c37b544a12db0016796f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:27 +0000
Subject: [PATCH 29/33] fix: show the addresses of the configured network and
 exact values in the tool's listing

---
 cmd/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 807d058..e5ebeca 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -151,7 +151,7 @@ func CreateSend(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
-	fmt.Printf("Tx : %s\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))
+	fmt.Printf("Tx : %s\n", tx.String(cfg.Network))
 
 	h := hex.EncodeToString(buf.Bytes())
 	fmt.Printf("Tx Hex : %s\n", h)
@@ -246,7 +246,7 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
-	fmt.Fprintf(out, "Tx : %s\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))
+	fmt.Fprintf(out, "Tx : %s\n", tx.String(cfg.Network))
 
 	h := hex.EncodeToString(buf.Bytes())
 	fmt.Fprintf(out, "Tx Hex : %s\n", h)
@@ -300,7 +300,7 @@ func CreateSends(ctx context.Context, cfg *Config, args []string) {
 			return
 		}
 
-		fmt.Fprintf(out, "Tx : %s\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))
+		fmt.Fprintf(out, "Tx : %s\n", tx.String(cfg.Network))
 
 		h := hex.EncodeToString(buf.Bytes())
 		fmt.Fprintf(out, "Tx Hex : %s\n", h)
@@ -381,7 +381,7 @@ func Consolidate(ctx context.Context, cfg *Config, args []string) {
 		return
 	}
 
-	fmt.Printf("Tx : %s\n", tx.MsgTx.StringWithAddresses(bitcoin.MainNet))
+	fmt.Printf("Tx : %s\n", tx.String(cfg.Network))
 
 	h := hex.EncodeToString(buf.Bytes())
 	fmt.Printf("Tx Hex : %s\n", h)
-- 
2.43.0


From fb77bd8fd7f8ba4249099e8df29fff72b0fc227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:08 +0000
Subject: [PATCH 30/33] fix: refuse to add to an output value beyond what fits

---
 outputs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/outputs.go b/outputs.go
index 6c42974..c413522 100644
--- a/outputs.go
+++ b/outputs.go
@@ -2,6 +2,7 @@ package txbuilder
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/tokenized/pkg/bitcoin"
 	"github.com/tokenized/pkg/wire"
@@ -259,6 +260,10 @@ func (tx *TxBuilder) AddValueToOutput(index uint32, value uint64) error {
 		tx.Outputs[index].IsDust = false
 		tx.MsgTx.TxOut[index].Value = value
 	} else {
+		if value > math.MaxUint64-tx.MsgTx.TxOut[index].Value {
+			return fmt.Errorf("Output value too large to add : %d + %d",
+				tx.MsgTx.TxOut[index].Value, value)
+		}
 		tx.MsgTx.TxOut[index].Value += value
 	}
 	return nil
-- 
2.43.0


From 9ef02f60cc486c98e3c01591a86f7dc2639fba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:53 +0000
Subject: [PATCH 31/33] fix: return a key that signs an input more than once
 only once

---
 sign.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sign.go b/sign.go
index 77889b9..d0729e2 100644
--- a/sign.go
+++ b/sign.go
@@ -209,7 +209,7 @@ func appendKeys(list []bitcoin.Key, keys ...bitcoin.Key) []bitcoin.Key {
 	result := list
 	for _, key := range keys {
 		found := false
-		for _, k := range list {
+		for _, k := range result {
 			if k.Equal(key) {
 				found = true
 				break
-- 
2.43.0


From 2d10c7d1a32f99ee6b54f53c75bc7ce4cbf6ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:52 +0000
Subject: [PATCH 32/33] fix: keep parts of very large quantities from wrapping
 around

BreakQuantity multiplies the break value by up to 5000. With break values near
64 bits the product wrapped around, so parts far below the break value were
returned.
---
 break_value.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/break_value.go b/break_value.go
index c8a5aa8..9d6cbee 100644
--- a/break_value.go
+++ b/break_value.go
@@ -345,7 +345,8 @@ func BreakQuantity(value, breakValue uint64, count int) ([]uint64, error) {
 			quantity = quantity - (quantity / 10) + uint64(rand.Int63n(int64(quantity/5)))
 		}
 
-		if quantity > remaining {
+		// A multiple that is too large for 64 bits wraps around to less than the break value.
+		if quantity > remaining || quantity < breakValue-(breakValue/10) {
 			quantity = remaining
 		}
 
-- 
2.43.0


From 69081d5d90931f6ab28c80fe30a659d9b14ecf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:48:45 +0000
Subject: [PATCH 33/33] fix: don't report missing data for coinbase inputs in
 builders made from wire txs

---
 txbuilder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/txbuilder.go b/txbuilder.go
index cf99ab9..3caa4b5 100644
--- a/txbuilder.go
+++ b/txbuilder.go
@@ -204,7 +204,9 @@ func NewTxBuilderFromWire(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 		}
 		if !found {
 			result.Inputs[i] = &InputSupplement{}
-			missingErr = ErrMissingInputData
+			if !input.PreviousOutPoint.Hash.IsZero() { // coinbase doesn't spend an output
+				missingErr = ErrMissingInputData
+			}
 		}
 	}
 
@@ -247,7 +249,9 @@ func NewTxBuilderFromWireUTXOs(feeRate, dustFeeRate float32, tx *wire.MsgTx,
 		}
 		if !found {
 			result.Inputs[i] = &InputSupplement{}
-			missingErr = ErrMissingInputData
+			if !input.PreviousOutPoint.Hash.IsZero() { // coinbase doesn't spend an output
+				missingErr = ErrMissingInputData
+			}
 		}
 	}
 
-- 
2.43.0

