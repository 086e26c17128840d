From 00702c26a15de4587f580a75f5c7f7142e1a1cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 01/19] fix: ToCsvFile reports flush and close errors

---
 mat/mat_io.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index db3ad42..80b7144 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -279,9 +279,13 @@ func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
-
 	buf := bufio.NewWriter(f)
-	defer buf.Flush()
-	return m.WriteStr(buf, delimiter)
+	err = m.WriteStr(buf, delimiter)
+	if err == nil {
+		err = buf.Flush()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
-- 
2.43.0


From 62580baf3687a69ffaf9725a6517f0f240a9bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 02/19] fix: dense matrix columns are set by the first row,
 even an empty one

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 80b7144..f42c049 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -119,7 +119,7 @@ func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
 		}
 		mat.Values = append(mat.Values, r.value)
 	}
-	if mat.Cols == 0 {
+	if mat.Rows == 0 {
 		mat.Cols = len(records)
 	} else if mat.Cols != len(records) {
 		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
-- 
2.43.0


From c9b6a01b41cc89ad3ce2f3aaea5a5ac3e4ad7afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 03/19] fix: pickle decoder tolerates reads that return no
 bytes

---
 internal/pickle/decoder.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5653c78..5c04750 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -30,11 +30,9 @@ func (d *Decoder) Decode() (interface{}, error) {
 	buf := make([]byte, 1024)
 loop:
 	for {
-		length, err := d.reader.Read(buf[:1])
+		_, err := io.ReadFull(d.reader, buf[:1])
 		if err != nil {
 			return nil, err
-		} else if length != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 
 		nInstr++
@@ -178,11 +176,9 @@ func (d *Decoder) readLine() ([]byte, error) {
 	line := make([]byte, 0)
 	buf := make([]byte, 1)
 	for {
-		len, err := d.reader.Read(buf)
+		_, err := io.ReadFull(d.reader, buf)
 		if err != nil {
 			return nil, err
-		} else if len != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 		if buf[0] == '\n' {
 			break
-- 
2.43.0


From b479c6f3cddf395a00f026ebd6a9e2ecfbdedb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 04/19] fix: truncated LightGBM text model is refused instead
 of loaded with a cut value

---
 lgensemble_io.go | 16 ++++++++++++++--
 util/util.go     | 13 +++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c25aa45..733138e 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -101,8 +101,18 @@ var stringToMissingType = map[string]uint8{
 }
 
 func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
+	return lgReadTree(reader, false)
+}
+
+// lgReadTree reads tree section. If `wholeLines` is set, the section that ends in the
+// middle of a line is treated as an error
+func lgReadTree(reader *bufio.Reader, wholeLines bool) (lgTree, error) {
 	t := lgTree{}
-	params, err := util.ReadParamsUntilBlank(reader)
+	readParams := util.ReadParamsUntilBlank
+	if wholeLines {
+		readParams = util.ReadWholeParamsUntilBlank
+	}
+	params, err := readParams(reader)
 	if err != nil {
 		return t, err
 	}
@@ -381,7 +391,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 
 	e.Trees = make([]lgTree, 0, nTrees)
 	for i := 0; i < nTrees; i++ {
-		tree, err := lgTreeFromReader(reader)
+		// tree sections are always followed by other lines in the model file, so a
+		// section that ends in the middle of a line belongs to a truncated file
+		tree, err := lgReadTree(reader, true)
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
diff --git a/util/util.go b/util/util.go
index 5aa0081..544ae35 100644
--- a/util/util.go
+++ b/util/util.go
@@ -27,6 +27,16 @@ func MinInt(a, b int) int {
 type stringParams map[string]string
 
 func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
+	return readParamsUntilBlank(reader, false)
+}
+
+// ReadWholeParamsUntilBlank works like ReadParamsUntilBlank, but returns
+// io.ErrUnexpectedEOF if the stream ends in the middle of a line
+func ReadWholeParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
+	return readParamsUntilBlank(reader, true)
+}
+
+func readParamsUntilBlank(reader *bufio.Reader, wholeLines bool) (stringParams, error) {
 	params := make(stringParams)
 	var line string
 	var err error
@@ -54,6 +64,9 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 		if err != nil && err != io.EOF {
 			return nil, err
 		}
+		if wholeLines && err == io.EOF && line != "" {
+			return nil, io.ErrUnexpectedEOF
+		}
 		line = strings.TrimSpace(line)
 		if line == "" {
 			break
-- 
2.43.0


From c9294b036c96fe438dd7a1256b6b87f5144509a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 05/19] fix: NFeatures of a model with one feature is 1

---
 lgensemble.go | 2 +-
 xgensemble.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgensemble.go b/lgensemble.go
index c45ba2c..18f0143 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -27,7 +27,7 @@ func (e *lgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *lgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
diff --git a/xgensemble.go b/xgensemble.go
index 35e3c51..2396e72 100644
--- a/xgensemble.go
+++ b/xgensemble.go
@@ -26,7 +26,7 @@ func (e *xgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *xgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
-- 
2.43.0


From 8885624eaf96361e151741bedbf1e3ae9bffc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 06/19] fix: exponential transformation reports its own name

---
 transformation/exponential.go    | 2 +-
 transformation/transformation.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/transformation/exponential.go b/transformation/exponential.go
index 87c1195..14491df 100644
--- a/transformation/exponential.go
+++ b/transformation/exponential.go
@@ -25,6 +25,6 @@ func (t *TransformExponential) Type() TransformType {
 }
 
 func (t *TransformExponential) Name() string {
-	return Logistic.Name()
+	return Exponential.Name()
 }
 
diff --git a/transformation/transformation.go b/transformation/transformation.go
index fe976eb..660e963 100644
--- a/transformation/transformation.go
+++ b/transformation/transformation.go
@@ -34,6 +34,7 @@ func (t TransformType) Name() string {
 		"logistic",
 		"softmax",
 		"leaf_index",
+		"exponential",
 	}
 	if t < Raw || t > Last {
 		return "unknown"
-- 
2.43.0


From 703d68c131ae8d564e384d797a2f3a78d2460155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 07/19] fix: damaged LightGBM text model is refused instead of
 crashing or hanging predictions

---
 lgensemble.go    | 11 +++++++++++
 lgensemble_io.go | 28 ++++++++++++++++++++++++++++
 lgtree.go        | 30 ++++++++++++++++++++++++++++++
 3 files changed, 69 insertions(+)

diff --git a/lgensemble.go b/lgensemble.go
index 18f0143..8e20668 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -1,6 +1,9 @@
 package leaves
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/dmitryikh/leaves/util"
 )
 
@@ -18,6 +21,14 @@ type lgEnsemble struct {
 	averageOutput bool
 }
 
+// checkMaxFeatureIdx verifies that feature indices fit lightgbm's integer type
+func checkMaxFeatureIdx(maxFeatureIdx int) error {
+	if maxFeatureIdx < 0 || maxFeatureIdx >= math.MaxInt32 {
+		return fmt.Errorf("wrong max_feature_idx (%d)", maxFeatureIdx)
+	}
+	return nil
+}
+
 func (e *lgEnsemble) NEstimators() int {
 	return len(e.Trees) / e.nRawOutputGroups
 }
diff --git a/lgensemble_io.go b/lgensemble_io.go
index 733138e..31178d2 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -135,6 +135,9 @@ func lgReadTree(reader *bufio.Reader, wholeLines bool) (lgTree, error) {
 	if err != nil {
 		return t, err
 	}
+	if len(leafValues) != numLeaves {
+		return t, fmt.Errorf("expected %d leaf values (got %d)", numLeaves, len(leafValues))
+	}
 	t.leafValues = leafValues
 
 	if numLeaves == 1 {
@@ -163,6 +166,16 @@ func lgReadTree(reader *bufio.Reader, wholeLines bool) (lgTree, error) {
 		return t, err
 	}
 
+	if len(leftChilds) != numNodes || len(rightChilds) != numNodes || len(decisionTypes) != numNodes ||
+		len(splitFeatures) != numNodes || len(thresholds) != numNodes {
+		return t, fmt.Errorf("expected %d elements in every tree node field", numNodes)
+	}
+	for i := 0; i < numNodes; i++ {
+		if int(leftChilds[i]) >= numNodes || int(rightChilds[i]) >= numNodes {
+			return t, fmt.Errorf("wrong child index in node %d", i)
+		}
+	}
+
 	catThresholds := make([]uint32, 0)
 	catBoundaries := make([]uint32, 0)
 	if numCategorical > 0 {
@@ -207,7 +220,13 @@ func lgReadTree(reader *bufio.Reader, wholeLines bool) (lgTree, error) {
 			return node, err
 		}
 
+		if !(thresholds[idx] >= 0 && thresholds[idx] < float64(len(catBoundaries)-1)) {
+			return node, fmt.Errorf("wrong index of categorical threshold %g", thresholds[idx])
+		}
 		catIdx := uint32(thresholds[idx])
+		if catBoundaries[catIdx] > catBoundaries[catIdx+1] || int(catBoundaries[catIdx+1]) > len(catThresholds) {
+			return node, fmt.Errorf("wrong cat_boundaries")
+		}
 		catType := uint8(0)
 		bitsetSize := catBoundaries[catIdx+1] - catBoundaries[catIdx]
 		thresholdSlice := catThresholds[catBoundaries[catIdx]:catBoundaries[catIdx+1]]
@@ -296,6 +315,9 @@ func lgReadTree(reader *bufio.Reader, wholeLines bool) (lgTree, error) {
 		origNodeIdxStack = origNodeIdxStack[:len(origNodeIdxStack)-1]
 		convNodeIdxStack = convNodeIdxStack[:len(convNodeIdxStack)-1]
 	}
+	if len(t.nodes) != numNodes {
+		return t, fmt.Errorf("nodes don't form a tree")
+	}
 	return t, nil
 }
 
@@ -334,6 +356,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	if err != nil {
 		return nil, err
 	}
+	if err := checkMaxFeatureIdx(maxFeatureIdx); err != nil {
+		return nil, err
+	}
 	e.MaxFeatureIdx = maxFeatureIdx
 
 	if params.Contains("average_output") {
@@ -397,6 +422,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.check(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
diff --git a/lgtree.go b/lgtree.go
index c2d9894..7295f58 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -1,6 +1,7 @@
 package leaves
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/dmitryikh/leaves/util"
@@ -104,6 +105,35 @@ func (t *lgTree) findInBitset(idx uint32, pos uint32) bool {
 	return (t.catThresholds[idxS+i1]>>i2)&1 > 0
 }
 
+// check verifies that any vector of `nFeatures` features leads to some leaf of the tree
+func (t *lgTree) check(nFeatures int) error {
+	if len(t.nodes) == 0 && len(t.leafValues) == 0 {
+		return fmt.Errorf("tree without leaves")
+	}
+	for i := range t.nodes {
+		node := &t.nodes[i]
+		if int(node.Feature) >= nFeatures {
+			return fmt.Errorf("wrong feature index %d", node.Feature)
+		}
+		// NOTE: `predict` relies on the fact that the right child follows its parent
+		if node.Flags&rightLeaf > 0 {
+			if int(node.Right) >= len(t.leafValues) {
+				return fmt.Errorf("wrong leaf index %d", node.Right)
+			}
+		} else if int(node.Right) != i+1 || i+1 >= len(t.nodes) {
+			return fmt.Errorf("nodes don't form a tree")
+		}
+		if node.Flags&leftLeaf > 0 {
+			if int(node.Left) >= len(t.leafValues) {
+				return fmt.Errorf("wrong leaf index %d", node.Left)
+			}
+		} else if int(node.Left) <= i || int(node.Left) >= len(t.nodes) {
+			return fmt.Errorf("nodes don't form a tree")
+		}
+	}
+	return nil
+}
+
 func (t *lgTree) nLeaves() int {
 	return len(t.nodes) + 1
 }
-- 
2.43.0


From aec05e8a0e26eaa66f1ad03af3a3d34a146d6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 08/19] fix: damaged LightGBM JSON model is refused instead of
 crashing

---
 lgensemble_io.go | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 31178d2..e4bcfbf 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -476,6 +477,28 @@ func unmarshalNode(raw []byte) (interface{}, error) {
 	return node, nil
 }
 
+// countNodes returns number of nodes with decision rule in the unmarshaled tree
+func countNodes(root interface{}) int {
+	if node, ok := root.(*lgNodeJSON); ok {
+		return 1 + countNodes(node.LeftChild) + countNodes(node.RightChild)
+	}
+	return 0
+}
+
+// category values in sets are limited because bitset size is defined by the largest value
+const maxCategoryInSet = 1 << 26
+
+func categoryFromString(valueStr string, maxValue int) (int, error) {
+	value, err := strconv.Atoi(valueStr)
+	if err != nil {
+		return 0, fmt.Errorf("can't convert %s: %s", valueStr, err.Error())
+	}
+	if value < 0 || value > maxValue {
+		return 0, fmt.Errorf("category value %d is out of range", value)
+	}
+	return value, nil
+}
+
 // unmarshalTree unmarshal tree data from JSON raw data and convert it to `lgTree` structure
 func unmarshalTree(raw []byte) (lgTree, error) {
 	t := lgTree{}
@@ -495,12 +518,12 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 	if treeJSON.NumLeaves < 1 {
 		return t, fmt.Errorf("num_leaves < 1")
 	}
-	numNodes := treeJSON.NumLeaves - 1
 
 	treeJSON.Root, err = unmarshalNode(treeJSON.RootRaw)
 	if err != nil {
 		return t, err
 	}
+	numNodes := countNodes(treeJSON.Root)
 
 	if value, ok := treeJSON.Root.(float64); ok {
 		// special case - constant value tree
@@ -555,18 +578,18 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		if nBits == 0 {
 			return node, fmt.Errorf("no bits set")
 		} else if nBits == 1 {
-			value, err := strconv.Atoi(tokens[0])
+			value, err := categoryFromString(tokens[0], math.MaxInt32)
 			if err != nil {
-				return node, fmt.Errorf("can't convert %s: %s", tokens[0], err.Error())
+				return node, err
 			}
 			catIdx = uint32(value)
 			catType = catOneHot
 		} else {
 			thresholdValues := make([]int, len(tokens))
 			for i, valueStr := range tokens {
-				value, err := strconv.Atoi(valueStr)
+				value, err := categoryFromString(valueStr, maxCategoryInSet)
 				if err != nil {
-					return node, fmt.Errorf("can't convert %s: %s", valueStr, err.Error())
+					return node, err
 				}
 				thresholdValues[i] = value
 			}
@@ -577,6 +600,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 				catType = catSmall
 			} else {
 				// regular case with large bitset
+				if len(t.catBoundaries) == 0 {
+					return node, fmt.Errorf("categorical node in a tree with num_cat = 0")
+				}
 				catIdx = uint32(len(t.catBoundaries) - 1)
 				t.catThresholds = append(t.catThresholds, bitset...)
 				t.catBoundaries = append(t.catBoundaries, uint32(len(t.catThresholds)))
@@ -688,6 +714,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		return nil, fmt.Errorf("num_tree_per_iteration (%d) should be > 0", data.NumTreesPerIteration)
 	}
 	e.nRawOutputGroups = data.NumClasses
+	if err := checkMaxFeatureIdx(data.MaxFeatureIdx); err != nil {
+		return nil, err
+	}
 	e.MaxFeatureIdx = data.MaxFeatureIdx
 
 	nTrees := len(data.Trees)
@@ -703,6 +732,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.check(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil
-- 
2.43.0


From 1abf26527282936fb933e8ca5ac915c66e5f7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 09/19] fix: damaged XGBoost tree model is refused instead of
 crashing or hanging

---
 internal/xgbin/xgbin_io.go | 45 ++++++++++++++++++++++++++++++++------
 xgensemble_io.go           | 15 +++++++++++++
 2 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/internal/xgbin/xgbin_io.go b/internal/xgbin/xgbin_io.go
index c2bd9fd..5f3f0d2 100644
--- a/internal/xgbin/xgbin_io.go
+++ b/internal/xgbin/xgbin_io.go
@@ -2,7 +2,11 @@ package xgbin
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
+	"fmt"
+	"io"
+	"math"
 )
 
 // Most data structures from this packages are mirrors from original XGBoost
@@ -153,6 +157,22 @@ type GBLinearModel struct {
 	Weights []float32
 }
 
+// readBytes reads `size` elements of `elementSize` bytes. Memory is allocated as
+// data arrives, because `size` comes from the file and can't be trusted
+func readBytes(reader io.Reader, size uint64, elementSize uint64) ([]byte, error) {
+	if size > math.MaxInt64/elementSize {
+		return nil, fmt.Errorf("wrong number of elements (%d)", size)
+	}
+	buf := bytes.Buffer{}
+	_, err := io.CopyN(&buf, reader, int64(size*elementSize))
+	if err == io.EOF {
+		return nil, io.ErrUnexpectedEOF
+	} else if err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 // ReadStruct - read arbitrary data structure from binary stream
 func ReadStruct(reader *bufio.Reader, dst interface{}) error {
 	err := binary.Read(reader, binary.LittleEndian, dst)
@@ -173,12 +193,11 @@ func ReadString(reader *bufio.Reader) (string, error) {
 	if size == 0 {
 		return "", nil
 	}
-	bytes := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, &bytes)
+	data, err := readBytes(reader, size, 1)
 	if err != nil {
 		return "", err
 	}
-	return string(bytes), nil
+	return string(data), nil
 }
 
 // ReadFloat32Slice - read vector of floats from binary stream
@@ -192,8 +211,12 @@ func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
 	if size == 0 {
 		return nil, nil
 	}
+	data, err := readBytes(reader, size, 4)
+	if err != nil {
+		return nil, err
+	}
 	vec := make([]float32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	err = binary.Read(bytes.NewReader(data), binary.LittleEndian, &vec)
 	if err != nil {
 		return nil, err
 	}
@@ -211,8 +234,12 @@ func ReadInt32Slice(reader *bufio.Reader) ([]int32, error) {
 	if size == 0 {
 		return nil, nil
 	}
+	data, err := readBytes(reader, size, 4)
+	if err != nil {
+		return nil, err
+	}
 	vec := make([]int32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	err = binary.Read(bytes.NewReader(data), binary.LittleEndian, &vec)
 	if err != nil {
 		return nil, err
 	}
@@ -249,6 +276,9 @@ func ReadGBTreeModel(reader *bufio.Reader) (*GBTreeModel, error) {
 		return nil, err
 	}
 
+	if gBTreeModel.Param.NumTrees < 0 {
+		return nil, fmt.Errorf("negative number of trees (%d)", gBTreeModel.Param.NumTrees)
+	}
 	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {
 		tree, err := ReadTreeModel(reader)
 		if err != nil {
@@ -276,8 +306,9 @@ func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
 	if err != nil {
 		return nil, err
 	}
-	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)
-	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)
+	if treeModel.Param.NumNodes < 0 {
+		return nil, fmt.Errorf("negative number of nodes (%d)", treeModel.Param.NumNodes)
+	}
 	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
 		node := Node{}
 		err := ReadStruct(reader, &node)
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5102dfc..b8b50e3 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -68,6 +68,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if origNode.CRight < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CRight < 0")
 		}
+		if int(origNode.CLeft) >= len(origTree.Nodes) || int(origNode.CRight) >= len(origTree.Nodes) {
+			return node, fmt.Errorf("wrong child index")
+		}
 		if xgIsLeaf(&origTree.Nodes[origNode.CLeft]) {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
@@ -199,6 +202,15 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	// 		header.Param.NumClass, origModel.Param.NumOutputGroup)
 	// }
 	e.nRawOutputGroups = int(origModel.Param.NumOutputGroup)
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups should be > 0 (got %d)", e.nRawOutputGroups)
+	}
+	if int(origModel.Param.NumTrees)%e.nRawOutputGroups != 0 {
+		return nil, fmt.Errorf("wrong number of trees (%d) for number of output groups (%d)",
+			origModel.Param.NumTrees,
+			e.nRawOutputGroups,
+		)
+	}
 	if origModel.Param.NumRoots != 1 {
 		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)
 	}
@@ -243,6 +255,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.check(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
-- 
2.43.0


From 9c7eeae38bed9adb3a74a8c5e01640779c7cf6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 10/19] fix: damaged gblinear model is refused instead of
 crashing predictions

---
 xgblinear_io.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xgblinear_io.go b/xgblinear_io.go
index 7c14333..9f71603 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -34,6 +34,17 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
 	e.NumFeature = int(gbLinearModel.Param.NumFeature)
 	e.Weights = gbLinearModel.Weights
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups should be > 0 (got %d)", e.nRawOutputGroups)
+	}
+	// every group has a weight for each feature and a bias
+	if int64(len(e.Weights)) != (int64(e.NumFeature)+1)*int64(e.nRawOutputGroups) {
+		return nil, fmt.Errorf("unexpected number of weights (%d) for %d features and %d output groups",
+			len(e.Weights),
+			e.NumFeature,
+			e.nRawOutputGroups,
+		)
+	}
 
 	var transform transformation.Transform
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
-- 
2.43.0


From e038d3c00a40539406de641034d6393fcd296774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 11/19] fix: damaged pickle is refused instead of crashing the
 decoder

---
 internal/pickle/decoder.go | 60 ++++++++++++++++++++++++++++----------
 internal/pickle/machine.go | 55 +++++++++++++++++++++++++++-------
 internal/pickle/numpy.go   |  8 ++---
 internal/pickle/sklearn.go |  6 ++--
 internal/pickle/types.go   |  4 +--
 5 files changed, 97 insertions(+), 36 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5c04750..561f093 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -44,13 +44,18 @@ loop:
 			if err != nil {
 				return nil, err
 			}
-			d.machine.putMemory(string(line))
+			if err := d.machine.putMemory(string(line)); err != nil {
+				return nil, err
+			}
 		case opGet:
 			line, err := d.readLine()
 			if err != nil {
 				return nil, err
 			}
-			obj := d.machine.getMemory(string(line))
+			obj, err := d.machine.getMemory(string(line))
+			if err != nil {
+				return nil, err
+			}
 			d.machine.push(obj)
 		case opGlobal:
 			module, err := d.readLine()
@@ -97,14 +102,24 @@ loop:
 			}
 			d.machine.push(v)
 		case opTuple:
-			tuple := append(Tuple{}, d.machine.popMark()...)
+			objs, err := d.machine.popMark()
+			if err != nil {
+				return nil, err
+			}
+			tuple := append(Tuple{}, objs...)
 			d.machine.push(tuple)
 		case opList:
-			list := append(List{}, d.machine.popMark()...)
+			objs, err := d.machine.popMark()
+			if err != nil {
+				return nil, err
+			}
+			list := append(List{}, objs...)
 			d.machine.push(list)
 		case opAppend:
-			el := d.machine.pop()
-			obj := d.machine.pop()
+			el, obj, err := d.machine.popPair()
+			if err != nil {
+				return nil, err
+			}
 			list, err := toList(obj, -1)
 			if err != nil {
 				return nil, err
@@ -118,24 +133,31 @@ loop:
 			}
 			d.machine.push(decodeUnicode(line))
 		case opReduce:
-			args := d.machine.pop()
-			callable := d.machine.pop()
+			args, callable, err := d.machine.popPair()
+			if err != nil {
+				return nil, err
+			}
 			r := Reduce{Callable: callable}
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
-				return nil, fmt.Errorf("reduce: unexpected args %v", args)
+				return nil, fmt.Errorf("reduce: unexpected args %T", args)
 			}
 			d.machine.push(r)
 		case opNone:
 			d.machine.push(None{})
 		case opBuild:
-			args := d.machine.pop()
-			obj := d.machine.pop()
+			args, obj, err := d.machine.popPair()
+			if err != nil {
+				return nil, err
+			}
 			b := Build{Object: obj, Args: args}
 			d.machine.push(b)
 		case opDict:
-			objs := d.machine.popMark()
+			objs, err := d.machine.popMark()
+			if err != nil {
+				return nil, err
+			}
 			nObjs := len(objs)
 			dict := make(Dict, 0)
 			if nObjs%2 != 0 {
@@ -151,9 +173,15 @@ loop:
 			}
 			d.machine.push(dict)
 		case opSetitem:
-			v := d.machine.pop()
-			k := d.machine.pop()
-			dict, err := toDict(d.machine.back())
+			v, k, err := d.machine.popPair()
+			if err != nil {
+				return nil, err
+			}
+			obj, err := d.machine.back()
+			if err != nil {
+				return nil, err
+			}
+			dict, err := toDict(obj)
 			if err != nil {
 				return nil, err
 			}
@@ -169,7 +197,7 @@ loop:
 			return nil, fmt.Errorf("unknown op code: %d", buf[0])
 		}
 	}
-	return d.machine.back(), nil
+	return d.machine.back()
 }
 
 func (d *Decoder) readLine() ([]byte, error) {
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 2b9c498..bf3e0c6 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -1,5 +1,7 @@
 package pickle
 
+import "fmt"
+
 // machine represents pickle abstract machine with stack, marks and
 // memory. It's used to represent unpickled object state while reading pickle file
 // command by command
@@ -20,32 +22,63 @@ func (m *machine) pushMark() {
 	m.marks = append(m.marks, len(m.stack))
 }
 
-func (m *machine) popMark() []interface{} {
+func (m *machine) popMark() ([]interface{}, error) {
+	if len(m.marks) == 0 {
+		return nil, fmt.Errorf("no mark on the stack")
+	}
 	idx := m.marks[len(m.marks)-1]
 	m.marks = m.marks[:len(m.marks)-1]
+	if idx > len(m.stack) {
+		return nil, fmt.Errorf("stack is below the mark")
+	}
 	markedObjects := m.stack[idx:len(m.stack)]
 	m.stack = m.stack[:idx]
-	return markedObjects
+	return markedObjects, nil
 }
 
 func (m *machine) push(obj interface{}) {
 	m.stack = append(m.stack, obj)
 }
 
-func (m *machine) pop() interface{} {
-	obj := m.stack[len(m.stack)-1]
+func (m *machine) pop() (interface{}, error) {
+	obj, err := m.back()
+	if err != nil {
+		return nil, err
+	}
 	m.stack = m.stack[:len(m.stack)-1]
-	return obj
+	return obj, nil
+}
+
+// popPair pops the topmost object and the object below it
+func (m *machine) popPair() (top interface{}, below interface{}, err error) {
+	top, err = m.pop()
+	if err != nil {
+		return nil, nil, err
+	}
+	below, err = m.pop()
+	return top, below, err
 }
 
-func (m *machine) back() interface{} {
-	return m.stack[len(m.stack)-1]
+func (m *machine) back() (interface{}, error) {
+	if len(m.stack) == 0 {
+		return nil, fmt.Errorf("stack is empty")
+	}
+	return m.stack[len(m.stack)-1], nil
 }
 
-func (m *machine) putMemory(key string) {
-	m.memory[key] = m.stack[len(m.stack)-1]
+func (m *machine) putMemory(key string) error {
+	obj, err := m.back()
+	if err != nil {
+		return err
+	}
+	m.memory[key] = obj
+	return nil
 }
 
-func (m *machine) getMemory(key string) interface{} {
-	return m.memory[key]
+func (m *machine) getMemory(key string) (interface{}, error) {
+	obj, isFound := m.memory[key]
+	if !isFound {
+		return nil, fmt.Errorf("no object '%s' in memory", key)
+	}
+	return obj, nil
 }
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 85c98bb..9c67f53 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -21,7 +21,7 @@ func (a *NumpyArrayRaw) Reduce(reduce Reduce) (err error) {
 	}
 
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "numpy", "ndarray")
 	if err != nil {
@@ -94,7 +94,7 @@ func (b *NumpyRawBytes) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -134,7 +134,7 @@ func (d *NumpyDType) Reduce(reduce Reduce) error {
 		return err
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -172,7 +172,7 @@ func (s *NumpyScalarRaw) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	err = ParseClass(&s.Type, reduce.Args[0])
 	if err != nil {
diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fb238e0..11f0fb2 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -153,7 +153,7 @@ func (t *SklearnDecisionTreeRegressor) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.tree.tree", "DecisionTreeRegressor")
 	if err != nil {
@@ -216,7 +216,7 @@ func (t *SklearnGradientBoosting) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
 	if err != nil {
@@ -335,7 +335,7 @@ func (e *SKlearnInitEstimator) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	classDesc, err := toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "")
 	if err != nil {
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 54c6c38..1d533a2 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -133,7 +133,7 @@ func (d *Dict) toInt(key string) (int, error) {
 	}
 	intValue, ok := value.(int)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return intValue, nil
 }
@@ -145,7 +145,7 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	}
 	floatValue, ok := value.(float64)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return floatValue, nil
 }
-- 
2.43.0


From e4a75b4791e2e13b0646b29fbe2a74494dbd815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 12/19] fix: NFeatures of a sklearn model is the number of
 features, not max_features

---
 internal/pickle/sklearn.go | 13 +++++++++++++
 skensemble_io.go           |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 11f0fb2..027d955 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -205,6 +205,7 @@ type SklearnGradientBoosting struct {
 	Classes       []int
 	NEstimators   int
 	MaxFeatures   int
+	NFeatures     int
 	Estimators    []SklearnDecisionTreeRegressor
 	LearningRate  float64
 	InitEstimator SKlearnInitEstimator
@@ -287,6 +288,18 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if err != nil {
 		return
 	}
+	// NOTE: max_features_ is the number of features to look for the best split,
+	// it can be less than the number of features in the data
+	t.NFeatures = t.MaxFeatures
+	for _, key := range []string{"n_features_", "n_features"} {
+		if _, isFound := dict[key]; isFound {
+			t.NFeatures, err = dict.toInt(key)
+			if err != nil {
+				return
+			}
+			break
+		}
+	}
 	t.NEstimators, err = dict.toInt("n_estimators")
 	if err != nil {
 		return
diff --git a/skensemble_io.go b/skensemble_io.go
index 18f9159..eddfca0 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -132,7 +132,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	e.MaxFeatureIdx = gbdt.MaxFeatures - 1
+	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
 	if nTrees == 0 {
-- 
2.43.0


From 83a4d82d86dcbba97626b83c8c6dd1c7ee742096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 13/19] fix: damaged sklearn model is refused instead of
 crashing

---
 internal/pickle/sklearn.go | 21 +++++++++++++++------
 skensemble_io.go           | 24 ++++++++++++++++++++++--
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 027d955..d10caaa 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -72,14 +72,14 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NOutputs {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NOutputs {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NOutputs, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NOutputs)
+	t.Classes = make([]int, 0)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -179,6 +179,9 @@ func (t *SklearnDecisionTreeRegressor) Build(build Build) (err error) {
 	if nClassesRaw.Type.Type != "i8" || !nClassesRaw.Type.LittleEndinan {
 		return fmt.Errorf("expected little endian i8, got (%#v)", nClassesRaw.Type)
 	}
+	if len(nClassesRaw.Data) != 8 {
+		return fmt.Errorf("unexpected raw bytes length (got %d)", len(nClassesRaw.Data))
+	}
 	t.NClasses = int(binary.LittleEndian.Uint64(nClassesRaw.Data))
 	t.MaxFeatures, err = dict.toInt("max_features_")
 	if err != nil {
@@ -269,14 +272,14 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NClasses {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NClasses {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NClasses, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NClasses)
+	t.Classes = make([]int, 0)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -327,7 +330,7 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if len(arr.DataList) != arr.Shape[0]*arr.Shape[1] {
 		return fmt.Errorf("unexpected array list length")
 	}
-	t.Estimators = make([]SklearnDecisionTreeRegressor, arr.Shape[0]*arr.Shape[1])
+	t.Estimators = make([]SklearnDecisionTreeRegressor, len(arr.DataList))
 	for i := range arr.DataList {
 		err = ParseClass(&t.Estimators[i], arr.DataList[i])
 		if err != nil {
@@ -376,6 +379,9 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyScalar.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyScalar.Type)
 		}
+		if len(numpyScalar.Data) != 8 {
+			return fmt.Errorf("unexpected raw bytes length (got %d)", len(numpyScalar.Data))
+		}
 		e.Prior = append(e.Prior, util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan))
 	} else if e.Name == "PriorProbabilityEstimator" {
 		dict, err := toDict(build.Args)
@@ -394,10 +400,13 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyArray.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyArray.Type)
 		}
-		numpyArray.Data.Iterate(8, func(bytes []byte) error {
+		err = numpyArray.Data.Iterate(8, func(bytes []byte) error {
 			e.Prior = append(e.Prior, util.Float64FromBytes(bytes, numpyArray.Type.LittleEndinan))
 			return nil
 		})
+		if err != nil {
+			return err
+		}
 	} else {
 		return fmt.Errorf("unknown init estimator class: %s", e.Name)
 	}
diff --git a/skensemble_io.go b/skensemble_io.go
index eddfca0..905836a 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/pickle"
@@ -14,6 +15,10 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	// no support for categorical features in sklearn trees
 	t.nCategorical = 0
 
+	if tree.Tree.NNodes != len(tree.Tree.Nodes) || tree.Tree.NNodes != len(tree.Tree.Values) {
+		return t, fmt.Errorf("unexpected number of nodes (%d) or values (%d) (%d expected)", len(tree.Tree.Nodes), len(tree.Tree.Values), tree.Tree.NNodes)
+	}
+
 	numLeaves := 0
 	numNodes := 0
 	for _, n := range tree.Tree.Nodes {
@@ -21,6 +26,12 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 			numLeaves++
 		} else {
 			numNodes++
+			if n.LeftChild >= tree.Tree.NNodes || n.RightChild < 0 || n.RightChild >= tree.Tree.NNodes {
+				return t, fmt.Errorf("wrong child index")
+			}
+			if n.Feature < 0 || n.Feature > math.MaxInt32 {
+				return t, fmt.Errorf("wrong feature index %d", n.Feature)
+			}
 		}
 	}
 
@@ -135,9 +146,12 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
-	if nTrees == 0 {
+	if nTrees <= 0 {
 		return nil, fmt.Errorf("no trees in file")
 	}
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("unexpected number of classes (%d)", gbdt.NClasses)
+	}
 
 	if gbdt.NEstimators*e.nRawOutputGroups != len(gbdt.Estimators) {
 		return nil, fmt.Errorf("unexpected number of trees (NEstimators = %d, nRawOutputGroups = %d, len(Estimatoers) = %d", gbdt.NEstimators, e.nRawOutputGroups, len(gbdt.Estimators))
@@ -146,6 +160,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	scale := gbdt.LearningRate
 	base := make([]float64, e.nRawOutputGroups)
 	if gbdt.InitEstimator.Name == "LogOddsEstimator" {
+		if len(gbdt.InitEstimator.Prior) != 1 {
+			return nil, fmt.Errorf("len(gbdt.InitEstimator.Prior) != 1")
+		}
 		for i := 0; i < e.nRawOutputGroups; i++ {
 			base[i] = gbdt.InitEstimator.Prior[0]
 		}
@@ -158,7 +175,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		return nil, fmt.Errorf("unknown initial estimator \"%s\"", gbdt.InitEstimator.Name)
 	}
 
-	e.Trees = make([]lgTree, 0, gbdt.NEstimators*gbdt.NClasses)
+	e.Trees = make([]lgTree, 0, len(gbdt.Estimators))
 	for i := 0; i < gbdt.NEstimators; i++ {
 		for j := 0; j < e.nRawOutputGroups; j++ {
 			treeNum := i*e.nRawOutputGroups + j
@@ -166,6 +183,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 			if err != nil {
 				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
 			}
+			if err := tree.check(e.NFeatures()); err != nil {
+				return nil, fmt.Errorf("error while checking %d tree: %s", treeNum, err.Error())
+			}
 			e.Trees = append(e.Trees, tree)
 		}
 		for k := range base {
-- 
2.43.0


From 121e7586b8a67b0ad62e5e034eb016e59ca878a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 14/19] fix: sklearn tree with a single leaf reports one leaf

---
 skensemble_io.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index 905836a..052b402 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -40,15 +40,7 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	}
 
 	if numNodes == 0 {
-		// special case
-		// we mimic decision rule but left and right childs lead to the same result
-		t.nodes = make([]lgNode, 0, 1)
-		node := numericalNode(0, 0, 0.0, 0)
-		node.Flags |= leftLeaf
-		node.Flags |= rightLeaf
-		node.Left = uint32(len(t.leafValues))
-		node.Right = uint32(len(t.leafValues))
-		t.nodes = append(t.nodes, node)
+		// special case - constant value tree
 		t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)
 		return t, nil
 	}
-- 
2.43.0


From f6d8f0d8d2172490ea5f370dcb89a64ec766e5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 15/19] fix: sklearn model pickled by newer versions of Python
 is read

---
 internal/pickle/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 561f093..de59b17 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -219,6 +219,10 @@ func (d *Decoder) readLine() ([]byte, error) {
 func decodeUnicode(rawString []byte) Unicode {
 	// \u000a == \n
 	ret := bytes.Replace(rawString, []byte{'\\', 'u', '0', '0', '0', 'a'}, []byte{'\n'}, -1)
+	// newer versions of python escape three other symbols too
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '0', '0'}, []byte{0}, -1)
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '0', 'd'}, []byte{'\r'}, -1)
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '1', 'a'}, []byte{0x1a}, -1)
 	// \u005c' == \\
 	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '5', 'c'}, []byte{'\\'}, -1)
 	return Unicode(ret)
-- 
2.43.0


From 6105907496923a84dba6949b105deefb82dad0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 16/19] fix: softmax of large scores is not NaN

---
 util/util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 544ae35..1690e8e 100644
--- a/util/util.go
+++ b/util/util.go
@@ -272,9 +272,16 @@ func SigmoidFloat64SliceInplace(vec []float64) {
 }
 
 func SoftmaxFloat64Slice(rawValues []float64, outputValues []float64, startIndex int) {
+	// shift the values to keep math.Exp from overflow
+	max := math.Inf(-1)
+	for _, v := range rawValues {
+		if v > max {
+			max = v
+		}
+	}
 	sum := 0.0
 	for i, v := range rawValues {
-		exp := math.Exp(v)
+		exp := math.Exp(v - max)
 		outputValues[startIndex+i] = exp
 		sum += exp
 	}
-- 
2.43.0


From 1eeaa6a0060a33ce119dd3366cf04a1704b820ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 17/19] fix: XGBoost tree sends a value equal to the threshold
 to the right

---
 xgensemble_io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index b8b50e3..caae88f 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/xgbin"
@@ -60,7 +61,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if xgDefaultLeft(origNode) {
 			defaultType = defaultLeft
 		}
-		node = numericalNode(xgSplitIndex(origNode), missingType, float64(origNode.Info), defaultType)
+		// NOTE: XGBoost goes left if `fval < threshold`, but lgTree uses `<=`
+		threshold := math.Nextafter(float64(origNode.Info), math.Inf(-1))
+		node = numericalNode(xgSplitIndex(origNode), missingType, threshold, defaultType)
 
 		if origNode.CLeft < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CLeft < 0")
-- 
2.43.0


From a7323f9fe6a97d68ce2bec6c6a18901e9ccc5ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 18/19] fix: absent values at the ends of a CSV line are not
 lost if the delimiter is white space

---
 mat/mat_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index f42c049..d4e5f19 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type libsvmRecord struct {
@@ -210,7 +211,10 @@ func readFromCsv(reader *bufio.Reader,
 		if err != nil && err != io.EOF {
 			return err
 		}
-		line = strings.TrimSpace(line)
+		// NOTE: delimiters at the ends of the line are kept, there are absent values next to them
+		line = strings.TrimFunc(line, func(r rune) bool {
+			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
+		})
 		if line == "" {
 			break
 		}
-- 
2.43.0


From b430d9de30faa3e74a1270a36bd35e071b18275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 19/19] fix: libsvm values behind two spaces in a row are not
 lost

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index d4e5f19..7242f3c 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -162,7 +162,7 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-				break
+				continue
 			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
-- 
2.43.0

