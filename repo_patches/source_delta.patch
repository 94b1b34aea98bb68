From acc06cf54396ffeea45e5d158b2878eb7d51dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 01/22] fix: parallel: wait for the spawned goroutine when the
 left half panics

A panic in the left-most function propagated to the caller while the functions
in other goroutines were still running, although every function of this package
promises to return (or eventually panic) only when all have terminated.
---
 parallel/parallel.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 53291d8..6c7bf04 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -32,6 +32,7 @@ func Reduce(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -80,6 +81,7 @@ func ReduceFloat64(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -127,6 +129,7 @@ func ReduceFloat64Sum(functions ...func() float64) float64 {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -175,6 +178,7 @@ func ReduceFloat64Product(functions ...func() float64) float64 {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -224,6 +228,7 @@ func ReduceInt(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -271,6 +276,7 @@ func ReduceIntSum(functions ...func() int) int {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -319,6 +325,7 @@ func ReduceIntProduct(functions ...func() int) int {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -368,6 +375,7 @@ func ReduceString(
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	if len(moreFunctions) == 1 {
 		go func() {
 			defer func() {
@@ -415,6 +423,7 @@ func ReduceStringSum(functions ...func() string) string {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(functions) {
 	case 2:
 		go func() {
@@ -461,6 +470,7 @@ func Do(thunks ...func()) {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(thunks) {
 	case 2:
 		go func() {
@@ -507,6 +517,7 @@ func And(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -554,6 +565,7 @@ func Or(predicates ...func() bool) bool {
 	var p interface{}
 	var wg sync.WaitGroup
 	wg.Add(1)
+	defer wg.Wait()
 	switch len(predicates) {
 	case 2:
 		go func() {
@@ -620,6 +632,7 @@ func Range(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -679,6 +692,7 @@ func RangeAnd(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -738,6 +752,7 @@ func RangeOr(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -799,6 +814,7 @@ func RangeReduce(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -861,6 +877,7 @@ func RangeReduceInt(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -921,6 +938,7 @@ func RangeReduceIntSum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -981,6 +999,7 @@ func RangeReduceIntProduct(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1043,6 +1062,7 @@ func RangeReduceFloat64(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1103,6 +1123,7 @@ func RangeReduceFloat64Sum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1163,6 +1184,7 @@ func RangeReduceFloat64Product(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1225,6 +1247,7 @@ func RangeReduceString(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
@@ -1285,6 +1308,7 @@ func RangeReduceStringSum(
 			var p interface{}
 			var wg sync.WaitGroup
 			wg.Add(1)
+			defer wg.Wait()
 			go func() {
 				defer func() {
 					p = internal.WrapPanic(recover())
-- 
2.43.0


From 40ba3678b94f9ccdaaca2edf1bae60cdb62db0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 02/22] fix: sync: ParallelReduce* wait for the spawned
 goroutine when the left half panics

---
 sync/map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sync/map.go b/sync/map.go
index dda4163..bf001aa 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -689,6 +689,7 @@ func (m *Map) ParallelReduce(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -752,6 +753,7 @@ func (m *Map) ParallelReduceFloat64(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -811,6 +813,7 @@ func (m *Map) ParallelReduceFloat64Sum(reduce func(map[interface{}]interface{})
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -870,6 +873,7 @@ func (m *Map) ParallelReduceFloat64Product(reduce func(map[interface{}]interface
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -930,6 +934,7 @@ func (m *Map) ParallelReduceInt(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -989,6 +994,7 @@ func (m *Map) ParallelReduceIntSum(reduce func(map[interface{}]interface{}) int)
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1048,6 +1054,7 @@ func (m *Map) ParallelReduceIntProduct(reduce func(map[interface{}]interface{})
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1111,6 +1118,7 @@ func (m *Map) ParallelReduceString(
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
@@ -1170,6 +1178,7 @@ func (m *Map) ParallelReduceStringSum(reduce func(map[interface{}]interface{}) s
 		var p interface{}
 		var wg sync.WaitGroup
 		wg.Add(1)
+		defer wg.Wait()
 		switch len(splits) {
 		case 2:
 			go func() {
-- 
2.43.0


From aaca53f117dbf9e76d32a49c22404f8a522ea89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 03/22] fix: range functions panic for n < 0 also when the
 range is empty

---
 internal/internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/internal.go b/internal/internal.go
index 9fe961d..48981c0 100755
--- a/internal/internal.go
+++ b/internal/internal.go
@@ -24,6 +24,9 @@ func ComputeNofBatches(low, high, n int) (batches int) {
 			batches = size
 		}
 	case size == 0:
+		if n < 0 {
+			panic(fmt.Sprintf("invalid number of batches: %v", n))
+		}
 		batches = 1
 	default:
 		panic(fmt.Sprintf("invalid range: %v:%v", low, high))
-- 
2.43.0


From ce2dfdcd9f7877bb3776383e22c67bc1e7e985a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 04/22] fix: range functions split intervals that end near the
 largest int correctly

mid overflowed, and the function was called with batches outside the range.
---
 parallel/parallel.go       | 24 ++++++++++++------------
 sequential/sequential.go   | 24 ++++++++++++------------
 speculative/speculative.go | 14 +++++++-------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/parallel/parallel.go b/parallel/parallel.go
index 6c7bf04..fcaebec 100755
--- a/parallel/parallel.go
+++ b/parallel/parallel.go
@@ -625,7 +625,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				f(low, high)
 				return
 			}
@@ -685,7 +685,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -745,7 +745,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b0, b1 bool
@@ -807,7 +807,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -870,7 +870,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -931,7 +931,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -992,7 +992,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -1055,7 +1055,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1116,7 +1116,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1177,7 +1177,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -1240,7 +1240,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
@@ -1301,7 +1301,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
diff --git a/sequential/sequential.go b/sequential/sequential.go
index 2f97399..6b89239 100755
--- a/sequential/sequential.go
+++ b/sequential/sequential.go
@@ -180,7 +180,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				f(low, high)
 				return
 			}
@@ -219,7 +219,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -258,7 +258,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			b0 := recur(low, mid, half)
@@ -297,7 +297,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -337,7 +337,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -375,7 +375,7 @@ func RangeReduceIntSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -413,7 +413,7 @@ func RangeReduceIntProduct(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -453,7 +453,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -491,7 +491,7 @@ func RangeReduceFloat64Sum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -529,7 +529,7 @@ func RangeReduceFloat64Product(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -569,7 +569,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
@@ -607,7 +607,7 @@ func RangeReduceStringSum(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			left := recur(low, mid, half)
diff --git a/speculative/speculative.go b/speculative/speculative.go
index 4da1598..2273e29 100755
--- a/speculative/speculative.go
+++ b/speculative/speculative.go
@@ -434,7 +434,7 @@ func Range(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -496,7 +496,7 @@ func RangeAnd(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -558,7 +558,7 @@ func RangeOr(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return f(low, high)
 			}
 			var b1 bool
@@ -626,7 +626,7 @@ func RangeReduce(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right interface{}
@@ -699,7 +699,7 @@ func RangeReduceInt(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right int
@@ -772,7 +772,7 @@ func RangeReduceFloat64(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right float64
@@ -845,7 +845,7 @@ func RangeReduceString(
 			batchSize := ((high - low - 1) / n) + 1
 			half := n / 2
 			mid := low + batchSize*half
-			if mid >= high {
+			if mid >= high || mid < low {
 				return reduce(low, high)
 			}
 			var left, right string
-- 
2.43.0


From b3a7fef3868861558945437c52dc9734c5d4b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 05/22] fix: sort: IsSorted does not access data after it has
 returned

speculative.And returns as soon as one half reports false, without waiting for
the goroutines that still call Less. Wait for them, and tell them to stop early
by setting done where an inversion is found.
---
 sort/sort.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index 2a6e8bf..e0d971f 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -5,7 +5,7 @@ import (
 	"sort"
 	"sync/atomic"
 
-	"github.com/exascience/pargo/speculative"
+	"github.com/exascience/pargo/parallel"
 )
 
 // SequentialSorter is a type, typically a collection, that can be sequentially
@@ -34,7 +34,6 @@ func IsSorted(data sort.Interface) bool {
 		}
 	}
 	var done int32
-	defer atomic.StoreInt32(&done, 1)
 	var pTest func(int, int) bool
 	pTest = func(index, size int) bool {
 		if size < qsortGrainSize {
@@ -43,13 +42,15 @@ func IsSorted(data sort.Interface) bool {
 					return false
 				}
 				if data.Less(i, i-1) {
+					atomic.StoreInt32(&done, 1)
 					return false
 				}
 			}
 			return true
 		}
 		half := size / 2
-		result := speculative.And(
+		// wait for all tests, so that data is not accessed after IsSorted returns
+		result := parallel.And(
 			func() bool { return pTest(index, half) },
 			func() bool { return pTest(index+half, size-half) },
 		)
-- 
2.43.0


From b54a5836f6836a6a5d0bfc18eb59b69f661d8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 06/22] fix: sort: Float64Slice.Less orders NaN values

SequentialSort orders NaN values before other values, but Less did not, so Sort
and StableSort left large slices with NaN values unsorted.
---
 sort/sort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sort/sort.go b/sort/sort.go
index e0d971f..dd2e72e 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -113,8 +113,10 @@ func (s Float64Slice) Len() int {
 	return len(s)
 }
 
+// Less orders NaN values before other values, as SequentialSort does. The
+// parallel algorithms need a consistent ordering.
 func (s Float64Slice) Less(i, j int) bool {
-	return s[i] < s[j]
+	return s[i] < s[j] || (s[i] != s[i] && s[j] == s[j])
 }
 
 func (s Float64Slice) Swap(i, j int) {
-- 
2.43.0


From c2d596da66a2c143f22a9776ce750f50a46bb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 07/22] fix: sync: SpeculativeRange stops when f returns false,
 not when it returns true

---
 sync/map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index bf001aa..ab78f33 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -271,13 +271,14 @@ func (m *Map) ParallelRange(f func(key, value interface{})) {
 // reflect any mapping for that key from any point during the Range call.
 func (m *Map) SpeculativeRange(f func(key, value interface{}) bool) {
 	splits := m.splits
+	// speculative.Range terminates early when the function returns true
 	speculative.Range(0, len(splits), 0, func(low, high int) bool {
 		for i := low; i < high; i++ {
 			if !splits[i].srange(f) {
-				return false
+				return true
 			}
 		}
-		return true
+		return false
 	})
 }
 
-- 
2.43.0


From c07ba60c73d8097ff69e238d2fcce979e09ce7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 08/22] fix: sync: Modify and DeleteOrCompute release the lock
 when their callback panics

---
 sync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync/map.go b/sync/map.go
index ab78f33..4652e80 100755
--- a/sync/map.go
+++ b/sync/map.go
@@ -159,13 +159,13 @@ func (m *Map) DeleteOrStore(key Hasher, value interface{}) (actual interface{},
 func (m *Map) DeleteOrCompute(key Hasher, computer func() interface{}) (actual interface{}, deleted bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	if actual, deleted = split.Map[key]; deleted {
 		delete(split.Map, key)
 	} else {
 		actual = computer()
 		split.Map[key] = actual
 	}
-	split.Unlock()
 	return
 }
 
@@ -187,13 +187,13 @@ func (m *Map) Modify(
 ) (replacement interface{}, storeNotDelete bool) {
 	split := m.Split(key)
 	split.Lock()
+	defer split.Unlock()
 	value, ok := split.Map[key]
 	if replacement, storeNotDelete = modifier(value, ok); storeNotDelete {
 		split.Map[key] = replacement
 	} else {
 		delete(split.Map, key)
 	}
-	split.Unlock()
 	return
 }
 
-- 
2.43.0


From 239e4bd750d127166b272f83ce4242f317201076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 09/22] fix: pipeline: nodes forward batches with the index
 they were fed with

Nodes used the index seen by Begin, which is wrong when later nodes drop out
or are merged, so that batches skip a node.
---
 pipeline/lparnode.go      | 10 +++++-----
 pipeline/seqnode.go       | 19 ++++++++++---------
 pipeline/strictordnode.go |  8 ++++----
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index aff3d1d..5156b2f 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -48,7 +48,7 @@ func (node *lparnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Parallel, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -77,7 +77,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 							node.cond.L.Unlock()
 							node.cond.Broadcast()
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
@@ -87,7 +87,7 @@ func (node *lparnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *lparnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	if node.ordered {
 		node.cond.L.Lock()
 		defer node.cond.L.Unlock()
@@ -96,7 +96,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 				select {
 				case <-p.ctx.Done():
 					return
-				case node.channel <- dataBatch{seqNo, data}:
+				case node.channel <- dataBatch{index, seqNo, data}:
 					return
 				}
 			}
@@ -111,7 +111,7 @@ func (node *lparnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/seqnode.go b/pipeline/seqnode.go
index a049358..fff11e8 100644
--- a/pipeline/seqnode.go
+++ b/pipeline/seqnode.go
@@ -6,6 +6,7 @@ import (
 
 type (
 	dataBatch struct {
+		index int
 		seqNo int
 		data  interface{}
 	}
@@ -45,7 +46,7 @@ func (node *seqnode) TryMerge(next Node) bool {
 }
 
 // Implements the Begin method of the Node interface.
-func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *seqnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, node.kind, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,14 +64,14 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						if !ok {
 							return
 						}
-						feed(p, node.receivers, index, batch.seqNo, batch.data)
+						feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 					}
 				}
 			}()
 		case Ordered:
 			go func() {
 				defer node.waitGroup.Done()
-				stash := make(map[int]interface{})
+				stash := make(map[int]dataBatch)
 				run := 0
 				for {
 					select {
@@ -83,9 +84,9 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 						case batch.seqNo < run:
 							panic("Invalid receive order in an ordered pipeline node.")
 						case batch.seqNo > run:
-							stash[batch.seqNo] = batch.data
+							stash[batch.seqNo] = batch
 						default:
-							feed(p, node.receivers, index, batch.seqNo, batch.data)
+							feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 						checkStash:
 							for {
 								select {
@@ -93,12 +94,12 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 									return
 								default:
 									run++
-									data, ok := stash[run]
+									batch, ok := stash[run]
 									if !ok {
 										break checkStash
 									}
 									delete(stash, run)
-									feed(p, node.receivers, index, run, data)
+									feed(p, node.receivers, batch.index, run, batch.data)
 								}
 							}
 						}
@@ -113,11 +114,11 @@ func (node *seqnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
 }
 
 // Implements the Feed method of the Node interface.
-func (node *seqnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *seqnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	select {
 	case <-p.ctx.Done():
 		return
-	case node.channel <- dataBatch{seqNo, data}:
+	case node.channel <- dataBatch{index, seqNo, data}:
 		return
 	}
 }
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 74a1915..24402b3 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -38,7 +38,7 @@ func (node *strictordnode) TryMerge(next Node) bool {
 }
 
 //Implements the Begin method of the Node interface.
-func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bool) {
+func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 	node.receivers, node.finalizers = ComposeFilters(p, Ordered, dataSize, node.filters)
 	node.filters = nil
 	if keep = (len(node.receivers) > 0) || (len(node.finalizers) > 0); keep {
@@ -63,7 +63,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 					node.run++
 					node.cond.L.Unlock()
 					node.cond.Broadcast()
-					feed(p, node.receivers, index, batch.seqNo, batch.data)
+					feed(p, node.receivers, batch.index, batch.seqNo, batch.data)
 				}
 			}
 		}()
@@ -72,7 +72,7 @@ func (node *strictordnode) Begin(p *Pipeline, index int, dataSize *int) (keep bo
 }
 
 // Implements the Feed method of the Node interface.
-func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{}) {
+func (node *strictordnode) Feed(p *Pipeline, index int, seqNo int, data interface{}) {
 	node.cond.L.Lock()
 	defer node.cond.L.Unlock()
 	for {
@@ -80,7 +80,7 @@ func (node *strictordnode) Feed(p *Pipeline, _ int, seqNo int, data interface{})
 			select {
 			case <-p.ctx.Done():
 				return
-			case node.channel <- dataBatch{seqNo, data}:
+			case node.channel <- dataBatch{index, seqNo, data}:
 				return
 			}
 		}
-- 
2.43.0


From 9801b6abd517b30624182383bb32ec22738cfeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 10/22] fix: pipeline: order the nodes before a StrictOrd node
 before they start

The nodes' goroutines were already running as unordered nodes, which raced
with the change and could deadlock in the strictly ordered node.
---
 pipeline/pipeline.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ebe329b..2a842f1 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -275,6 +275,19 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	}
 	p.ctx, p.cancel = ctx, cancel
 	dataSize := p.source.Prepare(p.ctx)
+	for index := len(p.nodes) - 1; index >= 0; index-- {
+		if _, ok := p.nodes[index].(*strictordnode); ok {
+			for index = index - 1; index >= 0; index-- {
+				switch node := p.nodes[index].(type) {
+				case *seqnode:
+					node.kind = Ordered
+				case *lparnode:
+					node.makeOrdered()
+				}
+			}
+			break
+		}
+	}
 	filteredSize := dataSize
 	for index := 0; index < len(p.nodes); {
 		if p.nodes[index].Begin(p, index, &filteredSize) {
@@ -294,19 +307,6 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 				index++
 			}
 		}
-		for index := len(p.nodes) - 1; index >= 0; index-- {
-			if _, ok := p.nodes[index].(*strictordnode); ok {
-				for index = index - 1; index >= 0; index-- {
-					switch node := p.nodes[index].(type) {
-					case *seqnode:
-						node.kind = Ordered
-					case *lparnode:
-						node.makeOrdered()
-					}
-				}
-				break
-			}
-		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
 			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
-- 
2.43.0


From 2237368bc682aa6a830379558cf2a6d7235efa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 11/22] fix: pipeline: wake goroutines that wait in ordered
 nodes on cancelation

Broadcast without holding the lock gets lost when a goroutine has checked the
context, but does not wait yet.
---
 pipeline/lparnode.go      | 2 ++
 pipeline/strictordnode.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pipeline/lparnode.go b/pipeline/lparnode.go
index 5156b2f..1c72605 100644
--- a/pipeline/lparnode.go
+++ b/pipeline/lparnode.go
@@ -61,7 +61,9 @@ func (node *lparnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool) {
 					select {
 					case <-p.ctx.Done():
 						if node.ordered {
+							node.cond.L.Lock()
 							node.cond.Broadcast()
+							node.cond.L.Unlock()
 						}
 						return
 					case batch, ok := <-node.channel:
diff --git a/pipeline/strictordnode.go b/pipeline/strictordnode.go
index 24402b3..47e876a 100644
--- a/pipeline/strictordnode.go
+++ b/pipeline/strictordnode.go
@@ -50,7 +50,9 @@ func (node *strictordnode) Begin(p *Pipeline, _ int, dataSize *int) (keep bool)
 			for {
 				select {
 				case <-p.ctx.Done():
+					node.cond.L.Lock()
 					node.cond.Broadcast()
+					node.cond.L.Unlock()
 					return
 				case batch, ok := <-node.channel:
 					if !ok {
-- 
2.43.0


From b001b6083d4f7b38116008c1bb92f2372c52b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 12/22] fix: pipeline: Skip subtracts the number of skipped
 elements from the expected size

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 26bbcda..5fa336d 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -341,7 +341,7 @@ func Skip(n int) Node {
 		case n == 0: // nothing to skip
 		case (*size < 0) || (*size > n):
 			if *size > 0 {
-				*size = n
+				*size -= n
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-- 
2.43.0


From e754b719f11c649a746da7b68edb5345e73c58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 13/22] fix: pipeline: Limit and Skip accept nil batches

Filters, including Limit and Skip themselves, return nil for empty batches.
---
 pipeline/filters.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index 5fa336d..aa4b8b2 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -305,7 +305,7 @@ func Limit(limit int, cancelWhenReached bool) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= limit {
+				if seen >= limit || data == nil {
 					return
 				}
 				d := reflect.ValueOf(data)
@@ -345,7 +345,7 @@ func Skip(n int) Node {
 			}
 			seen := 0
 			receiver = func(_ int, data interface{}) (result interface{}) {
-				if seen >= n {
+				if seen >= n || data == nil {
 					result = data
 					return
 				}
-- 
2.43.0


From 3ddcc098dcbd01714b3b9cbce5f962b5acd9915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 14/22] fix: pipeline: Count sets the result also in ordered
 and sequential nodes

---
 pipeline/filters.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index aa4b8b2..fa7d5d3 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -272,6 +272,7 @@ func Count(result *int) Filter {
 				*result = int(atomic.LoadInt64(&res))
 			}
 		default:
+			*result = 0
 			receiver = func(_ int, data interface{}) interface{} {
 				if data != nil {
 					d := reflect.ValueOf(data)
-- 
2.43.0


From 722d6738aa0b3e9abc24f353632210c69f78f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 15/22] fix: pipeline: Slice sets an error for every result
 that is not a settable slice

---
 pipeline/filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/filters.go b/pipeline/filters.go
index fa7d5d3..8372734 100644
--- a/pipeline/filters.go
+++ b/pipeline/filters.go
@@ -224,7 +224,7 @@ func NotAny(result *bool, cancelWhenKnown bool, predicate Predicate) Filter {
 func Slice(result interface{}) Filter {
 	res := reflect.ValueOf(result).Elem()
 	return func(pipeline *Pipeline, kind NodeKind, _ *int) (receiver Receiver, finalizer Finalizer) {
-		if (res.Kind() != reflect.Slice) && !res.CanSet() {
+		if (res.Kind() != reflect.Slice) || !res.CanSet() {
 			pipeline.SetErr(errors.New("result is not a settable slice in Pipeline.ToSlice"))
 			return
 		}
-- 
2.43.0


From 35e9dd2bcbc2bdfea3e85ff8659f0e4796443d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 16/22] fix: pipeline: arrays can be sources

They are passed by value, and reflect can only slice addressable arrays.
---
 pipeline/source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pipeline/source.go b/pipeline/source.go
index f365b33..1bbee03 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -35,6 +35,11 @@ type sliceSource struct {
 
 func newSliceSource(value reflect.Value) *sliceSource {
 	size := value.Len()
+	if value.Kind() == reflect.Array {
+		array := reflect.New(value.Type()).Elem()
+		array.Set(value)
+		value = array
+	}
 	return &sliceSource{value: value.Slice(0, size), size: size}
 }
 
-- 
2.43.0


From 772d266f6fe193381498037bb95923b7c6e057f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 17/22] fix: pipeline: the first batch is not larger than the
 maximum batch size

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 2a842f1..0ca47af 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -309,7 +309,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 		}
 		if dataSize < 0 {
 			p.finalizeVariableBatchSize()
-			for seqNo, batchSize := 0, p.batchInc; p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
+			for seqNo, batchSize := 0, p.nextBatchSize(0); p.source.Fetch(batchSize) > 0; seqNo, batchSize = seqNo+1, p.nextBatchSize(batchSize) {
 				p.nodes[0].Feed(p, 0, seqNo, p.source.Data())
 				if err := p.source.Err(); err != nil {
 					p.SetErr(err)
-- 
2.43.0


From 90c5242a27c7a643688853341e3b7ae92b01b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 18/22] fix: pipeline: appending to a batch of a slice does not
 overwrite the next batch

---
 pipeline/source.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipeline/source.go b/pipeline/source.go
index 1bbee03..2bdafda 100755
--- a/pipeline/source.go
+++ b/pipeline/source.go
@@ -62,7 +62,12 @@ func (src *sliceSource) Fetch(n int) (fetched int) {
 		src.size = 0
 	default:
 		fetched = n
-		src.data = src.value.Slice(0, n).Interface()
+		if src.value.Kind() == reflect.String {
+			src.data = src.value.Slice(0, n).Interface()
+		} else {
+			// do not let receivers append to the elements of the next batch
+			src.data = src.value.Slice3(0, n, n).Interface()
+		}
 		src.value = src.value.Slice(n, src.size)
 		src.size -= n
 	}
-- 
2.43.0


From 0aff924e4ab5e434cd16b4d45f412cb6d154993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 19/22] fix: pipeline: RunWithContext locks the error value

Err and SetErr may be called concurrently.
---
 pipeline/pipeline.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 0ca47af..7d3ff37 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -270,7 +270,7 @@ func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 // data source and sends them to the nodes. Once the data source is depleted,
 // the nodes are informed that the end of the data source has been reached.
 func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc) {
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	p.ctx, p.cancel = ctx, cancel
@@ -296,7 +296,7 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 			p.nodes = append(p.nodes[:index], p.nodes[index+1:]...)
 		}
 	}
-	if p.err != nil {
+	if p.Err() != nil {
 		return
 	}
 	if len(p.nodes) > 0 {
@@ -337,8 +337,13 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 	for _, node := range p.nodes {
 		node.End()
 	}
-	if p.err == nil {
-		p.err = p.source.Err()
+	if p.Err() == nil {
+		err := p.source.Err()
+		p.mutex.Lock()
+		if p.err == nil {
+			p.err = err
+		}
+		p.mutex.Unlock()
 	}
 }
 
-- 
2.43.0


From 56d6cd947b92a208da39fb257dbc3375550e5823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 20/22] fix: pipeline: stop fetching when the pipeline is
 cancelled

RunWithContext kept fetching until the source was depleted, and never returned
for endless sources.
---
 pipeline/pipeline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 7d3ff37..0045dff 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -316,6 +316,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 					return
 				} else if p.Err() != nil {
 					return
+				} else if p.ctx.Err() != nil {
+					break
 				}
 			}
 		} else {
@@ -330,6 +332,8 @@ func (p *Pipeline) RunWithContext(ctx context.Context, cancel context.CancelFunc
 					return
 				} else if p.Err() != nil {
 					return
+				} else if p.ctx.Err() != nil {
+					break
 				}
 			}
 		}
-- 
2.43.0


From 4cb9203e003e0c9b058f27ec0238a5341a63abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 21/22] fix: StableSort: let panics in NewTemp and Assign reach
 the caller

NewTemp and Assign run in a goroutine of their own, so a panic there ended the
process, and they could still be running when StableSort was left by a panic in
SequentialSort.
---
 sort/mergesort.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sort/mergesort.go b/sort/mergesort.go
index df84aad..783bcdc 100755
--- a/sort/mergesort.go
+++ b/sort/mergesort.go
@@ -3,6 +3,7 @@ package sort
 import (
 	"sync"
 
+	"github.com/exascience/pargo/internal"
 	"github.com/exascience/pargo/parallel"
 )
 
@@ -154,14 +155,20 @@ func StableSort(data StableSorter) {
 		return
 	}
 	var T, A *sorter
+	var p interface{}
 	var temp sync.WaitGroup
 	temp.Add(1)
 	go func() {
-		defer temp.Done()
+		defer func() {
+			p = internal.WrapPanic(recover())
+			temp.Done()
+		}()
 		a := data.NewTemp()
 		T = &sorter{data.Less, data.Assign(a)}
 		A = &sorter{a.Less, a.Assign(data)}
 	}()
+	// also wait if pSort panics
+	defer temp.Wait()
 	var pSort func(int, int)
 	pSort = func(index, size int) {
 		if size < msortGrainSize {
@@ -177,6 +184,9 @@ func StableSort(data StableSorter) {
 				func() { pSort(index+q3, size-q3) },
 			)
 			temp.Wait()
+			if p != nil {
+				panic(p)
+			}
 			parallel.Do(
 				func() { pMerge(T, index, index+q1-1, index+q1, index+q2-1, A, index) },
 				func() { pMerge(T, index+q2, index+q3-1, index+q3, index+size-1, A, index+q2) },
-- 
2.43.0


From 4c4552ba625637a318205473b7492138cbcd6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 22/22] fix: pipeline: no overflow in the computation of
 variable batch sizes

With a large batchInc the second batch size was negative, so that the rest of
the source was silently left out.
---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 0045dff..91d2d70 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -246,7 +246,7 @@ func (p *Pipeline) finalizeVariableBatchSize() {
 
 func (p *Pipeline) nextBatchSize(batchSize int) (result int) {
 	result = batchSize + p.batchInc
-	if result > p.maxBatchSize {
+	if result > p.maxBatchSize || result < batchSize { // the sum may overflow
 		result = p.maxBatchSize
 	}
 	return
-- 
2.43.0

