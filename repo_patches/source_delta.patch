From 15a0288da588d275082d24f602d51b262fbf80f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 01/82] fix: CompareAscending returns -1, 0 or 1 for any two
 timestamps

It returned the difference of the seconds (or nanos), contradicting its
documentation, and overflowed for timestamps that are far apart.
---
 pkg/time/timestamp.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/time/timestamp.go b/pkg/time/timestamp.go
index 8c6715e..00b34ae 100644
--- a/pkg/time/timestamp.go
+++ b/pkg/time/timestamp.go
@@ -4,9 +4,15 @@ import "google.golang.org/protobuf/types/known/timestamppb"
 
 // CompareAscending returns -1 if t1 is before t2, 1 if t1 is after t2 and 0 if t1 is equal to t2
 func CompareAscending(t1, t2 *timestamppb.Timestamp) int {
-	seconds := t1.Seconds - t2.Seconds
-	if seconds != 0 {
-		return int(seconds)
+	switch {
+	case t1.Seconds < t2.Seconds:
+		return -1
+	case t1.Seconds > t2.Seconds:
+		return 1
+	case t1.Nanos < t2.Nanos:
+		return -1
+	case t1.Nanos > t2.Nanos:
+		return 1
 	}
-	return int(t1.Nanos - t2.Nanos)
+	return 0
 }
-- 
2.43.0


From eee178a6d6032edbc5824c9c3f6b099ab76d3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 02/82] fix: PeriodsIntersect is false when either period is
 empty

An empty period such as [3,3) inside another was reported as intersecting
it, though no non-empty period is enclosed by both.
---
 pkg/time/period.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/time/period.go b/pkg/time/period.go
index d775a21..5fa08a3 100644
--- a/pkg/time/period.go
+++ b/pkg/time/period.go
@@ -37,7 +37,10 @@ func PeriodsIntersect(p1, p2 *time.Period) bool {
 	p1lower, p1upper := cutPeriod(p1)
 	p2lower, p2upper := cutPeriod(p2)
 
-	return p1lower.CompareTo(p2upper) < 0 &&
+	// an empty period encloses nothing that isn't itself empty
+	return p1lower.CompareTo(p1upper) < 0 &&
+		p2lower.CompareTo(p2upper) < 0 &&
+		p1lower.CompareTo(p2upper) < 0 &&
 		p2lower.CompareTo(p1upper) < 0
 }
 
-- 
2.43.0


From b1e66de57af1996c367d66f7004dedcbedfc2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 03/82] fix: segmentpb.Sum keeps a negative infinite tail and
 adds none of its own

An infinite last segment with a negative sum was dropped, and rounding
errors could leave an infinite segment nobody asked for.
---
 pkg/trait/electricpb/segmentpb/sum.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/electricpb/segmentpb/sum.go b/pkg/trait/electricpb/segmentpb/sum.go
index a2d53ea..fb8205a 100644
--- a/pkg/trait/electricpb/segmentpb/sum.go
+++ b/pkg/trait/electricpb/segmentpb/sum.go
@@ -39,7 +39,9 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 
 	if len(result) > 0 {
 		last := result[len(result)-1]
-		if last.Length == nil && last.Magnitude <= 0 {
+		// The last segment is what remains after all falling edges. Unless an argument goes on forever that is nothing,
+		// even if rounding errors left something in its magnitude.
+		if last.Length == nil && (!anyInfinite(segmentSlices) || last.Magnitude == 0) {
 			result = result[:len(result)-1]
 		}
 	}
@@ -47,6 +49,16 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 	return result
 }
 
+// anyInfinite returns whether any of the segment lists never ends.
+func anyInfinite(segmentSlices [][]*traits.ElectricMode_Segment) bool {
+	for _, slice := range segmentSlices {
+		if _, infinite := Duration(slice...); infinite {
+			return true
+		}
+	}
+	return false
+}
+
 func calcCuts(segmentSlices ...[]*traits.ElectricMode_Segment) []cut {
 	var cuts []cut
 	for _, slice := range segmentSlices {
-- 
2.43.0


From 59314b794e15a12e5c918c7324c3b3ca10058c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 04/82] fix: segmentpb.Cut keeps the shape when cutting an
 infinite segment

---
 pkg/trait/electricpb/segmentpb/cut.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/electricpb/segmentpb/cut.go b/pkg/trait/electricpb/segmentpb/cut.go
index b5bf0da..a540541 100644
--- a/pkg/trait/electricpb/segmentpb/cut.go
+++ b/pkg/trait/electricpb/segmentpb/cut.go
@@ -15,10 +15,12 @@ func Cut(d time.Duration, segment *traits.ElectricMode_Segment) (before, after *
 		return nil, segment, d < 0
 	}
 	if segment.GetLength() == nil {
-		return &traits.ElectricMode_Segment{
+		before = &traits.ElectricMode_Segment{
 			Magnitude: segment.GetMagnitude(),
 			Length:    durationpb.New(d),
-		}, segment, false
+		}
+		copyShape(segment, before)
+		return before, segment, false
 	}
 
 	l := segment.GetLength().AsDuration()
@@ -35,14 +37,16 @@ func Cut(d time.Duration, segment *traits.ElectricMode_Segment) (before, after *
 		Length:    durationpb.New(l - d),
 	}
 
-	// handle shapes
-	if segment.GetShape() != nil {
-		switch shape := segment.GetShape().(type) {
-		case *traits.ElectricMode_Segment_Fixed:
-			before.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
-			after.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
-		}
-	}
+	copyShape(segment, before)
+	copyShape(segment, after)
 
 	return before, after, false
 }
+
+// copyShape sets the shape of dst to be the same as the shape of src.
+func copyShape(src, dst *traits.ElectricMode_Segment) {
+	switch shape := src.GetShape().(type) {
+	case *traits.ElectricMode_Segment_Fixed:
+		dst.Shape = &traits.ElectricMode_Segment_Fixed{Fixed: shape.Fixed}
+	}
+}
-- 
2.43.0


From 06c57d72d22ec1f9ff8d31051d0b9b8481672a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 05/82] fix: modepb.Sum accepts a start time equal to the zero
 time

The zero time.Time doubled as 'not seen yet', so a mode starting then was
ignored when looking for the earliest start.
---
 pkg/trait/electricpb/modepb/sum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/electricpb/modepb/sum.go b/pkg/trait/electricpb/modepb/sum.go
index d1c1efd..0a2f9c6 100644
--- a/pkg/trait/electricpb/modepb/sum.go
+++ b/pkg/trait/electricpb/modepb/sum.go
@@ -32,10 +32,10 @@ func Sum(modes ...*traits.ElectricMode) *traits.ElectricMode {
 		if mode.StartTime != nil {
 			stCount++
 			st := mode.StartTime.AsTime()
-			if earliest.IsZero() || st.Before(earliest) {
+			if stCount == 1 || st.Before(earliest) {
 				earliest = st
 			}
-			if latest.IsZero() || st.After(latest) {
+			if stCount == 1 || st.After(latest) {
 				latest = st
 			}
 		}
-- 
2.43.0


From 9dc66d8faac1a667e24e00ca6e2d78b66817f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 06/82] fix: read masks with overlapping or invalid paths

A response filter panicked when a path continued through a map or a
repeated scalar, selected only 'a.b' given both 'a' and 'a.b', and kept
unknown fields nobody asked for.
---
 pkg/masks/get.go    |  5 ++---
 pkg/masks/nested.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 3 deletions(-)
 create mode 100644 pkg/masks/nested.go

diff --git a/pkg/masks/get.go b/pkg/masks/get.go
index 1767b89..f12bcda 100644
--- a/pkg/masks/get.go
+++ b/pkg/masks/get.go
@@ -1,7 +1,6 @@
 package masks
 
 import (
-	"github.com/mennanov/fmutils"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
@@ -45,7 +44,7 @@ func (r *ResponseFilter) Filter(msg proto.Message) {
 		proto.Reset(msg)
 		return
 	}
-	fmutils.Filter(msg, r.fields.GetPaths())
+	keepOnly(msg, nestedMask(r.fields))
 }
 
 // FilterClone is like Filter but clones and returns a new msg instead of modifying the original.
@@ -62,7 +61,7 @@ func (r *ResponseFilter) FilterClone(msg proto.Message) proto.Message {
 		return clone
 	}
 	clone := proto.Clone(msg)
-	fmutils.Filter(clone, r.fields.GetPaths())
+	keepOnly(clone, nestedMask(r.fields))
 	return clone
 }
 
diff --git a/pkg/masks/nested.go b/pkg/masks/nested.go
new file mode 100644
index 0000000..effe05a
--- /dev/null
+++ b/pkg/masks/nested.go
@@ -0,0 +1,44 @@
+package masks
+
+import (
+	"github.com/mennanov/fmutils"
+	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/reflect/protoreflect"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
+)
+
+// nestedMask returns the paths of mask as a fmutils.NestedMask.
+// A path includes all paths below it: `a, a.b` is the same as `a`.
+func nestedMask(mask *fieldmaskpb.FieldMask) fmutils.NestedMask {
+	normal := &fieldmaskpb.FieldMask{Paths: append([]string(nil), mask.GetPaths()...)}
+	normal.Normalize()
+	return fmutils.NestedMaskFromPaths(normal.Paths)
+}
+
+// keepOnly clears all fields in msg, known or not, that aren't mentioned by mask.
+// An empty mask mentions all fields.
+// Unlike fmutils, this doesn't panic if paths continue through map or repeated scalar fields, these fields are kept.
+func keepOnly(msg proto.Message, mask fmutils.NestedMask) {
+	if len(mask) == 0 {
+		return
+	}
+
+	pr := msg.ProtoReflect()
+	pr.SetUnknown(nil)
+	pr.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		fieldMask, ok := mask[string(fd.Name())]
+		switch {
+		case !ok:
+			pr.Clear(fd)
+		case fd.IsMap(), fd.Message() == nil:
+			// nothing to look into
+		case fd.IsList():
+			for i := 0; i < v.List().Len(); i++ {
+				keepOnly(v.List().Get(i).Message().Interface(), fieldMask)
+			}
+		default:
+			keepOnly(v.Message().Interface(), fieldMask)
+		}
+		return true
+	})
+}
-- 
2.43.0


From c8213d183eb46ab5585b4e978cead0e4daab74a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 07/82] fix: writes leave fields outside the update and
 writable masks alone

- masks with duplicate or overlapping paths were rejected as read-only, and
  some that mention read-only fields accepted, as only counts were compared
- a nested path cleared the whole parent message if the written one had none
- fields of a named parent that aren't writable were cleared
- unknown fields of the written message were merged whatever the mask
- the reset mask was skipped if nothing else was writable
- the caller's message was filtered in place
---
 pkg/masks/update.go | 80 +++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index cdf66a0..7a5c235 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -1,6 +1,8 @@
 package masks
 
 import (
+	"strings"
+
 	"github.com/mennanov/fmutils"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -38,9 +40,10 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 		// are fields mentioned in the update mask actually writable?
 		if f.writableFields != nil {
-			common := f.fullMask()
-			if len(common.Paths) != len(f.updateMask.Paths) {
-				return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
+			for _, path := range f.updateMask.GetPaths() {
+				if !includesPath(f.writableFields, path) {
+					return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
+				}
 			}
 		}
 	}
@@ -54,46 +57,39 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 }
 
 // Merge copies the values in src into dst based on the configured field masks.
+// The src message is not modified.
 func (f *FieldUpdater) Merge(dst, src proto.Message) {
-	if f.writableFields != nil && len(f.writableFields.Paths) == 0 {
-		return // nothing is writable
-	}
+	f.merge(dst, src)
 
-	var writableMask fmutils.NestedMask
-	if f.writableFields != nil {
-		writableMask = fmutils.NestedMaskFromPaths(f.writableFields.Paths)
+	if f.resetMask != nil {
+		nestedMask(f.resetMask).Prune(dst)
 	}
+}
 
-	// only allow writing writable fields by resetting non-writable fields in src
-	writableMask.Filter(src)
-
-	mask := f.updateMask
+func (f *FieldUpdater) merge(dst, src proto.Message) {
+	mask := f.fullMask()
 	if mask == nil {
-		// no mask, make dst look like src
-		if writableMask == nil {
-			// if all fields are writable then reset all fields
-			proto.Reset(dst)
-		} else {
-			// if only some fields are writable then reset only those
-			writableMask.Prune(dst)
-		}
-	} else if len(mask.GetPaths()) == 0 {
-		// non-nil mask with no paths => no changes
+		// everything can and should be updated, make dst look like src
+		proto.Reset(dst)
+		proto.Merge(dst, src)
 		return
 	}
+	if len(mask.GetPaths()) == 0 {
+		return // nothing is writable or nothing should be written
+	}
 
-	nestedMask := fmutils.NestedMaskFromPaths(mask.GetPaths())
-	nestedMask.Filter(src)
+	fields := nestedMask(mask)
+	if f.updateMask == nil {
+		// no mask, make the writable fields in dst look like src
+		fields.Prune(dst)
+	}
+
+	src = proto.Clone(src) // the caller might still be using src
+	keepOnly(src, fields)
 	proto.Merge(dst, src)
 
 	// if a field mentioned by the mask is nil, we should clear it
-	pruneEmpty(dst, src, nestedMask)
-
-	if f.resetMask != nil {
-		fmutils.Prune(dst, f.resetMask.Paths)
-	}
-
-	return
+	pruneEmpty(dst, src, fields)
 }
 
 func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
@@ -104,11 +100,15 @@ func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
 		if !ok {
 			return true
 		}
-		if !srcPr.Has(d) {
-			dstPr.Clear(d)
+		if len(fieldMask) == 0 {
+			// the mask mentions the field itself
+			if !srcPr.Has(d) {
+				dstPr.Clear(d)
+			}
 			return true
 		}
-		if d.Kind() == protoreflect.MessageKind && d.Cardinality() != protoreflect.Repeated {
+		// only some of the fields of d are mentioned, leave the others alone even if src has no d
+		if d.Message() != nil && d.Cardinality() != protoreflect.Repeated {
 			pruneEmpty(dstPr.Get(d).Message().Interface(), srcPr.Get(d).Message().Interface(), fieldMask)
 		}
 		return true
@@ -139,6 +139,16 @@ func (f *FieldUpdater) fullMask() *fieldmaskpb.FieldMask {
 	return f.intersectionMask
 }
 
+// includesPath returns whether path, or any parent of path, is mentioned by mask.
+func includesPath(mask *fieldmaskpb.FieldMask, path string) bool {
+	for _, p := range mask.GetPaths() {
+		if p == path || strings.HasPrefix(path, p+".") {
+			return true
+		}
+	}
+	return false
+}
+
 type FieldUpdaterOption func(*FieldUpdater)
 
 var DefaultFieldUpdateOptions = []FieldUpdaterOption{
-- 
2.43.0


From d829fbea2bf635e741db94ca5d94ac2a1b2499e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 08/82] fix: the created callback is only called when
 preconditions hold

---
 pkg/resource/collection.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 82fba45..5fa563b 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -105,6 +105,19 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	}
 
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
+
+	// the created callback is only for writes whose preconditions hold
+	if createdCallback, interceptBefore := writeRequest.createdCallback, writeRequest.interceptBefore; createdCallback != nil {
+		writeRequest.interceptBefore = func(old, new proto.Message) {
+			if created != nil {
+				createdCallback()
+			}
+			if interceptBefore != nil {
+				interceptBefore(old, new)
+			}
+		}
+	}
+
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -134,9 +147,6 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				return nil, status.Errorf(codes.NotFound, "id %v not found", id)
 			}
 			created = msg.ProtoReflect().New().Interface()
-			if writeRequest.createdCallback != nil {
-				writeRequest.createdCallback()
-			}
 			return created, nil
 		},
 		writeRequest.changeFn(writer, msg),
-- 
2.43.0


From 429d0796c1759d4757130f5ec06681a9e140c75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 09/82] fix: generated ids are stored the way the id
 interceptor maps them

---
 pkg/resource/collection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 5fa563b..e64a489 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -134,6 +134,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				if writeRequest.idCallback != nil {
 					writeRequest.idCallback(id)
 				}
+				if c.idInterceptor != nil {
+					id = c.idInterceptor(id)
+				}
 			}
 
 			val, exists := c.byId[id]
-- 
2.43.0


From 17604d31f34d22f0dc47bef207f917c4373ed363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 10/82] fix: Collection.Update detects items created or deleted
 during the update

---
 pkg/resource/collection.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index e64a489..0d72a7b 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -105,6 +105,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	}
 
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
+	var seen bool             // whether GetFn has been called before
 
 	// the created callback is only for writes whose preconditions hold
 	if createdCallback, interceptBefore := writeRequest.createdCallback, writeRequest.interceptBefore; createdCallback != nil {
@@ -121,9 +122,19 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
-			if created != nil {
-				return created, nil
+			if seen {
+				// checking for concurrent changes, the id is known and what we found the first time is what should still be there
+				val, exists := c.byId[id]
+				switch {
+				case exists && created == nil:
+					return val.body, nil
+				case !exists && created != nil:
+					return created, nil
+				default:
+					return nil, nil // created or deleted by somebody else
+				}
 			}
+			seen = true
 
 			// handle empty ids, generating them, and invoking callbacks
 			if id == "" && writeRequest.genEmptyID {
-- 
2.43.0


From 115d360c7f7df55bb5cd87a5dd01b4088e8b1ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 11/82] fix: concurrent Adds don't share the random source
 unguarded

---
 pkg/resource/collection.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 0d72a7b..635744b 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -19,8 +19,9 @@ import (
 type Collection struct {
 	*config
 
-	mu   sync.RWMutex // protects byId and rng from concurrent access
-	byId map[string]*item
+	mu    sync.RWMutex // protects byId from concurrent access
+	byId  map[string]*item
+	rngMu sync.Mutex // protects rng from concurrent access
 	// "change" events contain a *CollectionChange instance
 	bus minibus.Bus
 }
@@ -367,6 +368,8 @@ func (c *Collection) itemSlice(readConfig *ReadRequest) []idItem {
 }
 
 func (c *Collection) genID() (string, error) {
+	c.rngMu.Lock()
+	defer c.rngMu.Unlock()
 	return GenerateUniqueId(c.rng, func(candidate string) bool {
 		if c.idInterceptor != nil {
 			candidate = c.idInterceptor(candidate)
-- 
2.43.0


From 678d69dd26a666b8a5e1784eec4df7b1a017c825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 12/82] fix: events carry the stored change time, deletes
 honour the write time

---
 pkg/resource/collection.go | 8 +++++---
 pkg/resource/value.go      | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 635744b..9171f89 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -120,6 +120,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		}
 	}
 
+	var changeTime time.Time
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -166,7 +167,8 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		},
 		writeRequest.changeFn(writer, msg),
 		func(msg proto.Message) {
-			c.byId[id] = &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			changeTime = writeRequest.updateTime(c.clock)
+			c.byId[id] = &item{body: msg, changeTime: changeTime}
 		})
 
 	if err != nil {
@@ -182,7 +184,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	}
 	c.bus.Send(context.TODO(), &CollectionChange{
 		Id:         id,
-		ChangeTime: writeRequest.updateTime(c.clock),
+		ChangeTime: changeTime,
 		ChangeType: changeType,
 		OldValue:   oldValue,
 		NewValue:   newValue,
@@ -234,7 +236,7 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 		delete(c.byId, id)
 		c.bus.Send(context.TODO(), &CollectionChange{
 			Id:         id,
-			ChangeTime: c.clock.Now(),
+			ChangeTime: args.updateTime(c.clock),
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 1a81a43..e3cd27c 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -59,6 +59,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 	}
 
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
+	var changeTime time.Time
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
 		func() (proto.Message, error) {
@@ -67,7 +68,8 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		request.changeFn(writer, value),
 		func(message proto.Message) {
 			r.value = message
-			r.changeTime = request.updateTime(r.clock)
+			changeTime = request.updateTime(r.clock)
+			r.changeTime = changeTime
 		},
 	)
 	disarm()
@@ -80,7 +82,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 	defer cancel()
 	r.bus.Send(ctx, &ValueChange{
 		Value:      newValue,
-		ChangeTime: request.updateTime(r.clock),
+		ChangeTime: changeTime,
 	})
 	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
 		return nil, errors.New("bus.Send blocked for too long")
-- 
2.43.0


From e8cfc63d5ac04fad9907c118b8b18ad3600298cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 13/82] fix: changes to included items are sent, absent values
 are never included

---
 pkg/resource/change.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index b52cf69..73acea8 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -84,11 +84,11 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 		return c, true
 	}
 
-	oldInclude := includeFunc(c.Id, c.OldValue)
-	newInclude := includeFunc(c.Id, c.NewValue)
+	oldInclude := c.OldValue != nil && includeFunc(c.Id, c.OldValue)
+	newInclude := c.NewValue != nil && includeFunc(c.Id, c.NewValue)
 	if oldInclude == newInclude {
 		// the only time we want to skip sending the update is if both the old and new values are excluded
-		return c, !newInclude
+		return c, newInclude
 	}
 
 	if newInclude {
-- 
2.43.0


From 5b38703fc2d5ecaa2d4f2770109be692dad893e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 14/82] fix: subscribers are sent each write once, in the order
 the writes happened

---
 internal/minibus/bus.go    | 27 ++++++++++++++++++-------
 pkg/resource/atomic.go     | 34 ++++++++++++++++++++++++++++++++
 pkg/resource/collection.go | 35 +++++++++++++++++++++++++++------
 pkg/resource/value.go      | 40 +++++++++++++++++++++++++++++---------
 4 files changed, 114 insertions(+), 22 deletions(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index d90ab28..1cd2730 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -10,19 +10,32 @@ type Bus struct {
 	listeners []*listener
 }
 
+// Send sends event to all current listeners, waiting for each to receive it.
+// Returns false if ctx was done before all listeners received the event.
 func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
+	return b.Audience().Send(ctx, event)
+}
+
+// Audience returns the current listeners of b.
+func (b *Bus) Audience() *Audience {
 	// create a copy of the listeners so avoid holding the mutex a long time
-	var listeners []*listener
 	b.listenerM.RLock()
-	for _, l := range b.listeners {
-		listeners = append(listeners, l)
-	}
-	b.listenerM.RUnlock()
+	defer b.listenerM.RUnlock()
+	return &Audience{b: b, listeners: append([]*listener(nil), b.listeners...)}
+}
+
+// Audience is the listeners of a Bus at the time Bus.Audience was called.
+type Audience struct {
+	b         *Bus
+	listeners []*listener
+}
 
+// Send is like Bus.Send but sends event to the listeners in a only.
+func (a *Audience) Send(ctx context.Context, event any) (ok bool) {
 	needGc := false
 
 	// send the event to each listener that's not closed
-	for _, l := range listeners {
+	for _, l := range a.listeners {
 		ok, active := l.send(ctx, event)
 		if !ok {
 			return false
@@ -34,7 +47,7 @@ func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
 	}
 
 	if needGc {
-		b.collect()
+		a.b.collect()
 	}
 
 	return true
diff --git a/pkg/resource/atomic.go b/pkg/resource/atomic.go
index 2753f30..37dd2ad 100644
--- a/pkg/resource/atomic.go
+++ b/pkg/resource/atomic.go
@@ -1,6 +1,7 @@
 package resource
 
 import (
+	"context"
 	"sync"
 
 	"google.golang.org/grpc/codes"
@@ -31,6 +32,12 @@ type SaveFn func(msg proto.Message)
 //
 // An error will be returned if the value returned by get changes during the change call.
 func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (oldValue proto.Message, newValue proto.Message, err error) {
+	return getAndUpdate(mu, get, change, func() error { return nil }, save)
+}
+
+// getAndUpdate is like GetAndUpdate but calls begin, without holding any locks, between change and save.
+// The update doesn't happen if begin returns an error.
+func getAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, begin func() error, save SaveFn) (oldValue proto.Message, newValue proto.Message, err error) {
 	mu.RLock()
 	oldValue, err = get()
 	mu.RUnlock()
@@ -43,6 +50,10 @@ func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (ol
 		return oldValue, newValue, err
 	}
 
+	if err := begin(); err != nil {
+		return oldValue, newValue, err
+	}
+
 	mu.Lock()
 	defer mu.Unlock()
 	oldValueAgain, _ := get()
@@ -53,3 +64,26 @@ func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (ol
 	save(newValue)
 	return oldValue, newValue, nil
 }
+
+// turns orders writes: the events of a write are sent before the next write happens.
+// Writers take a turn before they commit and give it back when all subscribers have been told.
+type turns chan struct{}
+
+func newTurns() turns {
+	return make(turns, 1)
+}
+
+// take blocks until it's the callers turn or ctx is done.
+func (t turns) take(ctx context.Context) error {
+	select {
+	case t <- struct{}{}:
+		return nil
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+}
+
+// give ends the callers turn.
+func (t turns) give() {
+	<-t
+}
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 9171f89..9db23fd 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -23,7 +23,8 @@ type Collection struct {
 	byId  map[string]*item
 	rngMu sync.Mutex // protects rng from concurrent access
 	// "change" events contain a *CollectionChange instance
-	bus minibus.Bus
+	bus   minibus.Bus
+	turns turns // so subscribers are sent events in the order the writes happened
 }
 
 func NewCollection(options ...Option) *Collection {
@@ -38,6 +39,7 @@ func NewCollection(options ...Option) *Collection {
 		config: conf,
 		byId:   initialItems,
 		mu:     sync.RWMutex{},
+		turns:  newTurns(),
 	}
 
 	return c
@@ -120,8 +122,15 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		}
 	}
 
+	inTurn := false
+	defer func() {
+		if inTurn {
+			c.turns.give()
+		}
+	}()
 	var changeTime time.Time
-	oldValue, newValue, err := GetAndUpdate(
+	var audience *minibus.Audience // the subscribers that haven't seen the change as part of their seed
+	oldValue, newValue, err := getAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
 			if seen {
@@ -166,9 +175,15 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 			return created, nil
 		},
 		writeRequest.changeFn(writer, msg),
+		func() error {
+			err := c.turns.take(context.TODO())
+			inTurn = err == nil
+			return err
+		},
 		func(msg proto.Message) {
 			changeTime = writeRequest.updateTime(c.clock)
 			c.byId[id] = &item{body: msg, changeTime: changeTime}
+			audience = c.bus.Audience()
 		})
 
 	if err != nil {
@@ -182,7 +197,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		changeType = types.ChangeType_ADD
 		oldValue = nil
 	}
-	c.bus.Send(context.TODO(), &CollectionChange{
+	audience.Send(context.TODO(), &CollectionChange{
 		Id:         id,
 		ChangeTime: changeTime,
 		ChangeType: changeType,
@@ -223,24 +238,32 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 			return oldVal.body, ExpectedValuePreconditionFailed
 		}
 
+		if err := c.turns.take(context.TODO()); err != nil {
+			return oldVal.body, err
+		}
 		c.mu.Lock()
 		oldVal2, exists2 := c.byId[id]
 		if oldVal2 != oldVal || exists2 != exists {
 			// someone changed something while we were checking the value, try again
 			c.mu.Unlock()
+			c.turns.give()
 			oldVal, exists = oldVal2, exists2
 			continue
 		}
 
 		// actually do the delete
 		delete(c.byId, id)
-		c.bus.Send(context.TODO(), &CollectionChange{
+		changeTime := args.updateTime(c.clock)
+		audience := c.bus.Audience()
+		c.mu.Unlock()
+
+		audience.Send(context.TODO(), &CollectionChange{
 			Id:         id,
-			ChangeTime: args.updateTime(c.clock),
+			ChangeTime: changeTime,
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
-		c.mu.Unlock()
+		c.turns.give()
 		return oldVal.body, nil
 	}
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index e3cd27c..c3085c2 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -7,6 +7,8 @@ import (
 	"sync"
 	"time"
 
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 
 	"github.com/smart-core-os/sc-golang/internal/minibus"
@@ -21,13 +23,15 @@ type Value struct {
 	value      proto.Message
 	changeTime time.Time
 
-	bus minibus.Bus
+	bus   minibus.Bus
+	turns turns // so subscribers are sent events in the order the writes happened
 }
 
 func NewValue(opts ...Option) *Value {
 	c := computeConfig(opts...)
 	res := &Value{
 		config: c,
+		turns:  newTurns(),
 	}
 	res.value = c.initialValue
 	res.changeTime = c.clock.Now()
@@ -58,33 +62,51 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		return nil, err
 	}
 
+	done := func() {}
+	defer func() { done() }()
+	var (
+		ctx        context.Context
+		changeTime time.Time
+		audience   *minibus.Audience // the subscribers that haven't seen the new value as part of their seed
+	)
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
-	var changeTime time.Time
-	_, newValue, err := GetAndUpdate(
+	defer disarm()
+	_, newValue, err := getAndUpdate(
 		&r.mu,
 		func() (proto.Message, error) {
 			return r.value, nil
 		},
 		request.changeFn(writer, value),
+		func() error {
+			disarm()
+			var cancel context.CancelFunc
+			ctx, cancel = context.WithTimeout(context.TODO(), time.Second*5)
+			if err := r.turns.take(ctx); err != nil {
+				cancel()
+				return status.Error(codes.Unavailable, "blocked by another write for too long")
+			}
+			done = func() {
+				r.turns.give()
+				cancel()
+			}
+			return nil
+		},
 		func(message proto.Message) {
 			r.value = message
 			changeTime = request.updateTime(r.clock)
 			r.changeTime = changeTime
+			audience = r.bus.Audience()
 		},
 	)
-	disarm()
-
 	if err != nil {
 		return nil, err
 	}
 
-	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)
-	defer cancel()
-	r.bus.Send(ctx, &ValueChange{
+	ok := audience.Send(ctx, &ValueChange{
 		Value:      newValue,
 		ChangeTime: changeTime,
 	})
-	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
+	if !ok {
 		return nil, errors.New("bus.Send blocked for too long")
 	}
 
-- 
2.43.0


From 43bb5afbbc4690f790c598bbbd440c0fb3a57c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 15/82] fix: a subscriber that isn't receiving doesn't keep
 events from the others

---
 internal/minibus/bus.go | 49 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index 1cd2730..c31d24a 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -31,26 +31,43 @@ type Audience struct {
 }
 
 // Send is like Bus.Send but sends event to the listeners in a only.
+// Listeners that don't receive the event before ctx is done do not stop other listeners from receiving it.
 func (a *Audience) Send(ctx context.Context, event any) (ok bool) {
-	needGc := false
+	type result struct{ ok, active bool }
+	results := make([]result, len(a.listeners))
 
 	// send the event to each listener that's not closed
-	for _, l := range a.listeners {
-		ok, active := l.send(ctx, event)
-		if !ok {
-			return false
+	var wg sync.WaitGroup
+	for i, l := range a.listeners {
+		if l.trySend(event) {
+			results[i] = result{true, true}
+			continue
+		}
+		i, l := i, l
+		wg.Add(1)
+		go func() {
+			defer wg.Done()
+			results[i].ok, results[i].active = l.send(ctx, event)
+		}()
+	}
+	wg.Wait()
+
+	ok = true
+	needGc := false
+	for _, r := range results {
+		if !r.ok {
+			ok = false
 		}
-		if !active {
+		if !r.active {
 			// the listen context on this listener has been cancelled, we need to collect the garbage
 			needGc = true
 		}
 	}
-
 	if needGc {
 		a.b.collect()
 	}
 
-	return true
+	return ok
 }
 
 func (b *Bus) collect() {
@@ -114,6 +131,22 @@ func (l *listener) send(ctx context.Context, event any) (ok bool, active bool) {
 	}
 }
 
+// trySend sends event if the listener is waiting for one.
+func (l *listener) trySend(event any) (sent bool) {
+	l.m.RLock()
+	defer l.m.RUnlock()
+
+	if !l.alive() {
+		return false
+	}
+	select {
+	case l.ch <- event:
+		return true
+	default:
+		return false
+	}
+}
+
 func (l *listener) stop() {
 	l.m.Lock()
 	defer l.m.Unlock()
-- 
2.43.0


From caa6be708958a5829202609399066d20a72b3663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 16/82] fix: PullID subscribes before it returns and ends its
 subscription with the item

---
 pkg/resource/collection.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 9db23fd..1831370 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -331,10 +331,13 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 		id = c.idInterceptor(id)
 	}
 
+	ctx, stop := context.WithCancel(ctx) // so the subscription doesn't outlive the item
+	changes := c.Pull(ctx, opts...)
 	send := make(chan *ValueChange)
 	go func() {
 		defer close(send)
-		for change := range c.Pull(ctx, opts...) {
+		defer stop()
+		for change := range changes {
 			if change.Id != id {
 				continue
 			}
@@ -352,7 +355,7 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 			select {
 			case <-ctx.Done():
 				return
-			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.LastSeedValue}:
+			case send <- &ValueChange{ChangeTime: change.ChangeTime, Value: change.NewValue, SeedValue: change.SeedValue, LastSeedValue: change.SeedValue}: // there's at most one seed
 			}
 		}
 	}()
-- 
2.43.0


From 6a355935c51f91c227dfd5fba456789e306466c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 17/82] fix: equivalence compares with what the subscriber was
 last sent

---
 pkg/resource/change.go     | 52 ++++++++++++++++++++++++++++++++++++++
 pkg/resource/collection.go |  5 +++-
 pkg/resource/value.go      |  8 +++---
 3 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index 73acea8..d6d989b 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -112,3 +112,55 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 		OldValue:   c.OldValue,
 	}, true
 }
+
+// deduplicator removes changes whose new value is equivalent to the value the receiver already has for that item.
+type deduplicator struct {
+	equivalence Comparer                 // nil means no changes are removed
+	held        map[string]proto.Message // what the receiver has, by id
+}
+
+func newDeduplicator(equivalence Comparer) *deduplicator {
+	return &deduplicator{equivalence: equivalence, held: make(map[string]proto.Message)}
+}
+
+// next returns whether change should be sent to the receiver.
+// The returned change has an OldValue matching what the receiver has, which differs from change if changes were removed.
+func (d *deduplicator) next(change *CollectionChange) (newChange *CollectionChange, ok bool) {
+	if d.equivalence == nil {
+		return change, true
+	}
+
+	switch change.ChangeType {
+	case types.ChangeType_ADD:
+		d.held[change.Id] = change.NewValue
+		return change, true
+	case types.ChangeType_REMOVE:
+		held, known := d.held[change.Id]
+		delete(d.held, change.Id)
+		if !known {
+			return change, true
+		}
+		return change.withOldValue(held), true
+	default:
+		held, known := d.held[change.Id]
+		if !known {
+			held = change.OldValue // receivers that only asked for updates start with what was there before
+		}
+		if d.equivalence.Compare(held, change.NewValue) {
+			d.held[change.Id] = held
+			return nil, false
+		}
+		d.held[change.Id] = change.NewValue
+		return change.withOldValue(held), true
+	}
+}
+
+// withOldValue returns a change like c but having the given OldValue.
+func (c *CollectionChange) withOldValue(oldValue proto.Message) *CollectionChange {
+	if c.OldValue == oldValue {
+		return c
+	}
+	newChange := *c
+	newChange.OldValue = oldValue
+	return &newChange
+}
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 1831370..274fd79 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -280,6 +280,7 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 	go func() {
 		defer close(send)
 
+		dedup := newDeduplicator(c.equivalence)
 		if len(currentValues) > 0 {
 			sort.Slice(currentValues, func(i, j int) bool {
 				return currentValues[i].id < currentValues[j].id
@@ -295,6 +296,7 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 					LastSeedValue: i == lastIndex,
 				}
 				change = change.filter(filter)
+				change, _ = dedup.next(change)
 				select {
 				case <-ctx.Done():
 					return
@@ -310,7 +312,8 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 				continue
 			}
 			change = change.filter(filter)
-			if c.equivalence != nil && c.equivalence.Compare(change.OldValue, change.NewValue) {
+			change, ok = dedup.next(change)
+			if !ok {
 				continue
 			}
 			select {
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index c3085c2..29576c3 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -125,6 +125,8 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 	go func() {
 		defer close(typedEvents)
 
+		var last proto.Message // the last value we sent
+		sent := false          // whether we've sent anything at all
 		if currentValue != nil {
 			change := &ValueChange{Value: currentValue, ChangeTime: changeTime, SeedValue: true, LastSeedValue: true}
 			change = change.filter(filter)
@@ -133,15 +135,15 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 				return // give up sending
 			case typedEvents <- change:
 			}
+			last, sent = change.Value, true
 		}
 
-		last := currentValue
 		for event := range on {
 			change := event.(*ValueChange).filter(filter)
-			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {
+			if r.equivalence != nil && sent && r.equivalence.Compare(last, change.Value) {
 				continue
 			}
-			last = change.Value
+			last, sent = change.Value, true
 			select {
 			case <-ctx.Done():
 				return // give up sending
-- 
2.43.0


From 0d381f92496ab3bcf4f3531334dd43e6d2a5f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:10 +0000
Subject: [PATCH 18/82] fix: initial values are copied, like other values
 handed to a resource

---
 pkg/resource/collection.go | 2 +-
 pkg/resource/value.go      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 274fd79..49f1bd1 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -31,7 +31,7 @@ func NewCollection(options ...Option) *Collection {
 	conf := computeConfig(options...)
 	initialItems := make(map[string]*item)
 	for k, v := range conf.initialRecords {
-		initialItems[k] = &item{body: v, changeTime: conf.clock.Now()}
+		initialItems[k] = &item{body: proto.Clone(v), changeTime: conf.clock.Now()}
 	}
 	conf.initialRecords = nil // so the gc can collect them
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 29576c3..66ae769 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -33,7 +33,9 @@ func NewValue(opts ...Option) *Value {
 		config: c,
 		turns:  newTurns(),
 	}
-	res.value = c.initialValue
+	if c.initialValue != nil {
+		res.value = proto.Clone(c.initialValue)
+	}
 	res.changeTime = c.clock.Now()
 	c.initialValue = nil // clear so it can be GC'd when the value changes
 	return res
-- 
2.43.0


From 1048e6dbde634e7cef84dd10423da5c7e6752dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:13 +0000
Subject: [PATCH 19/82] fix: stop forwarding to abandoned trait subscriptions
 once their context is done

The goroutines behind these Pull methods waited for the consumer to receive
even after the subscription's context was cancelled, and never ended if it
didn't.
---
 pkg/trait/accesspb/model.go           |  6 +++++-
 pkg/trait/airqualitysensorpb/model.go |  6 +++++-
 pkg/trait/airtemperaturepb/model.go   |  6 +++++-
 pkg/trait/electricpb/model.go         | 18 +++++++++++++++---
 pkg/trait/energystoragepb/model.go    |  6 +++++-
 pkg/trait/lightpb/model.go            |  6 +++++-
 pkg/trait/meterpb/model.go            |  6 +++++-
 pkg/trait/occupancysensorpb/model.go  |  6 +++++-
 pkg/trait/onoffpb/model.go            |  6 +++++-
 pkg/trait/parentpb/model.go           |  6 +++++-
 pkg/trait/presspb/model.go            |  6 +++++-
 pkg/trait/wastepb/model.go            |  6 +++++-
 12 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/pkg/trait/accesspb/model.go b/pkg/trait/accesspb/model.go
index d80e66c..0eb27c9 100644
--- a/pkg/trait/accesspb/model.go
+++ b/pkg/trait/accesspb/model.go
@@ -41,9 +41,13 @@ func (m *Model) PullAccessAttempts(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AccessAttempt)
-			send <- PullAccessAttemptsChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAccessAttemptsChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airqualitysensorpb/model.go b/pkg/trait/airqualitysensorpb/model.go
index 4903204..cc059c4 100644
--- a/pkg/trait/airqualitysensorpb/model.go
+++ b/pkg/trait/airqualitysensorpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirQuality(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirQuality)
-			send <- PullAirQualityChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirQualityChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airtemperaturepb/model.go b/pkg/trait/airtemperaturepb/model.go
index bb14527..3f77644 100644
--- a/pkg/trait/airtemperaturepb/model.go
+++ b/pkg/trait/airtemperaturepb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirTemperature(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirTemperature)
-			send <- PullAirTemperatureChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirTemperatureChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 585c87d..0488ccc 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -78,9 +78,13 @@ func (m *Model) PullDemand(ctx context.Context, opts ...resource.ReadOption) <-c
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.ElectricDemand)
-			send <- PullDemandChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullDemandChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -121,9 +125,13 @@ func (m *Model) PullActiveMode(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			activeMode := change.Value.(*traits.ElectricMode)
-			send <- PullActiveModeChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullActiveModeChange{
 				ActiveMode: activeMode,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -344,7 +352,11 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 				NewValue:   newValue,
 				OldValue:   oldValue,
 			}
-			send <- pullChange
+			select {
+			case <-ctx.Done():
+				return
+			case send <- pullChange:
+			}
 		}
 	}()
 
diff --git a/pkg/trait/energystoragepb/model.go b/pkg/trait/energystoragepb/model.go
index ef06c0b..095f5fb 100644
--- a/pkg/trait/energystoragepb/model.go
+++ b/pkg/trait/energystoragepb/model.go
@@ -45,9 +45,13 @@ func (m *Model) PullEnergyLevel(ctx context.Context, opts ...resource.ReadOption
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.EnergyLevel)
-			send <- PullEnergyLevelChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullEnergyLevelChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 10c40b6..ff0b583 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -44,9 +44,13 @@ func (m *Model) PullBrightness(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Brightness)
-			send <- PullBrightnessChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullBrightnessChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index bfccd5a..220e3a3 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -72,9 +72,13 @@ func (m *Model) PullMeterReadings(ctx context.Context, opts ...resource.ReadOpti
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.MeterReading)
-			send <- PullMeterReadingChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullMeterReadingChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/occupancysensorpb/model.go b/pkg/trait/occupancysensorpb/model.go
index 05fca65..77daed9 100644
--- a/pkg/trait/occupancysensorpb/model.go
+++ b/pkg/trait/occupancysensorpb/model.go
@@ -40,9 +40,13 @@ func (m *Model) PullOccupancy(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Occupancy)
-			send <- PullOccupancyChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOccupancyChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/onoffpb/model.go b/pkg/trait/onoffpb/model.go
index 0870db7..e505b3d 100644
--- a/pkg/trait/onoffpb/model.go
+++ b/pkg/trait/onoffpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullOnOff(ctx context.Context, opts ...resource.ReadOption) <-ch
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.OnOff)
-			send <- PullOnOffChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOnOffChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index a7a8c95..041a09f 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -118,7 +118,11 @@ func (m *Model) PullChildren(ctx context.Context, opts ...resource.ReadOption) <
 	go func() {
 		defer close(out)
 		for change := range changes {
-			out <- childrenChangeToProto(change)
+			select {
+			case <-ctx.Done():
+				return
+			case out <- childrenChangeToProto(change):
+			}
 		}
 	}()
 
diff --git a/pkg/trait/presspb/model.go b/pkg/trait/presspb/model.go
index c025d14..d4599da 100644
--- a/pkg/trait/presspb/model.go
+++ b/pkg/trait/presspb/model.go
@@ -40,10 +40,14 @@ func (m *Model) PullPressedState(ctx context.Context, options ...resource.ReadOp
 		defer close(tx)
 		for change := range rx {
 			value := change.Value.(*traits.PressedState)
-			tx <- PullPressedStateChange{
+			select {
+			case <-ctx.Done():
+				return
+			case tx <- PullPressedStateChange{
 				Value:         value,
 				ChangeTime:    change.ChangeTime,
 				LastSeedValue: change.LastSeedValue,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 7db9ec5..55eb980 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -143,7 +143,11 @@ func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOptio
 				ChangeTime: wr.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
-			send <- change
+			select {
+			case <-ctx.Done():
+				return
+			case send <- change:
+			}
 		}
 	}()
 
-- 
2.43.0


From 0c7a918bd4632ecb1acb6d410c5b5e21fbe248d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 20/82] fix: enter leave subscribers don't clear the stored
 occupant and direction

---
 pkg/trait/enterleavesensorpb/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 953c1ec..6ea2ae2 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -70,6 +70,7 @@ func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadO
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
+				val = proto.Clone(val).(*traits.EnterLeaveEvent)
 				val.Occupant = nil
 				val.Direction = traits.EnterLeaveEvent_DIRECTION_UNSPECIFIED
 			}
-- 
2.43.0


From c48356d658feebfb68b4ce0928df5105ba8d339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 21/82] fix: light presets are applied to a copy of the callers
 message

---
 pkg/trait/lightpb/model.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index ff0b583..1540874 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -26,8 +28,11 @@ func (m *Model) GetBrightness(opts ...resource.ReadOption) (*traits.Brightness,
 }
 
 func (m *Model) UpdateBrightness(light *traits.Brightness, opts ...resource.WriteOption) (*traits.Brightness, error) {
-	if m.setLevelFromPreset(light) {
-		opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
+	if light.GetPreset() != nil {
+		light = proto.Clone(light).(*traits.Brightness) // the message is the callers, don't change it
+		if m.setLevelFromPreset(light) {
+			opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
+		}
 	}
 	res, err := m.brightness.Set(light, opts...)
 	if err != nil {
@@ -73,7 +78,7 @@ func (m *Model) setLevelFromPreset(b *traits.Brightness) bool {
 	for _, p := range m.presets {
 		if p.Name == b.GetPreset().GetName() {
 			b.LevelPercent = p.levelPercent
-			b.Preset = p.LightPreset // sets the title if needed
+			b.Preset = proto.Clone(p.LightPreset).(*traits.LightPreset) // sets the title if needed
 			return true
 		}
 	}
-- 
2.43.0


From 2355e21e11f641d281dd26685004e07bc19e849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 22/82] fix: merging metadata doesn't change the old value

---
 pkg/trait/metadatapb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/metadatapb/model.go b/pkg/trait/metadatapb/model.go
index 89d0dd4..6ab9c13 100644
--- a/pkg/trait/metadatapb/model.go
+++ b/pkg/trait/metadatapb/model.go
@@ -111,7 +111,7 @@ func metadataMergeInterceptor(old, new proto.Message) {
 	// so we have to do it ourselves.
 	oldVal := old.(*traits.Metadata)
 	newVal := new.(*traits.Metadata)
-	newVal.Traits = oldVal.Traits
+	newVal.Traits = proto.Clone(&traits.Metadata{Traits: oldVal.Traits}).(*traits.Metadata).Traits // old mustn't change
 	for _, trait := range cleanTraits {
 		newVal.Traits = mergeTraitMetadata(newVal.Traits, trait)
 	}
-- 
2.43.0


From 1a966b56f24a533d780e17d76341c1774b9c5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 23/82] fix: open close presets and read masks work on copies

---
 pkg/trait/openclosepb/model.go      | 5 +++--
 pkg/trait/openclosepb/model_opts.go | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 1b8c8a7..28adb41 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -70,7 +70,8 @@ func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...re
 		if preset == nil {
 			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", positions.Preset.Name)
 		}
-		positions.States = presetPositions
+		// the message is the callers, don't change it
+		positions = &traits.OpenClosePositions{Preset: positions.Preset, States: presetPositions}
 	}
 
 	writeRequest := resource.ComputeWriteConfig(opts...)
@@ -138,7 +139,7 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 			positions.Preset, _ = m.presetForValue(positions.States)
 
 			// projection and filtering
-			responseFilter.Filter(positions)
+			positions = responseFilter.FilterClone(positions).(*traits.OpenClosePositions)
 			if eq(last, positions) {
 				continue
 			}
diff --git a/pkg/trait/openclosepb/model_opts.go b/pkg/trait/openclosepb/model_opts.go
index a4dcd89..01211fd 100644
--- a/pkg/trait/openclosepb/model_opts.go
+++ b/pkg/trait/openclosepb/model_opts.go
@@ -30,6 +30,7 @@ func WithInitialPositions(positions ...*traits.OpenClosePosition) resource.Optio
 // WithPreset returns an option that configures the model with the given preset.
 // This option does not apply to any resource.
 func WithPreset(desc *traits.OpenClosePositions_Preset, positions ...*traits.OpenClosePosition) resource.Option {
+	positions = append([]*traits.OpenClosePosition(nil), positions...) // don't sort the callers slice
 	sortPositions(positions)
 	return modelOptionFunc(func(args *modelArgs) {
 		args.presets = append(args.presets, preset{desc: desc, positions: positions})
-- 
2.43.0


From 4e1b924ccfb6406c3bd00ff0aad5610b9b145450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 24/82] fix: adding and removing child traits doesn't change
 the old value

---
 pkg/trait/parentpb/model.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 041a09f..9e96e07 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -148,6 +148,7 @@ func childrenChangeToProto(change *resource.CollectionChange) *traits.PullChildr
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 	// has should be sorted by Trait.Name
+	has = append([]*traits.Trait(nil), has...) // don't write to the callers slice
 	for _, t := range more {
 		ts := string(t)
 		insertIndex := sort.Search(len(has), func(i int) bool {
@@ -170,6 +171,7 @@ func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
 	// has should be sorted by Trait.Name
+	has = append([]*traits.Trait(nil), has...) // don't write to the callers slice
 	for _, t := range remove {
 		ts := string(t)
 		insertIndex := sort.Search(len(has), func(i int) bool {
-- 
2.43.0


From 04dc06d590fe3fc51b44a6dd4fc071c762a3ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 25/82] fix: WithConsumablesOption configures the consumables

---
 pkg/trait/vendingpb/model_opts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model_opts.go b/pkg/trait/vendingpb/model_opts.go
index f579abc..d1f1421 100644
--- a/pkg/trait/vendingpb/model_opts.go
+++ b/pkg/trait/vendingpb/model_opts.go
@@ -41,7 +41,7 @@ func WithInitialStock(inventory ...*traits.Consumable_Stock) resource.Option {
 // WithConsumablesOption configures the consumables resource of the model.
 func WithConsumablesOption(opts ...resource.Option) resource.Option {
 	return modelOptionFunc(func(args *modelArgs) {
-		args.inventoryOptions = append(args.inventoryOptions, opts...)
+		args.consumableOptions = append(args.consumableOptions, opts...)
 	})
 }
 
-- 
2.43.0


From 753944f615756d6eede2320b9062f2753cd3cb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 26/82] fix: added waste records are copied

---
 pkg/trait/wastepb/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 55eb980..9023fda 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 	"time"
 
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -57,7 +58,7 @@ func (m *Model) AddWasteRecord(wr *traits.WasteRecord, opts ...resource.WriteOpt
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	m.allWasteRecords = append(m.allWasteRecords, wr)
+	m.allWasteRecords = append(m.allWasteRecords, proto.Clone(wr).(*traits.WasteRecord))
 	return v.(*traits.WasteRecord), nil
 }
 
-- 
2.43.0


From 6e2a5df35b29e4dd9d9d076d556924e6d29ab32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 27/82] fix: removing a trait a child doesn't have leaves its
 others alone

---
 pkg/trait/parentpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 9e96e07..b86009d 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -177,7 +177,7 @@ func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
 		insertIndex := sort.Search(len(has), func(i int) bool {
 			return has[i].Name >= ts
 		})
-		if insertIndex == len(has) {
+		if insertIndex == len(has) || has[insertIndex].Name != ts {
 			continue // t isn't in has, nothing to do this iteration
 		}
 		copy(has[insertIndex:], has[insertIndex+1:])
-- 
2.43.0


From 09663cde3a6051676ec7ac308ac26b013f3562a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 28/82] fix: the presence of change_time in Change messages
 doesn't affect equality

---
 pkg/cmp/cmp.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/cmp/cmp.go b/pkg/cmp/cmp.go
index 5d37979..dc23afb 100644
--- a/pkg/cmp/cmp.go
+++ b/pkg/cmp/cmp.go
@@ -45,6 +45,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	nx := 0
 	equal := true
 	mx.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if ignoreField(fd) {
+			return true
+		}
 		nx++
 		vy := my.Get(fd)
 		equal = my.Has(fd) && eq.equalField(fd, vx, vy)
@@ -55,6 +58,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	}
 	ny := 0
 	my.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if ignoreField(fd) {
+			return true
+		}
 		ny++
 		return true
 	})
@@ -66,11 +72,14 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 }
 
 // equalField compares two fields.
+// ignoreField returns whether the value, and presence, of fd has no influence on equality.
+// This is the case we've added, ignore PullResponse.Change.change_time
+func ignoreField(fd pref.FieldDescriptor) bool {
+	return fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change"
+}
+
 func (eq equator) equalField(fd pref.FieldDescriptor, x, y pref.Value) bool {
 	switch {
-	// This is the case we've added, ignore PullResponse.Change.change_time
-	case fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change":
-		return true
 	case fd.IsList():
 		return eq.equalList(fd, x.List(), y.List())
 	case fd.IsMap():
-- 
2.43.0


From 31c85b92e34fcc4c6017f076dc52894ca22c82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 29/82] fix: float tolerances compare NaN and infinities

---
 pkg/cmp/number.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cmp/number.go b/pkg/cmp/number.go
index b874ff2..57cc422 100644
--- a/pkg/cmp/number.go
+++ b/pkg/cmp/number.go
@@ -14,6 +14,12 @@ func FloatValueApprox(fraction, margin float64) Value {
 			return false, false
 		}
 		fx, fy := x.Float(), y.Float()
+		if math.IsNaN(fx) || math.IsNaN(fy) {
+			return math.IsNaN(fx) && math.IsNaN(fy), true
+		}
+		if math.IsInf(fx, 0) || math.IsInf(fy, 0) {
+			return fx == fy, true // no finite fraction or margin gets you to or from infinity
+		}
 		relMarg := fraction * math.Min(math.Abs(fx), math.Abs(fy))
 		return math.Abs(fx-fy) <= math.Max(margin, relMarg), true
 	}
-- 
2.43.0


From e971c24c47a7edeb6b10b0b97661ea8609c08a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:13 +0000
Subject: [PATCH 30/82] fix: time and duration tolerances are symmetric and
 don't overflow

---
 pkg/cmp/time.go | 64 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index f7b980a..6384f78 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -1,6 +1,7 @@
 package cmp
 
 import (
+	"math"
 	"time"
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
@@ -26,16 +27,39 @@ func TimeValueWithin(d time.Duration) Value {
 			return mx.IsValid() == my.IsValid(), true
 		}
 
-		xt, yt := toTime(mx), toTime(my)
-		if xt.Before(yt) {
-			return yt.Sub(xt) <= d, true
-		}
-		return xt.Sub(yt) <= d, true
+		return within(toTimestamp(mx), toTimestamp(my), d), true
 	}
 }
 
-func toTime(x pref.Message) time.Time {
-	return x.Interface().(*timestamppb.Timestamp).AsTime()
+func toTimestamp(x pref.Message) *timestamppb.Timestamp {
+	return x.Interface().(*timestamppb.Timestamp)
+}
+
+// secs is implemented by both timestamppb.Timestamp and durationpb.Duration.
+type secs interface {
+	GetSeconds() int64
+	GetNanos() int32
+}
+
+// diff returns the absolute difference of x and y.
+// Both x and y can represent many more values than a time.Duration, as can the difference between them.
+func diff(x, y secs) (seconds, nanos int64) {
+	seconds, nanos = x.GetSeconds()-y.GetSeconds(), int64(x.GetNanos())-int64(y.GetNanos())
+	seconds, nanos = seconds+nanos/1e9, nanos%1e9
+	if seconds < 0 || seconds == 0 && nanos < 0 {
+		seconds, nanos = -seconds, -nanos
+	}
+	if nanos < 0 {
+		seconds, nanos = seconds-1, nanos+1e9
+	}
+	return seconds, nanos
+}
+
+// within returns whether x and y are at most d apart.
+func within(x, y secs, d time.Duration) bool {
+	seconds, nanos := diff(x, y)
+	dSeconds, dNanos := int64(d/time.Second), int64(d%time.Second)
+	return seconds < dSeconds || seconds == dSeconds && nanos <= dNanos
 }
 
 // DurationValueWithin considers two durationpb.Duration to be equal if their durations are within d of each other.
@@ -45,29 +69,31 @@ func DurationValueWithin(d time.Duration) Value {
 		if returnEarly {
 			return equal, ok
 		}
-		if xd < yd {
-			return yd-xd <= d, true
-		}
-		return xd-yd <= d, true
+		return within(xd, yd, d), true
 	}
 }
 
-// DurationValueWithinP considers two durationpb.Duration to be equal if their values are within p percent of each other.
+// DurationValueWithinP considers two durationpb.Duration to be equal if their values are within p percent of each other,
+// i.e. they differ by no more than p percent of the smaller one.
 func DurationValueWithinP(p float32) Value {
 	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal, ok bool) {
 		xd, yd, equal, ok, returnEarly := cmpDuration(fd, x, y)
 		if returnEarly {
 			return equal, ok
 		}
-		pd := float32(xd) / float32(yd)
-		if pd < 0 {
-			pd = -pd
+		seconds, nanos := diff(xd, yd)
+		if seconds == 0 && nanos == 0 {
+			return true, true
+		}
+		toFloat := func(seconds, nanos int64) float64 {
+			return math.Abs(float64(seconds) + float64(nanos)/1e9)
 		}
-		return pd < p, true
+		smallest := math.Min(toFloat(xd.GetSeconds(), int64(xd.GetNanos())), toFloat(yd.GetSeconds(), int64(yd.GetNanos())))
+		return toFloat(seconds, nanos) <= smallest*float64(p)/100, true
 	}
 }
 
-func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration, equal, ok, returnEarly bool) {
+func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd *durationpb.Duration, equal, ok, returnEarly bool) {
 	if fd.Kind() != pref.MessageKind {
 		return xd, yd, false, false, true
 	}
@@ -88,6 +114,6 @@ func cmpDuration(fd pref.FieldDescriptor, x, y pref.Value) (xd, yd time.Duration
 	return xd, yd, false, false, false
 }
 
-func toDuration(x pref.Message) time.Duration {
-	return x.Interface().(*durationpb.Duration).AsDuration()
+func toDuration(x pref.Message) *durationpb.Duration {
+	return x.Interface().(*durationpb.Duration)
 }
-- 
2.43.0


From 3705127c8f4a7e830a2f378710df8c67113b13c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 31/82] fix: the in-process wrapper ends calls, and hands over
 messages and metadata, as gRPC does

- a cancelled call ended with io.EOF, or with the handler's later outcome
- handlers saw a cancellation as the client closing its side
- a handler returning io.EOF, or a context error, didn't end the call with an error
- a header that was set but not sent was lost if no message followed, and could change after it was sent
- the trailer was available before the call ended, and an error or trailer after the single reply was lost
- a message sent could still be changed by the sender, a message received was merged into its destination
- CloseSend twice, or sending after it, panicked
- invoking a streaming method is a shape mismatch
- the context of a unary handler outlived the call
---
 pkg/wrap/stream.go | 201 ++++++++++++++++++++++++++++++++++-----------
 pkg/wrap/wrap.go   |  33 ++++++--
 2 files changed, 178 insertions(+), 56 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 39d4121..dd1f10e 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -7,23 +7,29 @@ import (
 	"sync"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 )
 
 // ClientServerStream combines both a grpc.ServerStream and grpc.ClientStream
 type ClientServerStream struct {
-	ctx context.Context
+	ctx         context.Context
+	singleReply bool // the server sends at most one message, which is delivered along with the outcome of the call
 
-	header  metadata.MD
-	headerM sync.Mutex    // guards closing of headerC
-	headerC chan struct{} // closed once calls to clientStream.Header should return
+	m        sync.Mutex // guards the fields below, and closing of headerC
+	header   metadata.MD
+	headerC  chan struct{} // closed once calls to clientStream.Header should return, header doesn't change after that
+	trailer  metadata.MD
+	done     bool // Close was called
+	closeErr error
 
-	serverSend chan any
-	clientSend chan any
-	trailer    metadata.MD
+	serverSend chan proto.Message // closed by Close
+	clientSend chan proto.Message
+	sendClosed chan struct{} // closed by clientStream.CloseSend
+	sendOnce   sync.Once     // guards closing of sendClosed
 	closed     context.CancelFunc
-	closeErr   error
 }
 
 func NewClientServerStream(ctx context.Context) *ClientServerStream {
@@ -32,23 +38,57 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 		ctx:        newCtx,
 		closed:     closed,
 		headerC:    make(chan struct{}),
-		serverSend: make(chan any),
-		clientSend: make(chan any),
+		serverSend: make(chan proto.Message),
+		clientSend: make(chan proto.Message),
+		sendClosed: make(chan struct{}),
 	}
 }
 
+// Close ends the call with the outcome of the server.
+// If the context has already ended then that is the outcome of the call, whatever the server says.
 func (s *ClientServerStream) Close(err error) {
-	s.closeErr = err
+	s.m.Lock()
+	s.done = true
+	if ctxErr := s.ctx.Err(); ctxErr != nil {
+		s.closeErr = ctxErr
+		s.trailer = nil
+	} else {
+		s.closeErr = err
+		if len(s.header) > 0 {
+			s.sendHeaderLocked()
+		}
+	}
 	close(s.serverSend)
+	s.m.Unlock()
 	s.closed()
 }
 
-// safe to call if s.serverSend is closed
-func (s *ClientServerStream) closeErrLocked() error {
+// outcome returns how the call ended, io.EOF if successfully. ok is false if Close hasn't been called.
+func (s *ClientServerStream) outcome() (err error, ok bool) {
+	s.m.Lock()
+	defer s.m.Unlock()
 	if s.closeErr == nil {
-		return io.EOF
+		return io.EOF, s.done
+	}
+	return s.closeErr, s.done
+}
+
+// sendHeaderLocked makes the header available to the client, if it isn't already. s.m must be held.
+func (s *ClientServerStream) sendHeaderLocked() {
+	select {
+	case <-s.headerC:
+	default:
+		close(s.headerC)
+	}
+}
+
+func (s *ClientServerStream) headerSentLocked() bool {
+	select {
+	case <-s.headerC:
+		return true
+	default:
+		return false
 	}
-	return s.closeErr
 }
 
 func (s *ClientServerStream) Client() grpc.ClientStream {
@@ -69,22 +109,30 @@ func (c *clientStream) Header() (metadata.MD, error) {
 		select {
 		case <-c.headerC:
 			// we should still return the headers if we have them, even if the context is done
-			return c.header, nil
+			return cloneMD(c.header), nil
 		default:
 			// when the stream is terminated without headers, ClientStream should return a nil error
 			return nil, nil
 		}
 	case <-c.headerC:
-		return c.header, nil
+		return cloneMD(c.header), nil
 	}
 }
 
 func (c *clientStream) Trailer() metadata.MD {
-	return c.trailer
+	c.m.Lock()
+	defer c.m.Unlock()
+	if !c.done {
+		// trailers are only available once the server is done
+		return nil
+	}
+	return cloneMD(c.trailer)
 }
 
 func (c *clientStream) CloseSend() error {
-	close(c.clientSend)
+	c.sendOnce.Do(func() {
+		close(c.sendClosed)
+	})
 	return nil
 }
 
@@ -93,33 +141,65 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	select {
+	case <-c.sendClosed:
+		return status.Error(codes.Internal, "SendMsg called after CloseSend")
+	default:
+	}
+	// the caller is free to modify m once we return, which may be before the server has read it
+	msg := proto.Clone(m.(proto.Message))
 	select {
 	case <-c.ctx.Done():
-		return c.closeErrLocked()
-	case c.clientSend <- m:
+		if _, ok := c.outcome(); ok {
+			// as documented by grpc.ClientStream, RecvMsg returns the error
+			return io.EOF
+		}
+		return c.ctx.Err()
+	case c.clientSend <- msg:
 		return nil
 	}
 }
 
 func (c *clientStream) RecvMsg(m any) error {
+	val, err := c.recv()
+	if err != nil {
+		return err
+	}
+	if err := copyMessage(m.(proto.Message), val); err != nil {
+		return err
+	}
+	if !c.singleReply {
+		return nil
+	}
+	// the call isn't successful until the server says so
+	_, err = c.recv()
+	switch {
+	case err == nil:
+		return status.Error(codes.Internal, "method with a single response sent more than one")
+	case err == io.EOF:
+		return nil
+	default:
+		return err
+	}
+}
+
+// recv returns the next message from the server, or the outcome of the call.
+func (c *clientStream) recv() (proto.Message, error) {
 	select {
-	case <-c.Context().Done():
+	case <-c.ctx.Done():
 		// closeErr may or may not be available depending on why the context has ended
 		//  1. if c.closed() was called by c.Close(...), then c.closeErr will be available
 		//  2. if the parent context was cancelled, then c.closeErr may not be available
-		select {
-		case _, ok := <-c.serverSend:
-			if !ok {
-				return c.closeErrLocked()
-			}
-		default:
+		if err, ok := c.outcome(); ok {
+			return nil, err
 		}
-		return c.Context().Err()
+		return nil, c.ctx.Err()
 	case val, ok := <-c.serverSend:
 		if !ok {
-			return c.closeErrLocked()
+			err, _ := c.outcome()
+			return nil, err
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return val, nil
 	}
 }
 
@@ -127,27 +207,44 @@ type serverStream struct {
 	*ClientServerStream
 }
 
+var errHeaderSent = errors.New("headers already sent")
+
 func (s *serverStream) SetHeader(md metadata.MD) error {
+	if md.Len() == 0 {
+		return nil
+	}
+	s.m.Lock()
+	defer s.m.Unlock()
+
+	if s.headerSentLocked() {
+		return errHeaderSent
+	}
 	s.header = metadata.Join(s.header, md)
 	return nil
 }
 
 func (s *serverStream) SendHeader(md metadata.MD) error {
-	s.headerM.Lock()
-	defer s.headerM.Unlock()
+	s.m.Lock()
+	defer s.m.Unlock()
 
-	select {
-	case <-s.headerC:
-		return errors.New("headers already sent")
-	default:
+	if s.headerSentLocked() {
+		return errHeaderSent
+	}
+	if err := s.ctx.Err(); err != nil {
+		// too late, the call has ended
+		return err
 	}
 	s.header = metadata.Join(s.header, md)
-	close(s.headerC)
+	s.sendHeaderLocked()
 	return nil
 }
 
 func (s *serverStream) SetTrailer(md metadata.MD) {
-	s.trailer = metadata.Join(s.trailer, md)
+	s.m.Lock()
+	defer s.m.Unlock()
+	if !s.done {
+		s.trailer = metadata.Join(s.trailer, md)
+	}
 }
 
 func (s *serverStream) Context() context.Context {
@@ -156,23 +253,25 @@ func (s *serverStream) Context() context.Context {
 
 func (s *serverStream) SendMsg(m any) error {
 	s.sendHeaderIfNeeded()
+	// the caller is free to modify m once we return, which may be before the client has read it
+	msg := proto.Clone(m.(proto.Message))
 	select {
 	case <-s.ctx.Done():
-		return s.closeErrLocked()
-	case s.serverSend <- m:
+		return s.ctx.Err()
+	case s.serverSend <- msg:
 		return nil
 	}
 }
 
 func (s *serverStream) RecvMsg(m any) error {
 	select {
-	case <-s.Context().Done():
-		return s.closeErrLocked()
-	case val, ok := <-s.clientSend:
-		if !ok {
-			return io.EOF
-		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+	case <-s.ctx.Done():
+		// not io.EOF, which means that the client has sent all its messages
+		return s.ctx.Err()
+	case <-s.sendClosed:
+		return io.EOF
+	case val := <-s.clientSend:
+		return copyMessage(m.(proto.Message), val)
 	}
 }
 
@@ -181,6 +280,12 @@ func (s *serverStream) sendHeaderIfNeeded() {
 	_ = s.SendHeader(nil)
 }
 
+// copyMessage replaces the contents of dst by those of src.
+func copyMessage(dst, src proto.Message) error {
+	proto.Reset(dst)
+	return permissiveProtoMerge(dst, src)
+}
+
 // works like proto.Merge but allows messages with different descriptors by performing a marshal/unmarshal
 //
 // This is the recommended way to do it: https://github.com/golang/protobuf/issues/1163#issuecomment-654334690
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index c4cd005..05ffce1 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -3,6 +3,7 @@ package wrap
 import (
 	"context"
 	"fmt"
+	"io"
 	"reflect"
 
 	"google.golang.org/grpc"
@@ -54,23 +55,27 @@ type wrapper struct {
 func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any, opts ...grpc.CallOption) error {
 	matched, ok := w.methods[method]
 	if !ok {
+		if _, ok := w.streams[method]; ok {
+			return ErrMethodShape
+		}
 		return ErrMethodNotFound
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	clientServerStream, ss, cs := w.startStream(ctx, method, true)
 	go func() {
-		res, err := matched.Handler(w.srv, ctx, func(dst any) error {
+		res, err := matched.Handler(w.srv, ss.Context(), func(dst any) error {
 			return ss.RecvMsg(dst)
 		}, nil)
 		if err != nil {
-			clientServerStream.Close(err)
+			clientServerStream.Close(handlerErr(err))
 			return
 		}
 		err = ss.SendMsg(res)
 		clientServerStream.Close(err)
 	}()
 
-	if err := cs.SendMsg(args); err != nil {
+	// io.EOF means that the call has ended, RecvMsg knows why
+	if err := cs.SendMsg(args); err != nil && err != io.EOF {
 		return err
 	}
 	if err := cs.CloseSend(); err != nil {
@@ -101,16 +106,16 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 		return nil, ErrMethodShape
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	clientServerStream, ss, cs := w.startStream(ctx, method, !matched.ServerStreams)
 	go func() {
 		err := matched.Handler(w.srv, ss)
-		clientServerStream.Close(err)
+		clientServerStream.Close(handlerErr(err))
 	}()
 
 	return cs, nil
 }
 
-func (w *wrapper) startStream(ctx context.Context, method string) (context.Context, *ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
+func (w *wrapper) startStream(ctx context.Context, method string, singleReply bool) (*ClientServerStream, grpc.ServerStream, grpc.ClientStream) {
 	// convert client's outgoing metadata to server's incoming metadata
 	md, _ := metadata.FromOutgoingContext(ctx)
 	md = cloneMD(md) // to prevent client from concurrently modifying the metadata
@@ -121,11 +126,12 @@ func (w *wrapper) startStream(ctx context.Context, method string) (context.Conte
 	ctx = grpc.NewContextWithServerTransportStream(ctx, sts)
 
 	clientServerStream := NewClientServerStream(ctx)
+	clientServerStream.singleReply = singleReply
 	ss := clientServerStream.Server()
 	sts.ss = ss
 	cs := clientServerStream.Client()
 
-	return ctx, clientServerStream, ss, cs
+	return clientServerStream, ss, cs
 }
 
 // thin implementation of grpc.ServerTransportStream, only to allow grpc.SetHeader to work,
@@ -163,6 +169,17 @@ func cloneMD(md metadata.MD) metadata.MD {
 	return newMD
 }
 
+// handlerErr converts an error returned by a handler to what a gRPC client would see, a status error.
+func handlerErr(err error) error {
+	if err == nil {
+		return nil
+	}
+	if _, ok := status.FromError(err); ok {
+		return err
+	}
+	return status.FromContextError(err).Err()
+}
+
 // gather headers and trailers into grpc.Header and grpc.Trailer call options
 func collectMetadata(cs grpc.ClientStream, opts []grpc.CallOption) error {
 	var err error
-- 
2.43.0


From 92a95dc49bdab82a056003fcbca92f2b918b6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 32/82] fix: executing a group without members by the One, Fast
 or Race strategies panicked

---
 pkg/group/exec.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 5fc4ad4..88dd4bd 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -39,20 +39,23 @@ func Execute(ctx context.Context, strategy ExecutionStrategy, members []Member)
 		return ExecuteAny(ctx, members)
 	case ExecutionStrategyOne:
 		res, i, err := ExecuteOne(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return placeResult(len(members), i, res), err
 	case ExecutionStrategyFast:
 		res, i, err := ExecuteFast(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return placeResult(len(members), i, res), err
 	case ExecutionStrategyRace:
 		res, i, err := ExecuteRace(ctx, members)
-		allRes := make([]proto.Message, len(members))
+		return placeResult(len(members), i, res), err
+	}
+}
+
+// placeResult returns n results of which only the one at index i is set.
+func placeResult(n, i int, res proto.Message) []proto.Message {
+	allRes := make([]proto.Message, n)
+	if i < n { // there is no i without members
 		allRes[i] = res
-		return allRes, err
 	}
+	return allRes
 }
 
 // ExecuteAll executes all the member functions in parallel,
-- 
2.43.0


From a9668b271a624508b3953c25e0a7d66c2425d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 33/82] fix: members of a group whose response isn't read
 leaked a goroutine each

---
 pkg/group/exec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 88dd4bd..099844e 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -172,7 +172,8 @@ func ExecuteRace(ctx context.Context, members []Member) (proto.Message, int, err
 // The returned chan will contain the responses in completion order.
 // The chan will be closed once all members have returned a result.
 func executeEach(ctx context.Context, members []Member) <-chan memberResponse {
-	responses := make(chan memberResponse)
+	// the caller may not read all the responses, members shouldn't be held up by that
+	responses := make(chan memberResponse, len(members))
 	var all sync.WaitGroup
 	all.Add(len(members))
 
-- 
2.43.0


From 4a2f86ce1b5c2529d903904fa2ce9a74513ca407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 34/82] fix: members of a light group without a result lowered
 the group's brightness

---
 pkg/trait/lightpb/group.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/trait/lightpb/group.go b/pkg/trait/lightpb/group.go
index 5362aac..07ff191 100644
--- a/pkg/trait/lightpb/group.go
+++ b/pkg/trait/lightpb/group.go
@@ -163,29 +163,34 @@ func (s *Group) pullBrightnessActions(request *traits.PullBrightnessRequest, mem
 
 func (s *Group) reduce(results []proto.Message) *traits.Brightness {
 	val := new(traits.Brightness)
-	for i, result := range results {
-		if result == nil {
+	n := 0 // members without a result, because they failed say, don't affect the average
+	for _, result := range results {
+		typedResult, _ := result.(*traits.Brightness)
+		if typedResult == nil {
 			continue
 		}
-		typedResult := result.(*traits.Brightness)
-		val = s.reduceBrightness(val, typedResult, i)
+		val = s.reduceBrightness(val, typedResult, n)
+		n++
 	}
 	return val
 }
 
 func (s *Group) reduceBrightnessChanges(arr []*traits.PullBrightnessResponse_Change) *traits.PullBrightnessResponse_Change {
 	val := &traits.PullBrightnessResponse_Change{}
-	for i, change := range arr {
-		if change == nil {
+	n := 0
+	for _, change := range arr {
+		if change.GetBrightness() == nil {
 			// nil changes happen because the incoming array can be partially populated
 			// depending on whether we've received anything from a group member
 			continue
 		}
-		val.Brightness = s.reduceBrightness(val.Brightness, change.Brightness, i)
+		val.Brightness = s.reduceBrightness(val.Brightness, change.Brightness, n)
+		n++
 	}
 	return val
 }
 
+// reduceBrightness adds v to acc, the average of i values.
 func (s *Group) reduceBrightness(acc, v *traits.Brightness, i int) *traits.Brightness {
 	if v == nil {
 		return acc
-- 
2.43.0


From 9f2f30e400bb177f4be35abbf4043a6594a7f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 35/82] fix: refuse negative page sizes

Listing with a negative page size sliced out of range and panicked.
---
 pkg/trait/electricpb/model_server.go    |  6 ++++--
 pkg/trait/electricpb/pages.go           | 11 +++++++----
 pkg/trait/hailpb/model_server.go        |  6 ++++--
 pkg/trait/hailpb/pages.go               | 11 +++++++----
 pkg/trait/parentpb/model_server.go      |  6 ++++--
 pkg/trait/parentpb/pages.go             | 11 +++++++----
 pkg/trait/publicationpb/model_server.go |  6 ++++--
 pkg/trait/publicationpb/pages.go        | 11 +++++++----
 pkg/trait/vendingpb/model_server.go     | 12 ++++++++----
 pkg/trait/vendingpb/pages.go            | 11 +++++++----
 10 files changed, 59 insertions(+), 32 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 924df5e..6260275 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -104,7 +104,10 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -127,7 +130,6 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/electricpb/pages.go b/pkg/trait/electricpb/pages.go
index 0cad80e..dd09936 100644
--- a/pkg/trait/electricpb/pages.go
+++ b/pkg/trait/electricpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d is negative", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 663e16f..92c3007 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -76,7 +76,10 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -99,7 +102,6 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/hailpb/pages.go b/pkg/trait/hailpb/pages.go
index 4b8b484..25a2312 100644
--- a/pkg/trait/hailpb/pages.go
+++ b/pkg/trait/hailpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d is negative", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index f03d886..8f798d4 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -31,7 +31,10 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	all := s.model.ListChildren()
 	sort.Slice(all, func(i, j int) bool {
@@ -61,7 +64,6 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/parentpb/pages.go b/pkg/trait/parentpb/pages.go
index d66501e..e7a6bf1 100644
--- a/pkg/trait/parentpb/pages.go
+++ b/pkg/trait/parentpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d is negative", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 09e24e1..001f2b1 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -105,7 +105,10 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -128,7 +131,6 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/publicationpb/pages.go b/pkg/trait/publicationpb/pages.go
index bb56648..13792eb 100644
--- a/pkg/trait/publicationpb/pages.go
+++ b/pkg/trait/publicationpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d is negative", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 4e5fb8f..bdd4d1a 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -39,7 +39,10 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -62,7 +65,6 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
@@ -117,7 +119,10 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	}
 
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
-	pageSize := capPageSize(int(request.GetPageSize()))
+	pageSize, err := capPageSize(int(request.GetPageSize()))
+	if err != nil {
+		return nil, err
+	}
 
 	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
 	nextIndex := 0
@@ -140,7 +145,6 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		}
 	}
 
-	var err error
 	result.NextPageToken, err = encodePageToken(pageToken)
 	if err != nil {
 		return nil, err
diff --git a/pkg/trait/vendingpb/pages.go b/pkg/trait/vendingpb/pages.go
index 34f0695..f94ce62 100644
--- a/pkg/trait/vendingpb/pages.go
+++ b/pkg/trait/vendingpb/pages.go
@@ -15,14 +15,17 @@ const (
 	maxPageSize     = 1000
 )
 
-func capPageSize(pageSize int) int {
+func capPageSize(pageSize int) (int, error) {
+	if pageSize < 0 {
+		return 0, status.Errorf(codes.InvalidArgument, "bad page size: %d is negative", pageSize)
+	}
 	if pageSize == 0 {
-		return defaultPageSize
+		return defaultPageSize, nil
 	}
 	if pageSize > maxPageSize {
-		return maxPageSize
+		return maxPageSize, nil
 	}
-	return pageSize
+	return pageSize, nil
 }
 
 func decodePageToken(token string, pageToken *types.PageToken) error {
-- 
2.43.0


From 563a784b62281e560c50aacf65eb6c3ac9482d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 36/82] fix: page lists on their keys, not on what the read
 mask leaves of them

With a read mask that excludes the key every page token named the empty key,
so following tokens returned the first page forever.
---
 pkg/trait/electricpb/model_server.go    |  9 ++++++++-
 pkg/trait/hailpb/model_server.go        |  9 ++++++++-
 pkg/trait/publicationpb/model_server.go |  9 ++++++++-
 pkg/trait/vendingpb/model_server.go     | 17 +++++++++++++++--
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 6260275..5887bd7 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -12,6 +12,7 @@ import (
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
 
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -109,7 +110,7 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		return nil, err
 	}
 
-	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
+	sortedModes := s.model.Modes()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedModes), func(i int) bool {
@@ -135,6 +136,12 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		return nil, err
 	}
 	result.Modes = sortedModes[nextIndex:upperBound]
+
+	// apply read mask, after paging as that needs each items key
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Modes {
+		result.Modes[i] = mask.FilterClone(item).(*traits.ElectricMode)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 92c3007..b974c3a 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -81,7 +82,7 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		return nil, err
 	}
 
-	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListHails()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -107,6 +108,12 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		return nil, err
 	}
 	result.Hails = sortedItems[nextIndex:upperBound]
+
+	// apply read mask, after paging as that needs each items key
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Hails {
+		result.Hails[i] = mask.FilterClone(item).(*traits.Hail)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 001f2b1..fc75de4 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -110,7 +111,7 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		return nil, err
 	}
 
-	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListPublications()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -136,6 +137,12 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		return nil, err
 	}
 	result.Publications = sortedItems[nextIndex:upperBound]
+
+	// apply read mask, after paging as that needs each items key
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Publications {
+		result.Publications[i] = mask.FilterClone(item).(*traits.Publication)
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index bdd4d1a..84dd749 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -44,7 +45,7 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		return nil, err
 	}
 
-	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListConsumables()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -70,6 +71,12 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		return nil, err
 	}
 	result.Consumables = sortedItems[nextIndex:upperBound]
+
+	// apply read mask, after paging as that needs each items key
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Consumables {
+		result.Consumables[i] = mask.FilterClone(item).(*traits.Consumable)
+	}
 	return result, nil
 }
 
@@ -124,7 +131,7 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		return nil, err
 	}
 
-	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListInventory()
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -150,6 +157,12 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		return nil, err
 	}
 	result.Inventory = sortedItems[nextIndex:upperBound]
+
+	// apply read mask, after paging as that needs each items key
+	mask := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for i, item := range result.Inventory {
+		result.Inventory[i] = mask.FilterClone(item).(*traits.Consumable_Stock)
+	}
 	return result, nil
 }
 
-- 
2.43.0


From ecbc1304e7c545bd40ce30333440f21c11c5f8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 37/82] fix: page past a child with an empty name

A page token naming it was read as no token, so the listing started again.
---
 pkg/trait/parentpb/model_server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index 8f798d4..10c6b36 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -30,7 +30,8 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 		return nil, err
 	}
 
-	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
+	// the key() of the last item we sent, which can be the empty string
+	last, hasLast := pageToken.PageStart.(*types.PageToken_LastResourceName)
 	pageSize, err := capPageSize(int(request.GetPageSize()))
 	if err != nil {
 		return nil, err
@@ -42,7 +43,8 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 	})
 
 	nextIndex := 0
-	if lastKey != "" {
+	if hasLast {
+		lastKey := last.LastResourceName
 		nextIndex = sort.Search(len(all), func(i int) bool {
 			return all[i].Name >= lastKey
 		})
-- 
2.43.0


From a9686d0bfd546683855f466fadc7b575bb73e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 38/82] fix: refuse bad page tokens and sizes when listing
 waste records

A token past the last record panicked, a negative size returned one record and no
token, and a token that is not a number was reported without a status.
---
 pkg/trait/wastepb/model_server.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index d94fa22..ca772ea 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -5,6 +5,8 @@ import (
 	"strconv"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	"github.com/smart-core-os/sc-api/go/traits"
 )
@@ -33,14 +35,20 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	pageToken := req.GetPageToken()
 	startIndex := m.model.GetWasteRecordCount()
 	if pageToken != "" {
-		_, err := strconv.Atoi(req.GetPageToken())
+		index, err := strconv.Atoi(pageToken)
 		if err != nil {
-			return nil, err
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %v", err)
 		}
-		startIndex, _ = strconv.Atoi(pageToken)
+		if index < 0 || index > startIndex {
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %d is out of range", index)
+		}
+		startIndex = index
 	}
 
 	count := req.PageSize
+	if count < 0 {
+		return nil, status.Errorf(codes.InvalidArgument, "bad page size: %d is negative", count)
+	}
 	if count == 0 {
 		count = 50
 	} else if count > 1000 {
-- 
2.43.0


From 78e4fc458dd5fd4cdb87c038ae1ba88f8085babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 39/82] fix: refuse to make a second electric mode normal by
 updating it

---
 pkg/trait/electricpb/model.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 0488ccc..9a6b24f 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -9,6 +9,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -312,6 +313,7 @@ func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 // UpdateMode will modify one of the modes stored in this device.
 // The mode to be modified is specified by mode.Id, which must be set.
 // Fields to be modified can be selected using mask - to modify all fields, pass a nil mask.
+// If this would make the mode normal, and the device already has another normal mode, then ErrNormalModeExists will result.
 func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -319,6 +321,14 @@ func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 }
 
 func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
+	// if this update makes the mode normal, check that there isn't another normal mode
+	if mode.Normal && updatesNormal(resource.ComputeWriteConfig(opts...).UpdateMask) {
+		normal, ok := m.normalMode()
+		if ok && normal.Id != mode.Id {
+			return nil, ErrNormalModeExists
+		}
+	}
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
@@ -326,6 +336,19 @@ func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 	return msg.(*traits.ElectricMode), nil
 }
 
+// updatesNormal returns whether an update using mask writes the normal field.
+func updatesNormal(mask *fieldmaskpb.FieldMask) bool {
+	if mask == nil {
+		return true
+	}
+	for _, path := range mask.Paths {
+		if path == "normal" {
+			return true
+		}
+	}
+	return false
+}
+
 // PullModes subscribes to changes to modes. Creation, modification or deletion of a mode on this device will send
 // a PullModesChange describing the event down the changes channel.
 // The returned channel will be closed when done is called. You must call done after you are finished with the channel
-- 
2.43.0


From 027192e0b81911ef93c550e93549083fb5dd0c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 40/82] fix: deleting an absent electric mode

Honour allow missing, and report not found even if the absent mode is the initial active mode.
---
 pkg/trait/electricpb/model.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 9a6b24f..2af422a 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -284,7 +284,7 @@ func (m *Model) createOrAddMode(mode *traits.ElectricMode) (*traits.ElectricMode
 }
 
 // DeleteMode will remove the mode with the given Id from the device.
-// If the mode does not exist, then ErrModeNotFound is returned.
+// If the mode does not exist, then ErrModeNotFound is returned unless resource.WithAllowMissing is used.
 // If the mode specified is the active mode, then ErrDeleteActiveMode is returned and the mode is not deleted.
 // Otherwise, the operation succeeded and nil is returned.
 func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
@@ -295,19 +295,15 @@ func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
 
 func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 	active := m.activeMode.Get().(*traits.ElectricMode)
-	if id == active.Id {
+	if _, ok := m.findMode(id); ok && id == active.Id {
 		return ErrDeleteActiveMode
 	}
 
-	msg, err := m.modes.Delete(id, opts...)
-	if err != nil {
-		return err
-	}
-	if msg == nil {
+	_, err := m.modes.Delete(id, opts...)
+	if status.Code(err) == codes.NotFound {
 		return ErrModeNotFound
 	}
-
-	return nil
+	return err
 }
 
 // UpdateMode will modify one of the modes stored in this device.
-- 
2.43.0


From 2c32705c61fee1e1088f284250e3775f9e9cb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 41/82] fix: an electric mode created by a masked update had no
 id

Making it active left an active mode that does not exist, and it could be deleted while active.
---
 pkg/trait/electricpb/model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 2af422a..77a3ead 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -325,6 +325,11 @@ func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 		}
 	}
 
+	if _, ok := m.findMode(mode.Id); !ok {
+		// should this create the mode then it needs its id, whatever the update mask
+		opts = append(opts[:len(opts):len(opts)], resource.WithMoreUpdatePaths("id"))
+	}
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fee71982e814b7d811c20608ced880e94545f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 42/82] fix: check in the motion sensor info files as generated

Their names were not the generators', which added a second copy next to each.
---
 .../{info_router.pb.go => sensorinfo_router.pb.go}   | 12 +++++-------
 .../{info_wrap.pb.go => sensorinfo_wrap.pb.go}       |  7 +++----
 2 files changed, 8 insertions(+), 11 deletions(-)
 rename pkg/trait/motionsensorpb/{info_router.pb.go => sensorinfo_router.pb.go} (93%)
 rename pkg/trait/motionsensorpb/{info_wrap.pb.go => sensorinfo_wrap.pb.go} (90%)

diff --git a/pkg/trait/motionsensorpb/info_router.pb.go b/pkg/trait/motionsensorpb/sensorinfo_router.pb.go
similarity index 93%
rename from pkg/trait/motionsensorpb/info_router.pb.go
rename to pkg/trait/motionsensorpb/sensorinfo_router.pb.go
index 6915f8f..cf56851 100644
--- a/pkg/trait/motionsensorpb/info_router.pb.go
+++ b/pkg/trait/motionsensorpb/sensorinfo_router.pb.go
@@ -3,13 +3,11 @@
 package motionsensorpb
 
 import (
-	"context"
-	"fmt"
-
-	"google.golang.org/grpc"
-
-	"github.com/smart-core-os/sc-api/go/traits"
-	"github.com/smart-core-os/sc-golang/pkg/router"
+	context "context"
+	fmt "fmt"
+	traits "github.com/smart-core-os/sc-api/go/traits"
+	router "github.com/smart-core-os/sc-golang/pkg/router"
+	grpc "google.golang.org/grpc"
 )
 
 // SensorInfoRouter is a traits.MotionSensorSensorInfoServer that allows routing named requests to specific traits.MotionSensorSensorInfoClient
diff --git a/pkg/trait/motionsensorpb/info_wrap.pb.go b/pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
similarity index 90%
rename from pkg/trait/motionsensorpb/info_wrap.pb.go
rename to pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
index 0a7b258..ab46e2e 100644
--- a/pkg/trait/motionsensorpb/info_wrap.pb.go
+++ b/pkg/trait/motionsensorpb/sensorinfo_wrap.pb.go
@@ -3,10 +3,9 @@
 package motionsensorpb
 
 import (
-	"google.golang.org/grpc"
-
-	"github.com/smart-core-os/sc-api/go/traits"
-	"github.com/smart-core-os/sc-golang/pkg/wrap"
+	traits "github.com/smart-core-os/sc-api/go/traits"
+	wrap "github.com/smart-core-os/sc-golang/pkg/wrap"
+	grpc "google.golang.org/grpc"
 )
 
 // WrapSensorInfo	adapts a traits.MotionSensorSensorInfoServer	and presents it as a traits.MotionSensorSensorInfoClient
-- 
2.43.0


From ca18face56c8f5c72316f65a7f2056e21d288c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 43/82] fix: route GetEnterLeaveEvent and ResetEnterLeaveTotals

The enter leave router was generated before these were added to the API.
---
 pkg/trait/enterleavesensorpb/api_router.pb.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/trait/enterleavesensorpb/api_router.pb.go b/pkg/trait/enterleavesensorpb/api_router.pb.go
index 3745447..aae1c5b 100644
--- a/pkg/trait/enterleavesensorpb/api_router.pb.go
+++ b/pkg/trait/enterleavesensorpb/api_router.pb.go
@@ -137,3 +137,21 @@ func (r *ApiRouter) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsReq
 		return err
 	}
 }
+
+func (r *ApiRouter) GetEnterLeaveEvent(ctx context.Context, request *traits.GetEnterLeaveEventRequest) (*traits.EnterLeaveEvent, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.GetEnterLeaveEvent(ctx, request)
+}
+
+func (r *ApiRouter) ResetEnterLeaveTotals(ctx context.Context, request *traits.ResetEnterLeaveTotalsRequest) (*traits.ResetEnterLeaveTotalsResponse, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.ResetEnterLeaveTotals(ctx, request)
+}
-- 
2.43.0


From 1ae5e044ac9c80ef6947f67a0126a7fc900d5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 44/82] fix: dispensing a quantity that can not be converted
 reports the error

---
 pkg/trait/vendingpb/model.go | 37 +++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 19267be..e81056f 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -218,25 +218,28 @@ func (m *Model) PullInventory(ctx context.Context, opts ...resource.ReadOption)
 // This updates the stock LastDispensed, Used, and Remaining. Used and Remaining are only updated if they have a
 // (possibly zero) value in the stock already.
 // Stock Used and Remaining units are maintained, the quantity is converted to those units before modification.
+// If the quantity can't be converted, an error is returned and the stock is not changed.
 func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable_Quantity) (*traits.Consumable_Stock, error) {
-	var maskedErr error // for tracking errors in interceptors
-	stock, err := m.UpdateStock(&traits.Consumable_Stock{Consumable: consumable}, resource.InterceptBefore(func(old, new proto.Message) {
-		oldVal := old.(*traits.Consumable_Stock)
-		newVal := new.(*traits.Consumable_Stock)
-		if err := updateStock(quantity, oldVal, newVal); err != nil {
-			// on error we don't want to make any changes to the stock value, reset things
-			maskedErr = err
-			proto.Reset(newVal)
-			proto.Merge(newVal, oldVal)
-			return
-		}
-		newVal.LastDispensed = quantity
-		newVal.Dispensing = false
-	}))
-	if err != nil {
-		return nil, err
+	if quantity == nil {
+		return nil, status.Error(codes.InvalidArgument, "quantity not specified")
 	}
-	if maskedErr != nil {
+	dispensed := &traits.Consumable_Stock{} // only the used and remaining properties are set
+	stock, err := m.UpdateStock(&traits.Consumable_Stock{Consumable: consumable},
+		resource.WithExpectedCheck(func(old proto.Message) error {
+			if err := updateStock(quantity, old.(*traits.Consumable_Stock), dispensed); err != nil {
+				return status.Error(codes.InvalidArgument, err.Error())
+			}
+			return nil
+		}),
+		resource.InterceptBefore(func(_, new proto.Message) {
+			newVal := new.(*traits.Consumable_Stock)
+			newVal.Used = dispensed.Used
+			newVal.Remaining = dispensed.Remaining
+			newVal.LastDispensed = quantity
+			newVal.Dispensing = false
+		}),
+	)
+	if err != nil {
 		return nil, err
 	}
 	return stock, nil
-- 
2.43.0


From bcef8949e96f02dd9b70cf3025d6f29e171d824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 45/82] fix: remaining stock keeps its own unit when dispensing

---
 pkg/trait/vendingpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index e81056f..4f73893 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -262,7 +262,7 @@ func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumab
 		if amount < 0 {
 			amount = 0
 		}
-		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: amount}
+		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Remaining.Unit, Amount: amount}
 	}
 	return nil
 }
-- 
2.43.0


From 5c0e968879ac8f34aad1e640d48c3815005cb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 46/82] fix: StopDispense returns the stock of the consumable

---
 pkg/trait/vendingpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 84dd749..0e2426d 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -187,5 +187,5 @@ func (m *ModelServer) Dispense(_ context.Context, request *traits.DispenseReques
 
 func (m *ModelServer) StopDispense(ctx context.Context, request *traits.StopDispenseRequest) (*traits.Consumable_Stock, error) {
 	// always succeeds, we always dispense immediately
-	return m.GetStock(ctx, &traits.GetStockRequest{Consumable: request.Name})
+	return m.GetStock(ctx, &traits.GetStockRequest{Consumable: request.Consumable})
 }
-- 
2.43.0


From 06780d47a82e12815ed017b295e8c7766276afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 47/82] fix: fan speed preset, index and percentage agree after
 updates without a preset

---
 pkg/trait/fanspeedpb/model.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 84a4d1d..c10458b 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -58,7 +58,14 @@ func (m *Model) UpdateFanSpeed(fanSpeed *traits.FanSpeed, opts ...resource.Write
 		return nil, err
 	}
 
-	opts = append([]resource.WriteOption{resource.InterceptAfter(m.DeriveValues)}, opts...)
+	derive := m.DeriveValues
+	if resource.ComputeWriteConfig(opts...).UpdateMask == nil {
+		derive = func(old, new proto.Message) {
+			keepAbsent(old.(*traits.FanSpeed), new.(*traits.FanSpeed))
+			m.DeriveValues(old, new)
+		}
+	}
+	opts = append([]resource.WriteOption{resource.InterceptAfter(derive)}, opts...)
 	val, err := m.fanSpeed.Set(fanSpeed, opts...)
 	if val == nil {
 		return nil, err
@@ -82,13 +89,27 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 	return nil
 }
 
+// keepAbsent restores related properties that are absent from newVal, because they weren't set, while others are present.
+// Without an update mask we don't know whether absent properties were meant to be set.
+func keepAbsent(oldVal, newVal *traits.FanSpeed) {
+	if newVal.Preset == "" {
+		newVal.Preset = oldVal.Preset
+	}
+	switch {
+	case newVal.PresetIndex == 0 && newVal.Percentage != 0:
+		newVal.PresetIndex = oldVal.PresetIndex
+	case newVal.PresetIndex != 0 && newVal.Percentage == 0:
+		newVal.Percentage = oldVal.Percentage
+	}
+}
+
 // DeriveValues derives values that haven't been set from those that have.
 // For example setting percentage when the preset changes.
 // Updated values will be set on new.
 func (m *Model) DeriveValues(old, new proto.Message) {
 	oldVal := old.(*traits.FanSpeed)
 	newVal := new.(*traits.FanSpeed)
-	if oldVal.Preset != newVal.Preset {
+	if oldVal.Preset != newVal.Preset && newVal.Preset != "" {
 		// preset updated, keep the index and percentage in sync
 		for i, preset := range m.presets {
 			if preset.Name == newVal.Preset {
@@ -114,7 +135,7 @@ func (m *Model) DeriveValues(old, new proto.Message) {
 		return
 	}
 
-	if oldVal.Percentage != newVal.Percentage {
+	if oldVal.Percentage != newVal.Percentage || oldVal.Preset != newVal.Preset {
 		// try to find a preset that matches, and update the index and preset
 		newVal.PresetIndex = -1
 		newVal.Preset = ""
-- 
2.43.0


From 70ce95918e550df19cdd01f80fc45cb92c7ff4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:53 +0000
Subject: [PATCH 48/82] fix: setting the preset index of a fan without presets
 panicked

---
 pkg/trait/fanspeedpb/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index c10458b..de3e51b 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -121,7 +121,7 @@ func (m *Model) DeriveValues(old, new proto.Message) {
 		return
 	}
 
-	if oldVal.PresetIndex != newVal.PresetIndex {
+	if oldVal.PresetIndex != newVal.PresetIndex && len(m.presets) > 0 {
 		// cap the index if needed, and update the preset and percentage
 		if newVal.PresetIndex >= int32(len(m.presets)) {
 			newVal.PresetIndex = int32(len(m.presets) - 1)
@@ -135,7 +135,7 @@ func (m *Model) DeriveValues(old, new proto.Message) {
 		return
 	}
 
-	if oldVal.Percentage != newVal.Percentage || oldVal.Preset != newVal.Preset {
+	if oldVal.Percentage != newVal.Percentage || oldVal.PresetIndex != newVal.PresetIndex || oldVal.Preset != newVal.Preset {
 		// try to find a preset that matches, and update the index and preset
 		newVal.PresetIndex = -1
 		newVal.Preset = ""
-- 
2.43.0


From 4d21b88a8e02a4f07674ec43fc5efd5de918fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 49/82] fix: the initial fan speed agrees with the presets

---
 pkg/trait/fanspeedpb/model.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index de3e51b..0033797 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -36,10 +36,36 @@ type Model struct {
 // NewModel constructs a Model with default values using the first of DefaultPresets.
 func NewModel(opts ...resource.Option) *Model {
 	args := calcModelArgs(opts...)
-	return &Model{
+	m := &Model{
 		presets:  args.presets,
 		fanSpeed: resource.NewValue(args.fanSpeedOpts...),
 	}
+	m.deriveInitialValues()
+	return m
+}
+
+// deriveInitialValues makes sure the initial preset, index, and percentage agree with each other and the presets.
+func (m *Model) deriveInitialValues() {
+	initial, ok := m.fanSpeed.Get().(*traits.FanSpeed)
+	if !ok {
+		return // no initial value
+	}
+	derived := proto.Clone(initial).(*traits.FanSpeed)
+	from := &traits.FanSpeed{PresetIndex: -1, Percentage: initial.Percentage}
+	if m.validateUpdate(initial) != nil {
+		derived.Preset = "" // not one of our presets
+	}
+	if derived.PresetIndex <= 0 {
+		derived.PresetIndex = -1 // absent
+	}
+	if derived.Preset == "" && derived.PresetIndex == -1 {
+		from.Percentage = -1 // the percentage is all we have
+	}
+	m.DeriveValues(from, derived)
+	if proto.Equal(initial, derived) {
+		return
+	}
+	_, _ = m.fanSpeed.Set(derived, resource.WithAllFieldsWritable())
 }
 
 // FanSpeed gets the current fan speed.
-- 
2.43.0


From 8bfd9ca3ab4c0ea2ae906fa5f5090e4ae98ede5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:55 +0000
Subject: [PATCH 50/82] fix: updating the fan speed respects the update mask

---
 pkg/trait/fanspeedpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index cf213ce..546ff39 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -34,7 +34,7 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.InterceptBefore(func(old, new proto.Message) {
+	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
-- 
2.43.0


From da659636bc3b750d5e0080eeca5f6ae29be55065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 51/82] fix: relative fan speed updates without a mask reset
 other properties, large steps wrapped around

---
 pkg/trait/fanspeedpb/model_server.go | 29 ++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 546ff39..24b06ca 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -2,9 +2,11 @@ package fanspeedpb
 
 import (
 	"context"
+	"math"
 
 	"google.golang.org/grpc"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -34,17 +36,40 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
+	mask := request.UpdateMask
+	if mask == nil && request.Relative {
+		mask = relativeMask(request.FanSpeed)
+	}
+	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(mask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
 			newVal.Percentage += oldVal.Percentage
-			newVal.PresetIndex += oldVal.PresetIndex
+			newVal.PresetIndex = addIndex(oldVal.PresetIndex, newVal.PresetIndex)
 			// todo: should we support setting the preset relatively if we're between presets?
 		}
 	}))
 }
 
+// relativeMask returns the properties updated by a relative change.
+// Properties that aren't relative are only updated when they are present.
+func relativeMask(change *traits.FanSpeed) *fieldmaskpb.FieldMask {
+	mask := &fieldmaskpb.FieldMask{Paths: []string{"percentage", "preset_index"}}
+	if change.GetPreset() != "" {
+		mask.Paths = append(mask.Paths, "preset")
+	}
+	if change.GetDirection() != traits.FanSpeed_DIRECTION_UNSPECIFIED {
+		mask.Paths = append(mask.Paths, "direction")
+	}
+	return mask
+}
+
+// addIndex adds delta to index, capping at the limits of int32.
+func addIndex(index, delta int32) int32 {
+	sum := int64(index) + int64(delta)
+	return int32(max(math.MinInt32, min(math.MaxInt32, sum)))
+}
+
 func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server traits.FanSpeedApi_PullFanSpeedServer) error {
 	for change := range s.model.PullFanSpeed(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		err := server.Send(&traits.PullFanSpeedResponse{Changes: []*traits.PullFanSpeedResponse_Change{
-- 
2.43.0


From c7d0ded3672dcdee56688dd467620997a43b6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 52/82] fix: reversing the fan speed direction panicked

---
 pkg/trait/fanspeedpb/model_server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index 24b06ca..c4d4a0b 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -83,6 +83,13 @@ func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server t
 }
 
 func (s *ModelServer) ReverseFanSpeedDirection(ctx context.Context, request *traits.ReverseFanSpeedDirectionRequest) (*traits.FanSpeed, error) {
-	// TODO implement me
-	panic("implement me")
+	return s.model.UpdateFanSpeed(&traits.FanSpeed{}, resource.WithUpdatePaths("direction"), resource.InterceptBefore(func(old, new proto.Message) {
+		newVal := new.(*traits.FanSpeed)
+		switch old.(*traits.FanSpeed).Direction {
+		case traits.FanSpeed_BACKWARD:
+			newVal.Direction = traits.FanSpeed_FORWARD
+		default:
+			newVal.Direction = traits.FanSpeed_BACKWARD
+		}
+	}))
 }
-- 
2.43.0


From 7e0231f720c27924bc3c47f08f8e832497558f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 53/82] fix: NewModelModes uses the given modes

---
 pkg/trait/modepb/model.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 4c29e3b..1daef63 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -48,7 +50,7 @@ func NewModelModes(modes *traits.Modes) *Model {
 	}
 
 	model := &Model{
-		modes: DefaultModes,
+		modes: proto.Clone(modes).(*traits.Modes),
 		modeValues: resource.NewValue(
 			resource.WithInitialValue(modeValues),
 		),
-- 
2.43.0


From 5e2a67375dc36a4933e1687ec8ebc155e7f25de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 54/82] fix: creating a mode model with a mode without values
 panicked

---
 pkg/trait/modepb/model.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 1daef63..3efea79 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -45,7 +45,10 @@ func NewModelModes(modes *traits.Modes) *Model {
 	modeValues := &traits.ModeValues{
 		Values: make(map[string]string),
 	}
-	for _, mode := range modes.Modes {
+	for _, mode := range modes.GetModes() {
+		if len(mode.Values) == 0 {
+			continue // there's nothing to select
+		}
 		modeValues.Values[mode.Name] = mode.Values[0].Name
 	}
 
-- 
2.43.0


From 81813667df8b4bb8320c7f2df6f85afd35461c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 55/82] fix: relative mode updates without a mask cleared the
 other modes

---
 pkg/trait/modepb/model_server.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 4775640..0ebc2bb 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -38,15 +38,26 @@ func (m *ModelServer) UpdateModeValues(_ context.Context, request *traits.Update
 	opts := []resource.WriteOption{
 		resource.WithUpdateMask(request.UpdateMask),
 	}
-	if len(request.GetRelative().GetValues()) > 0 {
-		opts = append(opts, resource.InterceptBefore(m.relativeAdjustment(request.Relative.Values)))
-	}
-
 	values := request.ModeValues
 	if values == nil {
 		// in case all updates are relative, we can't set nothing
 		values = &traits.ModeValues{}
 	}
+	if len(request.GetRelative().GetValues()) > 0 {
+		relativeAdjustment := m.relativeAdjustment(request.Relative.Values)
+		opts = append(opts, resource.InterceptBefore(func(old, new proto.Message) {
+			relativeAdjustment(old, new)
+			if request.UpdateMask == nil {
+				// modes that aren't mentioned by the update keep their value
+				newVal := new.(*traits.ModeValues)
+				for name, value := range old.(*traits.ModeValues).Values {
+					if _, ok := newVal.Values[name]; !ok {
+						newVal.Values[name] = value
+					}
+				}
+			}
+		}))
+	}
 	return m.model.UpdateModeValues(values, opts...)
 }
 
-- 
2.43.0


From 0af0f750be4de268b9fdca8e42fe3f66095e7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:45 +0000
Subject: [PATCH 56/82] fix: large relative mode adjustments overflowed

---
 pkg/trait/modepb/model_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 0ebc2bb..dd2def7 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -88,9 +88,9 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			// find the value index in our supported values, and adjust the value to the new index based on adjustment
 			for i, value := range values {
 				if value.Name == oldValue {
-					newI := (int32(i) + adjustment) % int32(len(values))
+					newI := (int64(i) + int64(adjustment)) % int64(len(values))
 					if newI < 0 {
-						newI = int32(len(values)) + newI
+						newI = int64(len(values)) + newI
 					}
 					newVal.Values[modeName] = values[newI].Name
 					continue adjustments
-- 
2.43.0


From 2a981580afcdbc970243fc3a1548a6b6aca2f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 57/82] fix: a relative mode adjustment of zero won over the
 given mode value

---
 pkg/trait/modepb/model_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index dd2def7..ace19f9 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -78,6 +78,9 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			if len(values) == 0 {
 				continue
 			}
+			if _, absolute := newVal.Values[modeName]; absolute && adjustment == 0 {
+				continue // relative adjustments only win if they adjust something
+			}
 
 			// if there's no current value, just choose the first one
 			if !ok {
-- 
2.43.0


From f8a0e2ccef9abca64eec2f4ebd9502c529f02299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 58/82] fix: creating a meter model discarded the configured
 initial reading

---
 pkg/trait/meterpb/model.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 220e3a3..82ba2b1 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -22,14 +22,21 @@ func NewModel(opts ...resource.Option) *Model {
 	_, _ = value.Set(&traits.MeterReading{}, resource.InterceptBefore(func(old, new proto.Message) {
 		oldVal := old.(*traits.MeterReading)
 		newVal := new.(*traits.MeterReading)
+		proto.Merge(newVal, oldVal)
 		now := value.Clock().Now()
-		if oldVal.StartTime == nil {
+		if newVal.StartTime == nil {
 			newVal.StartTime = timestamppb.New(now)
+			if end := newVal.EndTime; end != nil && end.AsTime().Before(now) {
+				newVal.StartTime = timestamppb.New(end.AsTime())
+			}
 		}
 		if newVal.EndTime == nil {
 			newVal.EndTime = timestamppb.New(now)
+			if start := newVal.StartTime; start.AsTime().After(now) {
+				newVal.EndTime = timestamppb.New(start.AsTime())
+			}
 		}
-	}))
+	}), resource.WithAllFieldsWritable())
 	return &Model{
 		meterReading: value,
 	}
-- 
2.43.0


From 685e1967e909130e68edb137c6cf8fff6eee5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 59/82] fix: recording a meter reading cleared its start time

---
 pkg/trait/meterpb/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 82ba2b1..840e18c 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -59,6 +59,7 @@ func (m *Model) RecordReading(val float32) (*traits.MeterReading, error) {
 	return m.UpdateMeterReading(&traits.MeterReading{Usage: val}, resource.InterceptBefore(func(old, new proto.Message) {
 		now := m.meterReading.Clock().Now()
 		newVal := new.(*traits.MeterReading)
+		newVal.StartTime = old.(*traits.MeterReading).StartTime
 		newVal.EndTime = timestamppb.New(now)
 	}))
 }
-- 
2.43.0


From 3c9055352cbc57b0e07eb529c097375bc18d413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 60/82] fix: creating an enter leave event set the totals of
 the given event

---
 pkg/trait/enterleavesensorpb/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 6ea2ae2..8363061 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -51,6 +51,7 @@ func (m *Model) CreateEnterLeaveEvent(event *traits.EnterLeaveEvent, opts ...res
 		valueVal.LeaveTotal = adjustTotal(valueVal.LeaveTotal, currentVal.LeaveTotal, valueVal.Direction == traits.EnterLeaveEvent_LEAVE)
 	})
 	opts = append([]resource.WriteOption{updateTotalsOption}, opts...)
+	event = proto.Clone(event).(*traits.EnterLeaveEvent) // the totals of the callers event shouldn't change
 	_, err := m.enterLeaveEvents.Set(event, opts...)
 	return err
 }
-- 
2.43.0


From 4db2690a9ef59cf4fdfbf0d3d89a5fd48afec641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 61/82] fix: publications with different content could have the
 same version

---
 pkg/trait/publicationpb/model.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index db0d033..c908eb6 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -3,6 +3,7 @@ package publicationpb
 import (
 	"context"
 	"crypto/md5"
+	"encoding/binary"
 	"fmt"
 	"io"
 	"time"
@@ -149,10 +150,11 @@ func mintVersion(p *traits.Publication) string {
 	// Hash properties we are happy to include in our version calculation.
 	// Note: don't use proto.Marshal as it is non-deterministic
 	hash := md5.New()
-	io.WriteString(hash, "v1")
-	io.WriteString(hash, p.Id)
-	hash.Write(p.Body)
-	io.WriteString(hash, p.MediaType)
-	io.WriteString(hash, p.GetAudience().GetName())
+	io.WriteString(hash, "v2")
+	for _, part := range [][]byte{[]byte(p.Id), p.Body, []byte(p.MediaType), []byte(p.GetAudience().GetName())} {
+		// include the length so moving bytes from one property to the next results in a different hash
+		_ = binary.Write(hash, binary.BigEndian, uint64(len(part)))
+		hash.Write(part)
+	}
 	return fmt.Sprintf("%x", hash.Sum(nil))
 }
-- 
2.43.0


From 2febd8a6093d4a696baeac349d45e1ed9eff46bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 62/82] fix: AllowAcknowledged had no effect

---
 pkg/trait/publicationpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index fc75de4..6d0ce34 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -198,7 +198,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		}),
 	)
 
-	if err == alreadyAcknowledged && request.AllowAcknowledged {
+	if acknowledgedPub != nil && request.AllowAcknowledged {
 		return acknowledgedPub, nil
 	}
 
-- 
2.43.0


From 7d801817193d18e0841910b55b4f060e2a206bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 63/82] fix: acknowledging a publication without a receipt did
 not accept it, or panicked

---
 pkg/trait/publicationpb/model_server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 6d0ce34..5a66ba3 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -165,8 +165,16 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 	if request.Version == "" {
 		return nil, status.Error(codes.InvalidArgument, "version is required")
 	}
+	receipt := request.Receipt
+	switch receipt {
+	case traits.Publication_Audience_RECEIPT_UNSPECIFIED:
+		receipt = traits.Publication_Audience_ACCEPTED
+	case traits.Publication_Audience_ACCEPTED, traits.Publication_Audience_REJECTED:
+	default:
+		return nil, status.Errorf(codes.InvalidArgument, "receipt %v isn't ACCEPTED or REJECTED", receipt)
+	}
 	received := &traits.Publication{Audience: &traits.Publication_Audience{
-		Receipt:               request.Receipt,
+		Receipt:               receipt,
 		ReceiptRejectedReason: request.ReceiptRejectedReason,
 	}}
 
-- 
2.43.0


From 9c67b6847a0aac6099e1aa068f91135bbc1a8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:43 +0000
Subject: [PATCH 64/82] fix: adding or removing child traits panicked when the
 child was changed at the same time

---
 pkg/trait/parentpb/model.go | 43 +++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index b86009d..7281221 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -65,16 +65,22 @@ func (m *Model) RemoveChildByName(name string, opts ...resource.WriteOption) (*t
 // If no child with the given name is already know, one will be created.
 // If a child is already known with the given name, its traits will be unioned with the given trait names.
 func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *traits.Child, created bool) {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.WithCreateIfAbsent(),
-		resource.WithCreatedCallback(func() {
-			created = true
-		}),
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitUnion(oldChild.Traits, traitName...)
-		}))
+	var msg proto.Message
+	var err error
+	// try again if the child is changed by somebody else at the same time
+	for retry := true; retry; retry = status.Code(err) == codes.Aborted {
+		created = false
+		msg, err = m.children.Update(name, &traits.Child{Name: name},
+			resource.WithCreateIfAbsent(),
+			resource.WithCreatedCallback(func() {
+				created = true
+			}),
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitUnion(oldChild.Traits, traitName...)
+			}))
+	}
 	if err != nil {
 		panic(err) // shouldn't happen
 	}
@@ -84,12 +90,17 @@ func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *trai
 // RemoveChildTrait ensures that the named child no longer mentions they support the given trait names.
 // If no child exists with the given name then nil will be returned.
 func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.Child {
-	msg, err := m.children.Update(name, &traits.Child{Name: name},
-		resource.InterceptBefore(func(old, value proto.Message) {
-			oldChild := old.(*traits.Child)
-			newChild := value.(*traits.Child)
-			newChild.Traits = traitRemove(oldChild.Traits, traitName...)
-		}))
+	var msg proto.Message
+	var err error
+	// try again if the child is changed by somebody else at the same time
+	for retry := true; retry; retry = status.Code(err) == codes.Aborted {
+		msg, err = m.children.Update(name, &traits.Child{Name: name},
+			resource.InterceptBefore(func(old, value proto.Message) {
+				oldChild := old.(*traits.Child)
+				newChild := value.(*traits.Child)
+				newChild.Traits = traitRemove(oldChild.Traits, traitName...)
+			}))
+	}
 	if err != nil {
 		switch status.Code(err) {
 		case codes.NotFound:
-- 
2.43.0


From 526aeb50c8735e37b2a0a332f1267f3f77e7525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 65/82] fix: children added with duplicate or, initially,
 unsorted traits broke the trait list

---
 pkg/trait/parentpb/model.go      | 13 ++++++++++++-
 pkg/trait/parentpb/model_opts.go |  6 +++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 7281221..e110d2e 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -3,6 +3,7 @@ package parentpb
 import (
 	"context"
 	"fmt"
+	"slices"
 	"sort"
 
 	"google.golang.org/grpc/codes"
@@ -35,7 +36,17 @@ func (m *Model) AddChild(child *traits.Child) {
 	if err := validateChild(child); err != nil {
 		panic(err)
 	}
-	_, _ = m.children.Add(child.Name, child)
+	_, _ = m.children.Add(child.Name, uniqueTraits(child))
+}
+
+// uniqueTraits returns a copy of child without duplicate traits.
+// The traits should be sorted in ascending order by Trait.Name.
+func uniqueTraits(child *traits.Child) *traits.Child {
+	child = proto.Clone(child).(*traits.Child)
+	child.Traits = slices.CompactFunc(child.Traits, func(a, b *traits.Trait) bool {
+		return a.Name == b.Name
+	})
+	return child
 }
 
 func validateChild(child *traits.Child) error {
diff --git a/pkg/trait/parentpb/model_opts.go b/pkg/trait/parentpb/model_opts.go
index 141b56b..ca2e3c3 100644
--- a/pkg/trait/parentpb/model_opts.go
+++ b/pkg/trait/parentpb/model_opts.go
@@ -33,10 +33,10 @@ func WithChildrenOption(opts ...resource.Option) resource.Option {
 func WithInitialChildren(children ...*traits.Child) resource.Option {
 	opts := make([]resource.Option, len(children))
 	for i, child := range children {
-		if child.Name == "" {
-			panic(fmt.Sprintf("child at index %d has no name", i))
+		if err := validateChild(child); err != nil {
+			panic(fmt.Sprintf("child at index %d: %v", i, err))
 		}
-		opts[i] = resource.WithInitialRecord(child.Name, child)
+		opts[i] = resource.WithInitialRecord(child.Name, uniqueTraits(child))
 	}
 	return WithChildrenOption(opts...)
 }
-- 
2.43.0


From 89844001ece7ad622db077054722231bfde0849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 66/82] fix: relative adjustments of unknown modes cleared all
 modes

---
 pkg/trait/modepb/model_server.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index ace19f9..48dbbad 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -47,13 +47,11 @@ func (m *ModelServer) UpdateModeValues(_ context.Context, request *traits.Update
 		relativeAdjustment := m.relativeAdjustment(request.Relative.Values)
 		opts = append(opts, resource.InterceptBefore(func(old, new proto.Message) {
 			relativeAdjustment(old, new)
-			if request.UpdateMask == nil {
-				// modes that aren't mentioned by the update keep their value
-				newVal := new.(*traits.ModeValues)
-				for name, value := range old.(*traits.ModeValues).Values {
-					if _, ok := newVal.Values[name]; !ok {
-						newVal.Values[name] = value
-					}
+			// modes that aren't mentioned by the update keep their value
+			newVal := new.(*traits.ModeValues)
+			for name, value := range old.(*traits.ModeValues).Values {
+				if _, ok := newVal.Values[name]; !ok {
+					newVal.Values[name] = value
 				}
 			}
 		}))
-- 
2.43.0


From 88e87ddec27457c03ef763849536ab56bbb17d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 67/82] fix: setting the current preset of a fan again cleared
 it

---
 pkg/trait/fanspeedpb/model.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 0033797..92ba8ea 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -118,13 +118,14 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 // keepAbsent restores related properties that are absent from newVal, because they weren't set, while others are present.
 // Without an update mask we don't know whether absent properties were meant to be set.
 func keepAbsent(oldVal, newVal *traits.FanSpeed) {
+	present := newVal.Preset != "" || newVal.PresetIndex != 0 || newVal.Percentage != 0
 	if newVal.Preset == "" {
 		newVal.Preset = oldVal.Preset
 	}
-	switch {
-	case newVal.PresetIndex == 0 && newVal.Percentage != 0:
+	if present && newVal.PresetIndex == 0 {
 		newVal.PresetIndex = oldVal.PresetIndex
-	case newVal.PresetIndex != 0 && newVal.Percentage == 0:
+	}
+	if present && newVal.Percentage == 0 {
 		newVal.Percentage = oldVal.Percentage
 	}
 }
-- 
2.43.0


From 5e02542fe01de55026db252d4da5d24bd791f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:29 +0000
Subject: [PATCH 68/82] fix: resetting a meter on a whole second kept the nanos
 of the old times

---
 pkg/trait/meterpb/model.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 840e18c..94feeda 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -69,7 +69,13 @@ func (m *Model) Reset() (*traits.MeterReading, error) {
 	now := timestamppb.New(m.meterReading.Clock().Now())
 	return m.UpdateMeterReading(&traits.MeterReading{Usage: 0, StartTime: now, EndTime: now},
 		// force usage (which is zero) to be updated
-		resource.WithUpdatePaths("usage", "start_time", "end_time"))
+		resource.WithUpdatePaths("usage", "start_time", "end_time"),
+		// replace the old times, the update merges now into them keeping old nanos when now is a whole second
+		resource.InterceptAfter(func(old, new proto.Message) {
+			newVal := new.(*traits.MeterReading)
+			newVal.StartTime = proto.Clone(now).(*timestamppb.Timestamp)
+			newVal.EndTime = proto.Clone(now).(*timestamppb.Timestamp)
+		}))
 }
 
 func (m *Model) PullMeterReadings(ctx context.Context, opts ...resource.ReadOption) <-chan PullMeterReadingChange {
-- 
2.43.0


From 24714ed6f02dd3a09d62715f46afa59dd73f6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 69/82] fix: memory devices panicked when they rejected an
 update

---
 pkg/trait/airtemperaturepb/memory.go |  5 ++++-
 pkg/trait/countpb/memory.go          | 10 ++++++++--
 pkg/trait/emergencypb/memory.go      |  5 ++++-
 pkg/trait/lightpb/memory.go          |  5 ++++-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/airtemperaturepb/memory.go b/pkg/trait/airtemperaturepb/memory.go
index 86a79ca..164f19c 100644
--- a/pkg/trait/airtemperaturepb/memory.go
+++ b/pkg/trait/airtemperaturepb/memory.go
@@ -50,7 +50,10 @@ func (t *MemoryDevice) GetAirTemperature(_ context.Context, req *traits.GetAirTe
 
 func (t *MemoryDevice) UpdateAirTemperature(_ context.Context, request *traits.UpdateAirTemperatureRequest) (*traits.AirTemperature, error) {
 	update, err := t.airTemperature.Set(request.State, resource.WithUpdateMask(request.UpdateMask))
-	return update.(*traits.AirTemperature), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.AirTemperature), nil
 }
 
 func (t *MemoryDevice) PullAirTemperature(request *traits.PullAirTemperatureRequest, server traits.AirTemperatureApi_PullAirTemperatureServer) error {
diff --git a/pkg/trait/countpb/memory.go b/pkg/trait/countpb/memory.go
index d5eba4d..7238953 100644
--- a/pkg/trait/countpb/memory.go
+++ b/pkg/trait/countpb/memory.go
@@ -44,7 +44,10 @@ func (t *MemoryDevice) ResetCount(_ context.Context, request *traits.ResetCountR
 		rt = timestamppb.Now()
 	}
 	res, err := t.count.Set(&traits.Count{Added: 0, Removed: 0, ResetTime: rt}, resource.WithAllFieldsWritable())
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCountRequest) (*traits.Count, error) {
@@ -56,7 +59,10 @@ func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCoun
 			tValue.Removed += tOld.Removed
 		}
 	}))
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) PullCounts(request *traits.PullCountsRequest, server traits.CountApi_PullCountsServer) error {
diff --git a/pkg/trait/emergencypb/memory.go b/pkg/trait/emergencypb/memory.go
index 44371df..b35242e 100644
--- a/pkg/trait/emergencypb/memory.go
+++ b/pkg/trait/emergencypb/memory.go
@@ -47,7 +47,10 @@ func (t *MemoryDevice) UpdateEmergency(_ context.Context, request *traits.Update
 			newt.LevelChangeTime = serverTimestamp()
 		}
 	}))
-	return update.(*traits.Emergency), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.Emergency), nil
 }
 
 func (t *MemoryDevice) PullEmergency(request *traits.PullEmergencyRequest, server traits.EmergencyApi_PullEmergencyServer) error {
diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 6a9f89e..01d344f 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -48,7 +48,10 @@ func (s *MemoryDevice) GetBrightness(_ context.Context, req *traits.GetBrightnes
 func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.UpdateBrightnessRequest) (*traits.Brightness, error) {
 	if request.GetBrightness().GetPreset() != nil {
 		res, err := s.brightness.Set(request.GetBrightness())
-		return res.(*traits.Brightness), err
+		if err != nil {
+			return nil, err
+		}
+		return res.(*traits.Brightness), nil
 	}
 
 	if err := resource.ValidateTweenOnUpdate("brightness", request.GetBrightness().GetBrightnessTween()); err != nil {
-- 
2.43.0


From 37df594be7f6f6f048665ae46dcd3f6853734e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 70/82] fix: the press server did not implement the methods of
 PressApi

---
 pkg/trait/presspb/model_server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/presspb/model_server.go b/pkg/trait/presspb/model_server.go
index 3f8a104..fde8762 100644
--- a/pkg/trait/presspb/model_server.go
+++ b/pkg/trait/presspb/model_server.go
@@ -18,15 +18,15 @@ func NewModelServer(model *Model) *ModelServer {
 	return &ModelServer{model: model}
 }
 
-func (s *ModelServer) GetButtonState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) GetPressedState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
 	return s.model.GetPressedState(resource.WithReadMask(request.ReadMask)), nil
 }
 
-func (s *ModelServer) UpdateButtonState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) UpdatePressedState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
 	return s.model.UpdatePressedState(request.PressedState, resource.WithUpdateMask(request.UpdateMask))
 }
 
-func (s *ModelServer) PullButtonState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
+func (s *ModelServer) PullPressedState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
 	changes := s.model.PullPressedState(server.Context(),
 		resource.WithReadMask(request.ReadMask),
 		resource.WithUpdatesOnly(request.UpdatesOnly),
-- 
2.43.0


From 1a89a6b65c01450680bbd58f1a2cdff71a457666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 71/82] fix: open close read masks were applied to each
 position instead of to all of them

---
 pkg/trait/openclosepb/model.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 28adb41..6ef00ee 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -39,7 +39,10 @@ type preset struct {
 }
 
 func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePositions, error) {
-	allPositions := m.positions.List(opts...) // already sorted by ID aka Direction ordinal
+	// the read mask applies to the OpenClosePositions, not to each OpenClosePosition
+	readRequest := resource.ComputeReadConfig(opts...)
+	listOpts := append(opts[:len(opts):len(opts)], resource.WithReadMask(nil))
+	allPositions := m.positions.List(listOpts...) // already sorted by ID aka Direction ordinal
 	dst := &traits.OpenClosePositions{
 		States: make([]*traits.OpenClosePosition, len(allPositions)),
 	}
@@ -52,7 +55,7 @@ func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePosi
 		dst.Preset = preset
 	}
 
-	return dst, nil
+	return readRequest.ResponseFilter().FilterClone(dst).(*traits.OpenClosePositions), nil
 }
 
 func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...resource.ReadOption) (*traits.OpenClosePosition, error) {
-- 
2.43.0


From ef646460f0196a2acf9d6b6540a93a79a8d7a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:34 +0000
Subject: [PATCH 72/82] fix: open close subscribers of a model without
 positions received neither a first value nor changes

---
 pkg/trait/openclosepb/model.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 6ef00ee..2dd8f60 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -118,15 +118,29 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 		seenAll := false
 		var last *traits.OpenClosePositions
 
-		for change := range m.positions.Pull(ctx) {
+		changes := m.positions.Pull(ctx)
+		if !readRequest.UpdatesOnly && len(m.positions.List()) == 0 {
+			// there are no seed values to wait for
+			last = responseFilter.FilterClone(&traits.OpenClosePositions{}).(*traits.OpenClosePositions)
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOpenClosePositionsChange{
+				Positions:  last,
+				ChangeTime: m.positions.Clock().Now(),
+			}:
+			}
+		}
+
+		for change := range changes {
 			if change.NewValue == nil {
 				delete(all, change.Id)
 			} else {
 				all[change.Id] = change.NewValue.(*traits.OpenClosePosition)
 			}
 
-			shouldSend := seenAll || (change.LastSeedValue && !readRequest.UpdatesOnly)
-			if change.LastSeedValue {
+			shouldSend := seenAll || !change.SeedValue || (change.LastSeedValue && !readRequest.UpdatesOnly)
+			if change.LastSeedValue || !change.SeedValue {
 				seenAll = true
 			}
 			if !shouldSend {
-- 
2.43.0


From cf3c1c25eba395eaf4a907a7bb6af96d41fd3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 73/82] fix: the enter leave server ignored updates only

---
 pkg/trait/enterleavesensorpb/model_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/enterleavesensorpb/model_server.go b/pkg/trait/enterleavesensorpb/model_server.go
index 65efbdd..a85b7fe 100644
--- a/pkg/trait/enterleavesensorpb/model_server.go
+++ b/pkg/trait/enterleavesensorpb/model_server.go
@@ -37,7 +37,7 @@ func (m *ModelServer) ResetEnterLeaveTotals(ctx context.Context, request *traits
 }
 
 func (m *ModelServer) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsRequest, server traits.EnterLeaveSensorApi_PullEnterLeaveEventsServer) error {
-	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask)) {
+	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		err := server.Send(&traits.PullEnterLeaveEventsResponse{Changes: []*traits.PullEnterLeaveEventsResponse_Change{
 			{Name: request.Name, ChangeTime: timestamppb.New(change.ChangeTime), EnterLeaveEvent: change.Value},
 		}})
-- 
2.43.0


From 6632aee6145e2fde5d7a7d4c9398f1170b250c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 74/82] fix: the metadata collection server ignored the read
 mask

---
 pkg/trait/metadatapb/collection_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/metadatapb/collection_server.go b/pkg/trait/metadatapb/collection_server.go
index 2de90da..631f331 100644
--- a/pkg/trait/metadatapb/collection_server.go
+++ b/pkg/trait/metadatapb/collection_server.go
@@ -22,7 +22,7 @@ func (s *CollectionServer) Unwrap() any {
 }
 
 func (s *CollectionServer) GetMetadata(_ context.Context, request *traits.GetMetadataRequest) (*traits.Metadata, error) {
-	return s.model.GetMetadata(request.Name)
+	return s.model.GetMetadata(request.Name, resource.WithReadMask(request.ReadMask))
 }
 
 func (s *CollectionServer) PullMetadata(request *traits.PullMetadataRequest, server traits.MetadataApi_PullMetadataServer) error {
-- 
2.43.0


From 6f5fdeb4fe9d2fcf9ba652b26ac02975cb12ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:05 +0000
Subject: [PATCH 75/82] fix: open close subscribers received positions in a
 different order than Get when a position has no direction of its own

---
 pkg/trait/openclosepb/model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 2dd8f60..bcfb2ae 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -149,9 +149,13 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 
 			// transform into the correct output format
 			positions := &traits.OpenClosePositions{
-				States: maps.Values(all),
+				States: make([]*traits.OpenClosePosition, 0, len(all)),
+			}
+			ids := maps.Keys(all)
+			slices.Sort(ids) // the same order as GetPositions
+			for _, id := range ids {
+				positions.States = append(positions.States, all[id])
 			}
-			sortPositions(positions.States)
 
 			positions.Preset, _ = m.presetForValue(positions.States)
 
-- 
2.43.0


From b779c18a276b5f3b73df518d99652e0dec25df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 76/82] fix: the light memory device crashed when its
 brightness was updated during a tick of a tween

---
 pkg/trait/lightpb/memory.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 01d344f..0518232 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -6,6 +6,8 @@ import (
 
 	"github.com/tanema/gween"
 	"github.com/tanema/gween/ease"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -98,7 +100,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 						resource.WithResetPaths("target_level_percent", "brightness_tween"),
 						resource.WithExpectedValue(lastObj),
 					)
-					if err != nil && err != resource.ExpectedValuePreconditionFailed {
+					if err != nil && !changedByOther(err) {
 						panic(err) // programmer error
 					}
 					return
@@ -112,7 +114,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 					resource.WithExpectedValue(lastObj),
 				)
 				switch {
-				case err == resource.ExpectedValuePreconditionFailed:
+				case changedByOther(err):
 					// somebody else changed the value, tweening is done
 					return
 				case err != nil:
@@ -169,6 +171,12 @@ func (s *MemoryDevice) PullBrightness(request *traits.PullBrightnessRequest, ser
 	return server.Context().Err()
 }
 
+// changedByOther returns whether err, which was returned by Value.Set with an expected value, means that somebody else
+// changed the value before or while it was being set.
+func changedByOther(err error) bool {
+	return err == resource.ExpectedValuePreconditionFailed || status.Code(err) == codes.Aborted
+}
+
 func capLevelPercent(next *traits.Brightness) {
 	if next.LevelPercent < 0 {
 		next.LevelPercent = 0
-- 
2.43.0


From 62a664c770dde4eb42ad55b58b94dfda8f22c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 77/82] fix: resources given the same WithRNG option, by a
 model for example, raced to read from it

---
 pkg/resource/id.go  | 13 +++++++++++++
 pkg/resource/opt.go |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/pkg/resource/id.go b/pkg/resource/id.go
index cf0b2ff..6c2b24c 100644
--- a/pkg/resource/id.go
+++ b/pkg/resource/id.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"fmt"
 	"io"
+	"sync"
 
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
@@ -23,3 +24,15 @@ func GenerateUniqueId(rng io.Reader, exists func(candidate string) bool) (string
 	}
 	return "", status.Error(codes.Aborted, fmt.Sprintf("id generation attempts exhausted after %v attempts", tries))
 }
+
+// lockedReader is an io.Reader that is safe for concurrent use.
+type lockedReader struct {
+	mu sync.Mutex // protects r
+	r  io.Reader
+}
+
+func (l *lockedReader) Read(p []byte) (n int, err error) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+	return l.r.Read(p)
+}
diff --git a/pkg/resource/opt.go b/pkg/resource/opt.go
index 84c7ce5..31a2801 100644
--- a/pkg/resource/opt.go
+++ b/pkg/resource/opt.go
@@ -56,7 +56,9 @@ func WithNoDuplicates() Option {
 
 // WithRNG configures the source of randomness for the resource.
 // Defaults to rand.Rand with a time seed.
+// The option can be used with many resources, they take turns to read from rng.
 func WithRNG(rng io.Reader) Option {
+	rng = &lockedReader{r: rng}
 	return optionFunc(func(s *config) {
 		s.rng = rng
 	})
-- 
2.43.0


From 6ff4ea086fd6fa9bab944b8fe56324ecb154e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 78/82] fix: the collections of electric models, also of
 different ones, raced to read from their random source

---
 pkg/trait/electricpb/model_opts.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/electricpb/model_opts.go b/pkg/trait/electricpb/model_opts.go
index b102855..1eb3626 100644
--- a/pkg/trait/electricpb/model_opts.go
+++ b/pkg/trait/electricpb/model_opts.go
@@ -93,10 +93,11 @@ func WithClock(clock clock.Clock) resource.Option {
 // WithRNG returns an option that configures the model to use the given random number generator.
 // Overrides resource.WithRNG() if used before this option.
 func WithRNG(rng *rand.Rand) resource.Option {
+	rngOpt := resource.WithRNG(rng) // one option so that reads of rng are in turn
 	return modelOptionFunc(func(args *modelArgs) {
-		args.demandOpts = append(args.demandOpts, resource.WithRNG(rng))
-		args.activeModeOpts = append(args.activeModeOpts, resource.WithRNG(rng))
-		args.modeOpts = append(args.modeOpts, resource.WithRNG(rng))
+		args.demandOpts = append(args.demandOpts, rngOpt)
+		args.activeModeOpts = append(args.activeModeOpts, rngOpt)
+		args.modeOpts = append(args.modeOpts, rngOpt)
 		args.rng = rng
 	})
 }
-- 
2.43.0


From b690dac48acdf192a1f4fc5b354b515137824bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 79/82] fix: light models wrote to the slice of options given
 to UpdateBrightness, which raced if calls shared it

---
 pkg/trait/lightpb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 1540874..02bf97b 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -31,7 +31,7 @@ func (m *Model) UpdateBrightness(light *traits.Brightness, opts ...resource.Writ
 	if light.GetPreset() != nil {
 		light = proto.Clone(light).(*traits.Brightness) // the message is the callers, don't change it
 		if m.setLevelFromPreset(light) {
-			opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
+			opts = append(opts[:len(opts):len(opts)], resource.WithMoreUpdatePaths("level_percent"))
 		}
 	}
 	res, err := m.brightness.Set(light, opts...)
-- 
2.43.0


From 00b93b69d4b67fc588332ab97acd8f4aa738fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 80/82] fix: groups read the request of a call after the call
 had returned, which raced with its caller

---
 pkg/trait/lightpb/group.go | 18 +++++++++---------
 pkg/trait/onoffpb/group.go | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/trait/lightpb/group.go b/pkg/trait/lightpb/group.go
index 07ff191..e442ddf 100644
--- a/pkg/trait/lightpb/group.go
+++ b/pkg/trait/lightpb/group.go
@@ -35,10 +35,10 @@ func (s *Group) GetBrightness(ctx context.Context, request *traits.GetBrightness
 	actions := make([]group.Member, len(s.members))
 	for i, member := range s.members {
 		i := i
-		member := member
+		// not by the action, which may still run after we've returned and request is the callers again
+		memberRequest := proto.Clone(request).(*traits.GetBrightnessRequest)
+		memberRequest.Name = member
 		actions[i] = func(ctx context.Context) (proto.Message, error) {
-			memberRequest := proto.Clone(request).(*traits.GetBrightnessRequest)
-			memberRequest.Name = member
 			return s.impl.GetBrightness(ctx, memberRequest)
 		}
 	}
@@ -54,10 +54,10 @@ func (s *Group) UpdateBrightness(ctx context.Context, request *traits.UpdateBrig
 	actions := make([]group.Member, len(s.members))
 	for i, member := range s.members {
 		i := i
-		member := member
+		// not by the action, which may still run after we've returned and request is the callers again
+		memberRequest := proto.Clone(request).(*traits.UpdateBrightnessRequest)
+		memberRequest.Name = member
 		actions[i] = func(ctx context.Context) (proto.Message, error) {
-			memberRequest := proto.Clone(request).(*traits.UpdateBrightnessRequest)
-			memberRequest.Name = member
 			return s.impl.UpdateBrightness(ctx, memberRequest)
 		}
 	}
@@ -130,10 +130,10 @@ func (s *Group) pullBrightnessActions(request *traits.PullBrightnessRequest, mem
 	actions := make([]group.Member, len(s.members))
 	for i, member := range s.members {
 		i := i
-		member := member
+		// not by the action, which may still run after we've returned and request is the callers again
+		memberRequest := proto.Clone(request).(*traits.PullBrightnessRequest)
+		memberRequest.Name = member
 		actions[i] = func(ctx context.Context) (msg proto.Message, err error) {
-			memberRequest := proto.Clone(request).(*traits.PullBrightnessRequest)
-			memberRequest.Name = member
 			stream, err := s.impl.PullBrightness(ctx, memberRequest)
 			if err != nil {
 				return
diff --git a/pkg/trait/onoffpb/group.go b/pkg/trait/onoffpb/group.go
index 88bd5e4..fd711a5 100644
--- a/pkg/trait/onoffpb/group.go
+++ b/pkg/trait/onoffpb/group.go
@@ -35,10 +35,10 @@ func (s *Group) GetOnOff(ctx context.Context, request *traits.GetOnOffRequest) (
 	actions := make([]group.Member, len(s.members))
 	for i, member := range s.members {
 		i := i
-		member := member
+		// not by the action, which may still run after we've returned and request is the callers again
+		memberRequest := proto.Clone(request).(*traits.GetOnOffRequest)
+		memberRequest.Name = member
 		actions[i] = func(ctx context.Context) (proto.Message, error) {
-			memberRequest := proto.Clone(request).(*traits.GetOnOffRequest)
-			memberRequest.Name = member
 			return s.impl.GetOnOff(ctx, memberRequest)
 		}
 	}
@@ -54,10 +54,10 @@ func (s *Group) UpdateOnOff(ctx context.Context, request *traits.UpdateOnOffRequ
 	actions := make([]group.Member, len(s.members))
 	for i, member := range s.members {
 		i := i
-		member := member
+		// not by the action, which may still run after we've returned and request is the callers again
+		memberRequest := proto.Clone(request).(*traits.UpdateOnOffRequest)
+		memberRequest.Name = member
 		actions[i] = func(ctx context.Context) (proto.Message, error) {
-			memberRequest := proto.Clone(request).(*traits.UpdateOnOffRequest)
-			memberRequest.Name = member
 			return s.impl.UpdateOnOff(ctx, memberRequest)
 		}
 	}
@@ -130,10 +130,10 @@ func (s *Group) pullOnOffActions(request *traits.PullOnOffRequest, memberValues
 	actions := make([]group.Member, len(s.members))
 	for i, member := range s.members {
 		i := i
-		member := member
+		// not by the action, which may still run after we've returned and request is the callers again
+		memberRequest := proto.Clone(request).(*traits.PullOnOffRequest)
+		memberRequest.Name = member
 		actions[i] = func(ctx context.Context) (msg proto.Message, err error) {
-			memberRequest := proto.Clone(request).(*traits.PullOnOffRequest)
-			memberRequest.Name = member
 			stream, err := s.impl.PullOnOff(ctx, memberRequest)
 			if err != nil {
 				return
-- 
2.43.0


From c374f2a80c463cd8f9530d93284e3d12bbae377c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 81/82] fix: WithMoreUpdateMask hid unknown fields below a
 field that it added, such updates were accepted

---
 pkg/resource/opt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/opt.go b/pkg/resource/opt.go
index 31a2801..1c61b53 100644
--- a/pkg/resource/opt.go
+++ b/pkg/resource/opt.go
@@ -379,7 +379,9 @@ func WithMoreUpdateMask(mask *fieldmaskpb.FieldMask) WriteOption {
 		if request.UpdateMask == nil {
 			return // a nil update mask means all fields are writable anyway
 		}
-		request.UpdateMask = fieldmaskpb.Union(request.UpdateMask, mask)
+		// not fieldmaskpb.Union, it drops paths below others without checking that they exist
+		paths := append([]string{}, request.UpdateMask.Paths...)
+		request.UpdateMask = &fieldmaskpb.FieldMask{Paths: append(paths, mask.GetPaths()...)}
 	})
 }
 
-- 
2.43.0


From dfe201ce5f248c511b9da46c8c196732a8c891d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:42 +0000
Subject: [PATCH 82/82] fix: subscriptions of trait models began in the
 background, changes made right after subscribing could be missed

---
 pkg/trait/bookingpb/model.go          |  3 ++-
 pkg/trait/enterleavesensorpb/model.go |  3 ++-
 pkg/trait/fanspeedpb/model.go         |  3 ++-
 pkg/trait/hailpb/model.go             |  6 ++++--
 pkg/trait/modepb/model.go             |  3 ++-
 pkg/trait/openclosepb/model.go        |  2 +-
 pkg/trait/publicationpb/model.go      |  6 ++++--
 pkg/trait/vendingpb/model.go          | 12 ++++++++----
 8 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/pkg/trait/bookingpb/model.go b/pkg/trait/bookingpb/model.go
index c887ace..c1d4af2 100644
--- a/pkg/trait/bookingpb/model.go
+++ b/pkg/trait/bookingpb/model.go
@@ -67,9 +67,10 @@ type BookingChange struct {
 func (m *Model) PullBookings(ctx context.Context, opts ...resource.ReadOption) <-chan BookingChange {
 	send := make(chan BookingChange)
 
+	recv := m.bookings.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.bookings.Pull(ctx, opts...) {
+		for change := range recv {
 			event := BookingChange{
 				ChangeTime: change.ChangeTime,
 				ChangeType: change.ChangeType,
diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 8363061..8994e74 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -65,9 +65,10 @@ type EnterLeaveEventChange struct {
 // The returned chan will be closed when the given context is Done.
 func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadOption) <-chan EnterLeaveEventChange {
 	send := make(chan EnterLeaveEventChange)
+	recv := m.enterLeaveEvents.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.enterLeaveEvents.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 92ba8ea..de9207c 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -185,9 +185,10 @@ type FanSpeedChange struct {
 
 func (m *Model) PullFanSpeed(ctx context.Context, opts ...resource.ReadOption) <-chan FanSpeedChange {
 	send := make(chan FanSpeedChange)
+	recv := m.fanSpeed.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.fanSpeed.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.FanSpeed)
 			select {
 			case <-ctx.Done():
diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index d971fbe..f6b348d 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -72,9 +72,10 @@ type HailChange struct {
 // The returned channel is closed when ctx is Done or the hail identified by id is deleted.
 func (m *Model) PullHail(ctx context.Context, id string, opts ...resource.ReadOption) <-chan HailChange {
 	send := make(chan HailChange)
+	recv := m.hails.PullID(ctx, id, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.hails.PullID(ctx, id, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -103,9 +104,10 @@ type HailsChange struct {
 
 func (m *Model) PullHails(ctx context.Context, opts ...resource.ReadOption) <-chan HailsChange {
 	send := make(chan HailsChange)
+	recv := m.hails.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.hails.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castChange(change)
 			event := HailsChange{
 				ChangeType: change.ChangeType,
diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 3efea79..7f5df3d 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -84,9 +84,10 @@ type ModeValuesChange struct {
 func (m *Model) PullModeValues(ctx context.Context, opts ...resource.ReadOption) <-chan ModeValuesChange {
 	send := make(chan ModeValuesChange)
 
+	recv := m.modeValues.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.modeValues.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.ModeValues)
 			select {
 			case <-ctx.Done():
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index bcfb2ae..efcbb00 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -112,13 +112,13 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	eq := cmp.Equal()
 
 	send := make(chan PullOpenClosePositionsChange)
+	changes := m.positions.Pull(ctx)
 	go func() {
 		defer close(send)
 		all := make(map[string]*traits.OpenClosePosition, 1)
 		seenAll := false
 		var last *traits.OpenClosePositions
 
-		changes := m.positions.Pull(ctx)
 		if !readRequest.UpdatesOnly && len(m.positions.List()) == 0 {
 			// there are no seed values to wait for
 			last = responseFilter.FilterClone(&traits.OpenClosePositions{}).(*traits.OpenClosePositions)
diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index c908eb6..7f411a3 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -63,9 +63,10 @@ type PublicationChange struct {
 
 func (m *Model) PullPublication(ctx context.Context, id string, opts ...resource.ReadOption) <-chan PublicationChange {
 	send := make(chan PublicationChange)
+	recv := m.publications.PullID(ctx, id, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.publications.PullID(ctx, id, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -95,9 +96,10 @@ type PublicationsChange struct {
 
 func (m *Model) PullPublications(ctx context.Context, opts ...resource.ReadOption) <-chan PublicationsChange {
 	send := make(chan PublicationsChange)
+	recv := m.publications.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.publications.Pull(ctx, opts...) {
+		for change := range recv {
 			event := PublicationsChange{
 				ID:         change.Id,
 				ChangeTime: change.ChangeTime,
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 4f73893..df87766 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -68,9 +68,10 @@ type ConsumableChange struct {
 
 func (m *Model) PullConsumable(ctx context.Context, name string, opts ...resource.ReadOption) <-chan ConsumableChange {
 	send := make(chan ConsumableChange)
+	recv := m.consumables.PullID(ctx, name, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.consumables.PullID(ctx, name, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -100,9 +101,10 @@ type ConsumablesChange struct {
 
 func (m *Model) PullConsumables(ctx context.Context, opts ...resource.ReadOption) <-chan ConsumablesChange {
 	send := make(chan ConsumablesChange)
+	recv := m.consumables.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.consumables.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castConsumableChange(change)
 			event := ConsumablesChange{
 				ID:         change.Id,
@@ -159,9 +161,10 @@ type StockChange struct {
 // The returned channel will be closed if ctx is Done or the stock record identified by consumable is deleted.
 func (m *Model) PullStock(ctx context.Context, consumable string, opts ...resource.ReadOption) <-chan StockChange {
 	send := make(chan StockChange)
+	recv := m.inventory.PullID(ctx, consumable, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.inventory.PullID(ctx, consumable, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -193,9 +196,10 @@ type InventoryChange struct {
 // PullInventory subscribes to changes in the list of known stock records.
 func (m *Model) PullInventory(ctx context.Context, opts ...resource.ReadOption) <-chan InventoryChange {
 	send := make(chan InventoryChange)
+	recv := m.inventory.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.inventory.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castStockChange(change)
 			event := InventoryChange{
 				ID:         change.Id,
-- 
2.43.0

