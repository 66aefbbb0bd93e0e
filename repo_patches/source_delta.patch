From 3b87e5b704a83f88a815cca70c9b4c36e3dbb17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 01/18] fix: keep the end site of the root joint apart from its
 offset

The end site's offset overwrote the root's own offset, and the root never
reported an end site.
---
 src/joint.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index cda2fd4..1b6b095 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -26,6 +26,8 @@ pub(crate) enum JointData {
         offset: Offset,
         /// The channels applicable to this `Joint`.
         channels: SmallVec<[Channel; 6]>,
+        /// End site offset.
+        end_site_offset: Option<Offset>,
     },
     /// A child joint in the skeleton.
     Child {
@@ -78,11 +80,14 @@ impl JointData {
     #[inline]
     pub(crate) const fn end_site(&self) -> Option<&Offset> {
         match *self {
-            JointData::Child {
+            JointData::Root {
+                ref end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref end_site_offset,
                 ..
             } => end_site_offset.as_ref(),
-            _ => None,
         }
     }
 
@@ -145,6 +150,7 @@ impl JointData {
             name: Default::default(),
             offset: [0.0, 0.0, 0.0].into(),
             channels: Default::default(),
+            end_site_offset: Default::default(),
         }
     }
 
@@ -170,8 +176,12 @@ impl JointData {
     pub(crate) fn set_offset(&mut self, new_offset: impl Into<Offset>, is_site: bool) {
         let new_offset = new_offset.into();
         match *self {
-            JointData::Root { ref mut offset, .. } => *offset = new_offset,
-            JointData::Child {
+            JointData::Root {
+                ref mut offset,
+                ref mut end_site_offset,
+                ..
+            }
+            | JointData::Child {
                 ref mut offset,
                 ref mut end_site_offset,
                 ..
-- 
2.43.0


From 9cf4aa12075f4d212bcb2c3bec89eea2e87e5585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 02/18] fix: keep writing when the writer accepts only part of
 a chunk

A short write was reported as dropped data and an interrupted one as an
error, although the writer had not failed.
---
 src/write.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 688356c..581f4e9 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -56,21 +56,10 @@ impl WriteOptions {
     /// Output the `Bvh` file to the `writer` with the given options.
     pub fn write<W: Write>(&self, bvh: &Bvh, writer: &mut W) -> io::Result<()> {
         let mut curr_chunk = vec![];
-        let mut curr_bytes_written = 0usize;
-        let mut curr_string_len = 0usize;
         let mut iter_state = WriteOptionsIterState::new();
 
         while self.next_chunk(bvh, &mut curr_chunk, &mut iter_state) != false {
-            let bytes: &[u8] = curr_chunk.as_ref();
-            curr_string_len += bytes.len();
-            curr_bytes_written += writer.write(bytes)?;
-
-            if curr_bytes_written != curr_string_len {
-                return Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "Data has been dropped while writing to file",
-                ));
-            }
+            writer.write_all(&curr_chunk)?;
         }
         writer.flush()
     }
-- 
2.43.0


From a006e47df76dd5fc0797b80e65cc94b61eed807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 03/18] fix: close the braces of joints which have no end site

Only a joint with an end site closed the braces it had opened, so that a
skeleton with a leaf joint or a root without an end site was written with
unbalanced braces. An end site followed by a child joint underflowed the
number of braces to close.
---
 src/write.rs | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 581f4e9..f8c5a04 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -256,27 +256,28 @@ impl WriteOptions {
                                 chunk.extend(self.indent.prefix_chars(depth));
                                 chunk.push(b'}');
                                 chunk.extend_from_slice(terminator);
+                            }
 
-                                let next_joint = joints.next();
-                                let prev_joint = mem::replace(current_joint, next_joint).unwrap();
-
-                                let (curr_depth, mut depth_difference) =
-                                    if let Some(ref curr_j) = *current_joint {
-                                        let curr_depth = curr_j.data().depth();
-                                        (curr_depth, Some(prev_joint.data().depth() - curr_depth))
-                                    } else {
-                                        (0, Some(prev_joint.data().depth()))
-                                    };
-
-                                while let Some(d) = depth_difference {
-                                    chunk.extend(self.indent.prefix_chars(curr_depth + d));
-                                    chunk.push(b'}');
-                                    chunk.extend_from_slice(terminator);
-                                    depth_difference =
-                                        depth_difference.and_then(|d| d.checked_sub(1));
-                                }
-                            } else {
-                                *current_joint = joints.next();
+                            let next_joint = joints.next();
+                            let prev_joint = mem::replace(current_joint, next_joint).unwrap();
+
+                            let (curr_depth, mut depth_difference) =
+                                if let Some(ref curr_j) = *current_joint {
+                                    let curr_depth = curr_j.data().depth();
+                                    // A child of the previous joint leaves it open.
+                                    (
+                                        curr_depth,
+                                        prev_joint.data().depth().checked_sub(curr_depth),
+                                    )
+                                } else {
+                                    (0, Some(prev_joint.data().depth()))
+                                };
+
+                            while let Some(d) = depth_difference {
+                                chunk.extend(self.indent.prefix_chars(curr_depth + d));
+                                chunk.push(b'}');
+                                chunk.extend_from_slice(terminator);
+                                depth_difference = depth_difference.and_then(|d| d.checked_sub(1));
                             }
                             *wrote_name = false;
                             *wrote_offset = false;
-- 
2.43.0


From a5c1448b1aad4b54ca28a81e442466687867d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 04/18] fix: keep the order of the frames after an inserted
 frame

Inserting a slice anywhere but at the end mixed up the values behind it
unless it was exactly as long as what followed.
---
 src/frame_cursor.rs | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 7835fe2..925514c 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -549,7 +549,7 @@ impl<'bvh> From<FrameCursor<'bvh>> for FramesMut<'bvh> {
 /// # Panics
 ///
 /// Panics if `index` is out of bounds.
-fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &[T]) {
+fn vec_insert_slice<T: Clone>(vec: &mut Vec<T>, index: usize, slice: &[T]) {
     assert!(
         index <= vec.len(),
         "attempted to insert a slice at index {} into a vec of length {}",
@@ -557,24 +557,9 @@ fn vec_insert_slice<T: Clone + Default>(vec: &mut Vec<T>, index: usize, slice: &
         vec.len(),
     );
 
-    let spare_capacity = vec.capacity().saturating_sub(vec.len());
-    if slice.len() > spare_capacity {
-        vec.reserve(slice.len() - spare_capacity);
-    }
-
-    let old_len = vec.len();
-    let new_len = vec.len() + slice.len();
-    vec.resize_with(new_len, T::default);
-
-    // Move the existing items to the end
-    for (to_move, end_index) in (index..old_len).into_iter().zip(old_len + index..new_len) {
-        vec.swap(to_move, end_index);
-    }
-
-    // Clone the slice into the new area
-    for (i, item) in slice.iter().enumerate() {
-        vec[i + index] = item.clone();
-    }
+    // Append the slice, then swap it with the items which follow `index`.
+    vec.extend_from_slice(slice);
+    vec[index..].rotate_right(slice.len());
 }
 
 #[test]
-- 
2.43.0


From 5abff0281df73d563c97577f362e25eaae695d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 05/18] fix: report an error when there is no frame at the
 cursor to remove

---
 src/frame_cursor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 925514c..d177ef6 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -403,7 +403,7 @@ impl<'bvh> FrameCursor<'bvh> {
     /// # } // fn main()
     /// ```
     pub fn remove_frame(&mut self) -> Result<&mut Self, FrameRemoveError> {
-        if self.len() == 0 {
+        if self.index >= self.len() {
             return Err(FrameRemoveError::new(self.index));
         }
 
-- 
2.43.0


From c2e9ac117549da91a99938950351c42f4eef7fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:22 +0000
Subject: [PATCH 06/18] fix: move the cursor to the start when all frames are
 removed

It stayed where it was, so that the next insertion was out of bounds and
panicked.
---
 src/frame_cursor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index d177ef6..6c467e4 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -481,6 +481,7 @@ impl<'bvh> FrameCursor<'bvh> {
     #[inline]
     pub fn remove_all_frames(&mut self) -> &mut Self {
         self.bvh.motion_values.clear();
+        self.index = 0;
         self
     }
 
-- 
2.43.0


From 17e2e1e1048e5ea532cc8957ad7436d8e2d64fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:36 +0000
Subject: [PATCH 07/18] fix: do not trust the size hint of inserted frames

An iterator with a large upper bound made the insertion of a few frames
panic on capacity overflow or run out of memory.
---
 src/frame_cursor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/frame_cursor.rs b/src/frame_cursor.rs
index 6c467e4..0c3cdbb 100644
--- a/src/frame_cursor.rs
+++ b/src/frame_cursor.rs
@@ -322,7 +322,12 @@ impl<'bvh> FrameCursor<'bvh> {
             up.unwrap_or(low)
         };
 
-        self.bvh.motion_values.reserve(num_frames * num_channels);
+        // The hint may be far larger than the number of frames which are yielded.
+        const MAX_RESERVED_VALUES: usize = 1 << 16;
+        let num_values = num_frames.saturating_mul(num_channels);
+        self.bvh
+            .motion_values
+            .reserve(num_values.min(MAX_RESERVED_VALUES));
 
         for frame in frames.into_iter() {
             let frame = frame.as_ref();
-- 
2.43.0


From c406e6d6278bd520d794b36a87411b9799090904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 08/18] fix: iterate over the children of a joint

Joint::children always panicked: on a joint without children, or else on
the first step of the iteration.
---
 src/joint.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/joint.rs b/src/joint.rs
index 1b6b095..fbb8875 100644
--- a/src/joint.rs
+++ b/src/joint.rs
@@ -402,7 +402,8 @@ pub struct Joints<'a> {
     pub(crate) joints: &'a [JointData],
     // pub(crate) motion_values: &'a [f32],
     pub(crate) current_joint: usize,
-    pub(crate) from_child: Option<usize>,
+    /// Index of the joint whose children are iterated, or `None` for all joints.
+    pub(crate) parent: Option<usize>,
 }
 
 impl fmt::Debug for Joints<'_> {
@@ -419,7 +420,7 @@ impl<'a> Joints<'a> {
             joints,
             // clips,
             current_joint: 0,
-            from_child: None,
+            parent: None,
         }
     }
 
@@ -431,24 +432,12 @@ impl<'a> Joints<'a> {
     /// need to iterate through to the end sites of all children, you will
     /// need to continually call `iter_children` on each `Joint` in the iterator.
     pub(crate) fn iter_children(joint: &Joint<'a>) -> Self {
-        let first_child = joint
-            .joints
-            .iter()
-            .find(|jd| {
-                if let Some(p) = jd.private_data() {
-                    p.parent_index == joint.index
-                } else {
-                    false
-                }
-            })
-            .map(JointData::index)
-            .unwrap();
-
         Joints {
             joints: joint.joints,
             // clips: joint.clips,
-            current_joint: joint.data().index(),
-            from_child: Some(first_child),
+            // The children of a joint come after it.
+            current_joint: joint.index + 1,
+            parent: Some(joint.index),
         }
     }
 
@@ -472,6 +461,14 @@ impl<'a> Joints<'a> {
 impl<'a> Iterator for Joints<'a> {
     type Item = Joint<'a>;
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(parent) = self.parent {
+            while self.current_joint < self.joints.len()
+                && self.joints[self.current_joint].parent_index() != Some(parent)
+            {
+                self.current_joint += 1;
+            }
+        }
+
         if self.current_joint >= self.joints.len() {
             return None;
         }
@@ -481,11 +478,7 @@ impl<'a> Iterator for Joints<'a> {
             joints: self.joints,
         });
 
-        if self.from_child.is_none() {
-            self.current_joint += 1;
-        } else {
-            unimplemented!()
-        }
+        self.current_joint += 1;
 
         joint
     }
-- 
2.43.0


From e189bbf17c85b5ba1c6b86c03f3f68adbf0a9c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 09/18] fix: report an error for a frame time which is not a
 duration

A negative, infinite, huge or NaN frame time panicked.
---
 src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 48d7f0e..2464766 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -575,7 +575,12 @@ impl Bvh {
                                 line: line_num,
                             }
                         })?;
-                        Ok(Duration::from_secs_f64(frame_time_secs))
+                        Duration::try_from_secs_f64(frame_time_secs).map_err(|_| {
+                            LoadMotionError::MissingFrameTime {
+                                parse_error: None,
+                                line: line_num,
+                            }
+                        })
                     } else {
                         Err(LoadMotionError::MissingFrameTime {
                             parse_error: None,
-- 
2.43.0


From dbfd8a2ca6f568723f8c29f79bf580b4a8b3065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 10/18] fix: report a missing frame time as what it is

A frame time line without a value was reported as a missing number of frames.
---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 2464766..10d4b59 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -592,7 +592,7 @@ impl Bvh {
                 match tokens.next() {
                     Some(tok) if tok == b":" => parse_frame_time(tokens.next()),
                     Some(tok) => parse_frame_time(Some(tok)),
-                    None => Err(LoadMotionError::MissingNumFrames {
+                    None => Err(LoadMotionError::MissingFrameTime {
                         parse_error: None,
                         line: line_num,
                     }),
-- 
2.43.0


From f3bc8a1b7513eddef14bf0ad9d0c97ff4a7c7884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 11/18] fix: do not allocate for counts which the input merely
 announces

A few bytes announcing many channels or frames aborted the process for want
of memory, panicked on capacity overflow or overflowed the multiplication.
---
 src/parse.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 10d4b59..dbbbbaf 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -430,7 +430,8 @@ impl Bvh {
                         })?;
 
                     let mut channels: SmallVec<[Channel; 6]> = Default::default();
-                    channels.reserve(num_channels);
+                    // The number of channels is not to be trusted before they have been read.
+                    channels.reserve(num_channels.min(6));
 
                     while let Some(tok) = tokens.next() {
                         let channel_ty = ChannelType::try_from(tok).map_err(|e| {
@@ -599,9 +600,13 @@ impl Bvh {
                 }
             })?;
 
-        let expected_total_motion_values = self.num_channels * num_frames;
+        // The number of frames is not to be trusted before the values have been read.
+        const MAX_RESERVED_VALUES: usize = 1 << 16;
 
-        self.motion_values.reserve(expected_total_motion_values);
+        let expected_total_motion_values = self.num_channels.saturating_mul(num_frames);
+
+        self.motion_values
+            .reserve(expected_total_motion_values.min(MAX_RESERVED_VALUES));
 
         for (line_num, line) in lines {
             let line = line?;
@@ -617,7 +622,7 @@ impl Bvh {
             }
         }
 
-        if self.motion_values.len() != self.num_channels * num_frames {
+        if self.motion_values.len() != expected_total_motion_values {
             return Err(LoadMotionError::MotionCountMismatch {
                 actual_total_motion_values: self.motion_values.len(),
                 expected_total_motion_values,
-- 
2.43.0


From 9acdd555b63d32ff8ae225b263b71a233957f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 12/18] fix: keep colons in joint names

A name such as 'mixamorig:Hips' was cut off at the colon.
---
 src/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index dbbbbaf..ccb2744 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -289,6 +289,8 @@ impl Bvh {
             let line = line.trim();
 
             let mut tokens = line.fields_with(|c: char| c.is_ascii_whitespace() || c == ':');
+            // Joint names may contain colons.
+            let joint_name = line.fields_with(|c: char| c.is_ascii_whitespace()).nth(1);
 
             let first_token = match tokens.next() {
                 Some(tok) => tok,
@@ -310,7 +312,7 @@ impl Bvh {
                         panic!("Unexpected root: {:?}", curr_mode);
                     }
 
-                    if let Some(name) = tokens.next() {
+                    if let Some(name) = joint_name {
                         curr_joint.set_name(name);
                     } else {
                         panic!("Missing root name!");
@@ -373,7 +375,7 @@ impl Bvh {
                         pushed_end_site_joint = false;
                     }
 
-                    if let Some(mut name) = tokens.next() {
+                    if let Some(name) = joint_name {
                         curr_joint.set_name(name);
                     } else {
                         panic!("Missing joint name!");
-- 
2.43.0


From ccd3196baaea1da5508fd884c997c129d60cba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 13/18] fix: report misplaced hierarchy lines as errors instead
 of panicking

A second HIERARCHY line, a ROOT or JOINT line out of place or without a name
and an End line without Site panicked while loading.
---
 src/errors.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 src/parse.rs  | 13 ++++++-------
 2 files changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1359c52..000bd26 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -96,6 +96,26 @@ pub enum LoadJointsError {
     Io(io::Error),
     /// The skeletal hierarchy is missing the `Root` joint.
     MissingRoot,
+    /// A `HIERARCHY` line was encountered in the wrong location.
+    UnexpectedHierarchySection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
+    /// A `ROOT` section was encountered in the wrong location.
+    UnexpectedRootSection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
+    /// A `JOINT` section was encountered in the wrong location.
+    UnexpectedJointSection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
+    /// An `End Site` section was malformed or encountered in the wrong location.
+    UnexpectedEndSiteSection {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// A name could not be found for the `Joint`.
     MissingJointName {
         /// Line number in the source bvh where the error occurred.
@@ -149,7 +169,11 @@ impl LoadJointsError {
     #[inline]
     pub fn line(&self) -> Option<usize> {
         match *self {
-            LoadJointsError::MissingJointName { line }
+            LoadJointsError::UnexpectedHierarchySection { line }
+            | LoadJointsError::UnexpectedRootSection { line }
+            | LoadJointsError::UnexpectedJointSection { line }
+            | LoadJointsError::UnexpectedEndSiteSection { line }
+            | LoadJointsError::MissingJointName { line }
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
             | LoadJointsError::ParseChannelError { line, .. }
@@ -174,6 +198,22 @@ impl fmt::Display for LoadJointsError {
         match *self {
             LoadJointsError::Io(ref e) => fmt::Display::fmt(&e, f),
             LoadJointsError::MissingRoot => f.write_str("The root heirarchy could not be found"),
+            LoadJointsError::UnexpectedHierarchySection { line } => write!(
+                f,
+                "{}: unexpectedly encountered a \"HIERARCHY\" section",
+                line
+            ),
+            LoadJointsError::UnexpectedRootSection { line } => {
+                write!(f, "{}: unexpectedly encountered a \"ROOT\" section", line)
+            }
+            LoadJointsError::UnexpectedJointSection { line } => {
+                write!(f, "{}: unexpectedly encountered a \"JOINT\" section", line)
+            }
+            LoadJointsError::UnexpectedEndSiteSection { line } => write!(
+                f,
+                "{}: unexpectedly encountered an \"End Site\" section",
+                line
+            ),
             LoadJointsError::MissingJointName { line } => {
                 write!(f, "{}: the name is missing from the joints section", line)
             }
diff --git a/src/parse.rs b/src/parse.rs
index ccb2744..fcc31cc 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -227,7 +227,6 @@ Ok((data, (frame_time, num_frames, motion_data)))
 */
 
 impl Bvh {
-    // @TODO: Remove panics
     /// Logic for parsing the data from a `BufRead`.
     pub(crate) fn read_joints(
         &mut self,
@@ -300,7 +299,7 @@ impl Bvh {
             match first_token.as_bytes() {
                 HEIRARCHY_KEYWORD => {
                     if curr_mode != ParseMode::NotStarted {
-                        panic!("Unexpected hierarchy");
+                        return Err(LoadJointsError::UnexpectedHierarchySection { line: line_num });
                     }
                     curr_mode = ParseMode::InHeirarchy;
                     next_expected_line = NextExpectedLine::RootName;
@@ -309,13 +308,13 @@ impl Bvh {
                     if curr_mode != ParseMode::InHeirarchy
                         || next_expected_line != NextExpectedLine::RootName
                     {
-                        panic!("Unexpected root: {:?}", curr_mode);
+                        return Err(LoadJointsError::UnexpectedRootSection { line: line_num });
                     }
 
                     if let Some(name) = joint_name {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing root name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
                 }
                 OPEN_BRACE => {
@@ -349,12 +348,12 @@ impl Bvh {
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
                         in_end_site = true;
                     } else {
-                        panic!("Unexpected end keyword");
+                        return Err(LoadJointsError::UnexpectedEndSiteSection { line: line_num });
                     }
                 }
                 JOINT_KEYWORD => {
                     if curr_mode != ParseMode::InHeirarchy {
-                        panic!("Unexpected Joint");
+                        return Err(LoadJointsError::UnexpectedJointSection { line: line_num });
                     }
 
                     if !pushed_end_site_joint {
@@ -378,7 +377,7 @@ impl Bvh {
                     if let Some(name) = joint_name {
                         curr_joint.set_name(name);
                     } else {
-                        panic!("Missing joint name!");
+                        return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
                 }
                 OFFSET_KEYWORD => {
-- 
2.43.0


From a20e9c424e274bf4615a2d33361010595cf78b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:29 +0000
Subject: [PATCH 14/18] fix: require every brace of the hierarchy in its place

A closing brace too many, or an opening brace missing, underflowed the depth
of the hierarchy; an opening brace too many swallowed the closing brace of
the root.
---
 src/errors.rs |  9 +++++++++
 src/parse.rs  | 20 ++++++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 000bd26..ce2106a 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -116,6 +116,11 @@ pub enum LoadJointsError {
         /// Line number in the source bvh where the error occurred.
         line: usize,
     },
+    /// A brace was encountered in the wrong location, or an opening brace is missing.
+    UnexpectedBrace {
+        /// Line number in the source bvh where the error occurred.
+        line: usize,
+    },
     /// A name could not be found for the `Joint`.
     MissingJointName {
         /// Line number in the source bvh where the error occurred.
@@ -173,6 +178,7 @@ impl LoadJointsError {
             | LoadJointsError::UnexpectedRootSection { line }
             | LoadJointsError::UnexpectedJointSection { line }
             | LoadJointsError::UnexpectedEndSiteSection { line }
+            | LoadJointsError::UnexpectedBrace { line }
             | LoadJointsError::MissingJointName { line }
             | LoadJointsError::UnexpectedChannelsSection { line }
             | LoadJointsError::ParseNumChannelsError { line, .. }
@@ -214,6 +220,9 @@ impl fmt::Display for LoadJointsError {
                 "{}: unexpectedly encountered an \"End Site\" section",
                 line
             ),
+            LoadJointsError::UnexpectedBrace { line } => {
+                write!(f, "{}: unexpectedly encountered a brace", line)
+            }
             LoadJointsError::MissingJointName { line } => {
                 write!(f, "{}: the name is missing from the joints section", line)
             }
diff --git a/src/parse.rs b/src/parse.rs
index fcc31cc..e88fe1d 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -316,11 +316,19 @@ impl Bvh {
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OPEN_BRACE => {
+                    if next_expected_line != NextExpectedLine::OpeningBrace {
+                        return Err(LoadJointsError::UnexpectedBrace { line: line_num });
+                    }
                     curr_depth += 1;
+                    next_expected_line = NextExpectedLine::ClosingBrace;
                 }
                 CLOSE_BRACE => {
+                    if next_expected_line != NextExpectedLine::ClosingBrace {
+                        return Err(LoadJointsError::UnexpectedBrace { line: line_num });
+                    }
                     curr_depth -= 1;
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
@@ -345,14 +353,17 @@ impl Bvh {
                     }
                 }
                 kw if kw == ENDSITE_KEYWORDS[0] => {
-                    if tokens.next() == Some(ENDSITE_KEYWORDS[1]) {
+                    if tokens.next() == Some(ENDSITE_KEYWORDS[1])
+                        && next_expected_line == NextExpectedLine::ClosingBrace
+                    {
                         in_end_site = true;
+                        next_expected_line = NextExpectedLine::OpeningBrace;
                     } else {
                         return Err(LoadJointsError::UnexpectedEndSiteSection { line: line_num });
                     }
                 }
                 JOINT_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::ClosingBrace {
                         return Err(LoadJointsError::UnexpectedJointSection { line: line_num });
                     }
 
@@ -379,9 +390,10 @@ impl Bvh {
                     } else {
                         return Err(LoadJointsError::MissingJointName { line: line_num });
                     }
+                    next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::ClosingBrace {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
 
@@ -412,7 +424,7 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if curr_mode != ParseMode::InHeirarchy {
+                    if next_expected_line != NextExpectedLine::ClosingBrace {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-- 
2.43.0


From 34eaa873f62526ca4fef4df536b37cd0eea94cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 15/18] fix: load joints which have neither children nor an end
 site

Such a joint was dropped, or took the place of its sibling's parent; a root
alone loaded as no joint at all.
---
 src/parse.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e88fe1d..8c0045b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -329,6 +329,24 @@ impl Bvh {
                     if next_expected_line != NextExpectedLine::ClosingBrace {
                         return Err(LoadJointsError::UnexpectedBrace { line: line_num });
                     }
+
+                    if !in_end_site && !pushed_end_site_joint {
+                        // A joint with neither children nor an end site.
+                        if let JointData::Child {
+                            ref mut private, ..
+                        } = curr_joint
+                        {
+                            private.self_index = curr_index;
+                            private.parent_index = get_parent_index(&joints, curr_depth);
+                            private.depth = curr_depth - 1;
+                        }
+
+                        let new_joint = mem::replace(&mut curr_joint, JointData::empty_child());
+                        joints.push(new_joint);
+                        curr_index += 1;
+                        pushed_end_site_joint = true;
+                    }
+
                     curr_depth -= 1;
                     if curr_depth == 0 {
                         // We have closed the brace of the root joint.
-- 
2.43.0


From 9baa11771814f9fb051d571caad6881fd9246cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 16/18] fix: reject sections which belong to no joint

An OFFSET, CHANNELS or End Site line after the children of a joint went to a
joint which does not exist, a JOINT inside an End Site became a child of the
wrong joint, and channels given twice left gaps in the motion indices.
---
 src/parse.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8c0045b..c2b0d8b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -373,6 +373,8 @@ impl Bvh {
                 kw if kw == ENDSITE_KEYWORDS[0] => {
                     if tokens.next() == Some(ENDSITE_KEYWORDS[1])
                         && next_expected_line == NextExpectedLine::ClosingBrace
+                        && !in_end_site
+                        && !pushed_end_site_joint
                     {
                         in_end_site = true;
                         next_expected_line = NextExpectedLine::OpeningBrace;
@@ -381,7 +383,7 @@ impl Bvh {
                     }
                 }
                 JOINT_KEYWORD => {
-                    if next_expected_line != NextExpectedLine::ClosingBrace {
+                    if next_expected_line != NextExpectedLine::ClosingBrace || in_end_site {
                         return Err(LoadJointsError::UnexpectedJointSection { line: line_num });
                     }
 
@@ -411,7 +413,8 @@ impl Bvh {
                     next_expected_line = NextExpectedLine::OpeningBrace;
                 }
                 OFFSET_KEYWORD => {
-                    if next_expected_line != NextExpectedLine::ClosingBrace {
+                    if next_expected_line != NextExpectedLine::ClosingBrace || pushed_end_site_joint
+                    {
                         return Err(LoadJointsError::UnexpectedOffsetSection { line: line_num });
                     }
 
@@ -442,7 +445,11 @@ impl Bvh {
                     curr_joint.set_offset(offset, in_end_site);
                 }
                 CHANNELS_KEYWORD => {
-                    if next_expected_line != NextExpectedLine::ClosingBrace {
+                    if next_expected_line != NextExpectedLine::ClosingBrace
+                        || in_end_site
+                        || pushed_end_site_joint
+                        || !curr_joint.channels().is_empty()
+                    {
                         return Err(LoadJointsError::UnexpectedChannelsSection { line: line_num });
                     }
 
-- 
2.43.0


From b06b20fc01e0e9d8fc52be5e1be2d4377b7c38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:08 +0000
Subject: [PATCH 17/18] fix: keep whitespace which is not ascii at the end of
 joint names

---
 src/parse.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index c2b0d8b..1c27706 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -285,11 +285,14 @@ impl Bvh {
 
         for (line_num, line) in lines {
             let line = line?;
+            // Joint names may contain colons, and may end in whitespace which is not ascii.
+            let joint_name = line
+                .trim_start()
+                .fields_with(|c: char| c.is_ascii_whitespace())
+                .nth(1);
             let line = line.trim();
 
             let mut tokens = line.fields_with(|c: char| c.is_ascii_whitespace() || c == ':');
-            // Joint names may contain colons.
-            let joint_name = line.fields_with(|c: char| c.is_ascii_whitespace()).nth(1);
 
             let first_token = match tokens.next() {
                 Some(tok) => tok,
-- 
2.43.0


From 0b06163650233fe3e9d2e906edab98add38ac12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 18/18] fix: literals with joints of four, five or seven
 channels

The arms of the literal macro for 4 and 5 channels named the crate in ways
which do not expand (or only under its own name), and the arm for 7 lacked
the OFFSET line, so that no such literal compiled.
---
 src/macros.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index d17bd0c..57701f6 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -110,9 +110,9 @@ macro_rules! parse_joints_internal {
         CHANNELS 4 $ch0:ident $ch1:ident $ch2:ident $ch3:ident
         $($rest:tt)*
     )) => {
-        bvh_anim$crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim$crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
-        bvh_anim$crate::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -125,9 +125,9 @@ macro_rules! parse_joints_internal {
             $ch4:ident
         $($rest:tt)*
     )) => {
-        bvh_anim::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
-        bvh_anim::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
-        bvh_anim::parse_joints_internal!($builder ( $($rest)* ));
+        $crate::parse_offset!($builder ($ofst_x $ofst_y $ofst_z));
+        $crate::match_channels!($builder ; $ch0 $ch1 $ch2 $ch3 $ch4);
+        $crate::parse_joints_internal!($builder ( $($rest)* ));
     };
 
     ($builder:ident (
@@ -148,6 +148,7 @@ macro_rules! parse_joints_internal {
     };
 
     ($builder:ident (
+        OFFSET $ofst_x:literal $ofst_y:literal $ofst_z:literal
         CHANNELS 7
             $ch0:ident
             $ch1:ident
-- 
2.43.0

