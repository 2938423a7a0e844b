From f86f549acf8f788f1b95649334757d5b94edb797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 01/19] fix: intersect and subtract boundary tines exactly

Intersecting or subtracting a tine with an excluded point, and subtracting
from an excluded point, dropped or reversed the remaining boundary.
---
 src/tine.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index a4db9d1..f8d522e 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -182,6 +182,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(lb),         &Lower(_))          => Some(Lower(lb)),
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(Exclude(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
@@ -202,6 +203,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(_),          &Lower(_))          => None,
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
@@ -226,6 +228,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(_),          &Lower(_))          => None,
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Lower(Exclude(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Lower(Exclude(l))),
@@ -238,10 +242,10 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Point(Include(_)), &Upper(Include(_))) => None,
             (Point(Include(l)), _)                  => Some(Point(Include(l))),
 
-            (Point(Exclude(l)), &Lower(_))          => Some(Lower(Exclude(l))),
+            (Point(Exclude(l)), &Lower(_))          => Some(Upper(Exclude(l))),
             (Point(Exclude(l)), &Point(Include(_))) => Some(Point(Exclude(l))),
             (Point(Exclude(_)), &Point(Exclude(_))) => None,
-            (Point(Exclude(l)), &Upper(_))          => Some(Upper(Exclude(l))),
+            (Point(Exclude(l)), &Upper(_))          => Some(Lower(Exclude(l))),
 
             (Upper(Include(l)), &Lower(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(Include(l)), &Lower(Exclude(_))) => Some(Upper(Include(l))),
@@ -249,6 +253,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(Exclude(l)), &Lower(Exclude(_))) => Some(Upper(Exclude(l))),
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
+            (Upper(Exclude(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Point(Include(l))),
-- 
2.43.0


From 778470fe1cbab7d0f43d1be4846c4eedb942fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 02/19] fix: intersect trees in place at any combination of
 boundaries

intersect_proper_interval panicked, dropped or kept the wrong boundary when
the interval's end points fell between or on existing boundaries.
---
 src/tine_tree.rs | 90 +++++++++---------------------------------------
 1 file changed, 16 insertions(+), 74 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index adc129b..e504c2a 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -323,29 +323,6 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn intersect_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.interior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap or use given ones. We should only have `None`
-        // in the case of a intersection annhiliation.
-        let merged_l = if ts[2].is_some() {
-            ts[2].take().and_then(|lower| lower.intersect(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[3].is_some() {
-            ts[3].take().and_then(|upper| upper.intersect(&u))
-        } else {
-            Some(u)
-        };
-        
-        // Ensure inner tines have the correct bounds.
-        debug_assert!(merged_l
-            .as_ref()
-            .map_or(true, Tine::is_lower_bound));
-        debug_assert!(merged_u
-            .as_ref()
-            .map_or(true, Tine::is_upper_bound));
-
-        
         // We need to detect whether the point is inside or outside an interval.
         // To do this, we look at the tines inside and outside the interval.
         let open_before = ts[0]
@@ -355,59 +332,24 @@ impl<T> TineTree<T> where T: Ord + Clone {
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
 
-        let in_l = ts[1]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-        let in_r = ts[4]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
+        // Merge tines if overlap or use given ones, ignoring them if they are
+        // not wrapped by a surrounding interval.
+        let merged_l = if ts[2].is_some() {
+            ts[2].take().and_then(|lower| lower.intersect(&l))
+        } else {
+            Some(l).filter(|_| open_before)
+        };
 
+        let merged_u = if ts[3].is_some() {
+            ts[3].take().and_then(|upper| upper.intersect(&u))
+        } else {
+            Some(u).filter(|_| closed_after)
+        };
 
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surrounding interval, or not wrapping a surrounding interval.
-        match (open_before, merged_l, in_l, in_r, merged_u, closed_after) {
-            (_,     Some(l), true,  true,  Some(u), _   )  |
-            (_,     Some(l), false, false, Some(u), _   )  => {
-                // (   ) (   )
-                //   (     )
-                //     O R
-                // (     )
-                //   ( )
-                //     O R
-                // (     )
-                // (  )
-                //     O R
-                // (     )
-                //    (  )
-                self.0.insert(l);
-                self.0.insert(u);
-            },
-            (true, Some(l),  true,  false, _,       false) => {
-                // (   )
-                //   (   )
-                //     O R
-                // (   ) ( )
-                //   (   )
-                self.0.insert(l);
-            },
-            (false, _,       false, true,  Some(u), true)  => {
-                //   (   )
-                // (   )
-                //     O R
-                // ( ) (   )
-                //   (   )
-                self.0.insert(u);
-            },
-            (false, _,       false, false, _,       false) => {
-                // )     (
-                // (     )
-                //     O R
-                //   ( )
-                // (     )
-                /* Do nothing. */
-            },
-            _ => unreachable!("invalid bounds for intersection interval"),
-        }
+        // The interior tines are unaffected, so only the remaining boundaries
+        // need to be inserted into the tree.
+        self.0.extend(merged_l);
+        self.0.extend(merged_u);
     }
 
     /// Unions the given interval with the contents of the tree.
-- 
2.43.0


From 263dc7594e8521b771c2dca3e48b0635c32ca7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 03/19] fix: subtract intervals from trees in place at any
 boundaries

minus_point_interval and minus_proper_interval discarded the result of
merging coincident boundaries, or inverted it a second time.
---
 src/tine_tree.rs | 160 +++++++----------------------------------------
 1 file changed, 22 insertions(+), 138 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index e504c2a..ec43b7b 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -573,22 +573,6 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn minus_point_interval(&mut self, p: Tine<T>) {
         let mut ts = self.exterior_split_for_point_interval(&p);
 
-        let p = if ts[1].is_some() {
-            if let Some(merged) = ts[1]
-                .take()
-                .and_then(|pt| pt.minus(&p)) 
-            {
-                merged
-            } else {
-                // If the point annhilates, then we've already joined two
-                // intervals by removing the Point(Exclude(_)) from the tree in
-                // minus_split_tree_point. So nothing else needs to happen.
-                return;
-            }
-        } else {
-            p
-        };
-        
         // We need to detect whether the point is inside or outside an interval.
         // To do this, we look at the tines before and after the interval.
         let open_before = ts[0]
@@ -598,34 +582,15 @@ impl<T> TineTree<T> where T: Ord + Clone {
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
 
-        // Insert tine into the tree, ignoring it if it is wrapped by a
+        // Merge tines if overlap or exclude the point if it is wrapped by a
         // surrounding interval.
-        // NOTE: We cannot have a Point(Exclude) here, because those will never
-        // result from an interval-tine conversion.
-        match (open_before, closed_after) {
-            (true,  true)  => {
-                // (   )
-                //   |
-                self.0.insert(p.invert());
-            },
-            (true,  false) => {
-                // ( )   ( )
-                //   |
-                debug_assert!(p.is_upper_bound());
-                self.0.insert(p);
-            },
-            (false, true)  => {
-                // ( )   ( )
-                //       |
-                debug_assert!(p.is_lower_bound());
-                self.0.insert(p);
-            },
-            (false, false) => {
-                // ( )   ( )
-                //     |
-                // Do nothing.
-            },
-        }
+        let merged_p = if ts[1].is_some() {
+            ts[1].take().and_then(|pt| pt.minus(&p))
+        } else {
+            Some(p).filter(|_| open_before && closed_after).map(Tine::invert)
+        };
+
+        self.0.extend(merged_p);
     }
 
 
@@ -635,19 +600,6 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn minus_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.exterior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap
-        let merged_l = if ts[1].is_some() {
-            ts[1].take().and_then(|lower| lower.minus(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[2].is_some() {
-            ts[2].take().and_then(|upper| upper.minus(&u))
-        } else {
-            Some(u)
-        };
-
         // We need to detect whether the interval is inside or outside an 
         // existing interval. To do this, we look at the tines before and after
         // the interval.
@@ -657,91 +609,23 @@ impl<T> TineTree<T> where T: Ord + Clone {
         let closed_after = ts[3]
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
-        
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surounding interval.
-        use Bound::*;
-        use Tine::*;
-        match (open_before, merged_l, merged_u, closed_after) {
-            (true,  Some(l), Some(u), true)  => {
-                // ( ) ( )
-                //  (   )
-                //     O R
-                // ( ) ( )
-                //   ( )
-                self.0.insert(if l.is_upper_bound() {l} else {l.invert()});
-                self.0.insert(if u.is_lower_bound() {u} else {u.invert()});
-            },
-            (true,  Some(l), upper,   false)  => {
-                // ( )
-                //  ( )
-                //     O R
-                // ( )
-                //   ( )
-                //     O R
-                // (   )
-                //   ( )
-                //     O R
-                // (   ]
-                //   ( )
-                //     O R
-                self.0.insert(if l.is_upper_bound() {l} else {l.invert()});
-                if let Some(Point(Include(p))) = upper {
-                    self.0.insert(Point(Include(p)));
-                }
-            },
-            (false, lower,   Some(u), true)   => {
-                //  ( )
-                // ( )
-                //     O R
-                //   ( )
-                // ( )
-                //     O R
-                // (   )
-                // ( )
-                //     O R
-                // [   )
-                // ( )
-                self.0.insert(if u.is_lower_bound() {u} else {u.invert()});
-                if let Some(Point(Include(p))) = lower {
-                    self.0.insert(Point(Include(p)));
-                }
-            },
-            (false, Some(l), Some(u), false)  => {
-                //  ( )
-                // (   )
-                //     O R
-                // [ ]
-                // ( )
-                if l.is_point_include() { self.0.insert(l); }
-                if u.is_point_include() { self.0.insert(u); }
-            },
 
-            (false, Some(l), None,    false)  => {
-                // [ )
-                // ( )
-                //     O R
-                //   |
-                // ( ]
-                if l.is_point_include() { self.0.insert(l); }
-            },
+        // Merge tines if overlap or invert the given ones, ignoring them if
+        // they are not wrapped by a surrounding interval.
+        let merged_l = if ts[1].is_some() {
+            ts[1].take().and_then(|lower| lower.minus(&l))
+        } else {
+            Some(l).filter(|_| open_before).map(Tine::invert)
+        };
 
-            (false, None,    Some(u), false)  => {
-                // ( ]
-                // ( )
-                //     O R
-                // |
-                // [ )
-                if u.is_point_include() { self.0.insert(u); }
-            },
+        let merged_u = if ts[2].is_some() {
+            ts[2].take().and_then(|upper| upper.minus(&u))
+        } else {
+            Some(u).filter(|_| closed_after).map(Tine::invert)
+        };
 
-            (false, None,    None,    false)  => {
-                // ( )
-                // ( )
-                // Do nothing.
-            },
-            _ => unreachable!("invalid bounds for minus interval"),
-        }
+        self.0.extend(merged_l);
+        self.0.extend(merged_u);
     }
 
     /// Splits the tine tree into three sections for an interval-like Tine to
-- 
2.43.0


From ebfae560f3d717e5fda05c45ea97590d0c1aa9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 04/19] fix: intersect trees without skipping intervals

The loop consumed the other tree's interval at the first mismatch, so
overlaps with later intervals were lost.
---
 src/tine_tree.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index ec43b7b..a833436 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -181,23 +181,23 @@ impl<T> TineTree<T> where T: Ord + Clone {
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
         let mut intersection = Self::new();
-        let self_intervals = self.interval_iter();
-        let mut other_intervals = other.interval_iter();
-
-        for self_interval in self_intervals {
-            'segment: loop {
-                if let Some(other_interval) = other_intervals.next() {
-                    let i = self_interval.intersect(&other_interval);
-                    if i.is_empty() {
-                        // Nothing else overlaps in this segment.
-                        break 'segment;
-                    }
+        let mut self_intervals = self.interval_iter().peekable();
+        let mut other_intervals = other.interval_iter().peekable();
 
-                    intersection.union_in_place(&i);
-                } else {
-                    // Nothing else overlaps anywhere.
-                    return intersection;
-                }
+        while let (Some(self_interval), Some(other_interval))
+            = (self_intervals.peek(), other_intervals.peek())
+        {
+            intersection
+                .union_in_place(&self_interval.intersect(other_interval));
+
+            // Nothing else overlaps the interval which ends first.
+            match (self_interval.upper_bound(), other_interval.upper_bound()) {
+                (Some(s), Some(o)) if s.least_intersect(&o) != s => {
+                    other_intervals.next();
+                },
+                _ => {
+                    self_intervals.next();
+                },
             }
         }
         intersection
-- 
2.43.0


From 892abd092039a271a092bd3e29a3af137f8c04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 05/19] fix: iterate tree intervals from both ends

Walking from the back saved a shared excluded point for the wrong end, and a
bound saved by one end was yielded again by the other.
---
 src/tine_tree.rs | 76 ++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 28 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index a833436..42c5d21 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -859,13 +859,18 @@ impl<T> Iterator for IntoIter<T> where T: Ord + Clone {
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.inner.next()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    // An upper bound saved by the other end has no interval
+                    // left after it, so it is not saved again.
+                    let upper = if let Some(upper) = self.inner.next() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -895,13 +900,18 @@ impl<T> DoubleEndedIterator for IntoIter<T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.inner.next_back()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    // A lower bound saved by the other end has no interval
+                    // left before it, so it is not saved again.
+                    let lower = if let Some(lower) = self.inner.next_back() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
@@ -948,13 +958,18 @@ impl<'t, T> Iterator for Iter<'t, T>
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.tine_iter.next().cloned()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    // An upper bound saved by the other end has no interval
+                    // left after it, so it is not saved again.
+                    let upper = if let Some(upper) = self.tine_iter.next().cloned() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -985,13 +1000,18 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.tine_iter.next_back().cloned()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    // A lower bound saved by the other end has no interval
+                    // left before it, so it is not saved again.
+                    let lower = if let Some(lower) = self.tine_iter.next_back().cloned() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
-- 
2.43.0


From b98b177c9834b0d437f7f4510ee6348891282e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 06/19] fix: normalize intervals to their unique form

Bounds that leave no point or a single point between them normalized to a
Closed interval with reversed or equal end points.
---
 src/normalize.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index dd0cdaf..7a43368 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -77,24 +77,24 @@ pub trait Normalize {
 // }
 
 /// Specialization for [`Finite`] intervals.
-impl<T> Normalize for RawInterval<T> where T: Finite {
+impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
     fn normalize(&mut self) {
         use RawInterval::*;
         *self = match std::mem::replace(self, Empty) {
             Empty           => Empty,
             Point(p)        => Point(p),
             Open(l, r)      => match (l.succ(), r.pred()) {
-                (Some(l), Some(r)) => Closed(l, r),
+                (Some(l), Some(r)) => Self::closed(l, r),
                 _                  => Empty,
             },
-            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Closed(l, r)),
-            RightOpen(l, r) => r.pred().map_or(Empty, |r| Closed(l, r)),
-            Closed(l, r)    => Closed(l, r),
-            UpTo(r)         => r.pred().map_or(Empty, |r| Closed(T::MINIMUM, r)),
-            UpFrom(l)       => l.succ().map_or(Empty, |l| Closed(l, T::MAXIMUM)),
-            To(p)           => Closed(T::MINIMUM, p),
-            From(p)         => Closed(p, T::MAXIMUM),
-            Full            => Closed(T::MINIMUM, T::MAXIMUM),
+            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Self::closed(l, r)),
+            RightOpen(l, r) => r.pred().map_or(Empty, |r| Self::closed(l, r)),
+            Closed(l, r)    => Self::closed(l, r),
+            UpTo(r)         => r.pred().map_or(Empty, |r| Self::closed(T::MINIMUM, r)),
+            UpFrom(l)       => l.succ().map_or(Empty, |l| Self::closed(l, T::MAXIMUM)),
+            To(p)           => Self::closed(T::MINIMUM, p),
+            From(p)         => Self::closed(p, T::MAXIMUM),
+            Full            => Self::closed(T::MINIMUM, T::MAXIMUM),
         }
     }
 
-- 
2.43.0


From 9f60ce5cd24de4ebd5dd17e2dd0a6631d7876696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 07/19] fix: denormalize To and From outward

They moved the included end point inward, losing two points.
---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 7a43368..db5bfa7 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -125,8 +125,8 @@ impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
             },
             UpTo(r)         => UpTo(r),
             UpFrom(l)       => UpFrom(l),
-            To(p)           => p.pred().map_or(Empty, |r| UpTo(r)),
-            From(p)         => p.succ().map_or(Empty, |l| UpFrom(l)),
+            To(p)           => p.succ().map_or(Full, |r| UpTo(r)),
+            From(p)         => p.pred().map_or(Full, |l| UpFrom(l)),
             Full            => Full,
         }
     }
-- 
2.43.0


From 0c592b931ad1b66b3965674ae8736021bef8f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 08/19] fix: drop empty complements and merge neighbours in
 Interval

The complement of an interval reaching the type's minimum or maximum yielded
an empty interval, and the union of neighbouring intervals was not merged.
---
 src/interval.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index dc00dbc..6294581 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -1569,6 +1569,7 @@ impl<T> Interval<T>
         self.0
             .complement()
             .map(Normalize::normalized)
+            .filter(|i| !i.is_empty())
             .map(Interval)
     }
     
@@ -1613,9 +1614,11 @@ impl<T> Interval<T>
     /// # }
     /// ```
     pub fn union(&self, other: &Self) -> impl Iterator<Item=Self> {
-        // TODO: Fix intervals that are adjacent after normalization.
+        // Denormalized intervals overlap when adjacent after normalization.
         self.0
-            .union(&other.0)
+            .clone()
+            .denormalized()
+            .union(&other.0.clone().denormalized())
             .map(Normalize::normalized)
             .map(Interval)
     }
-- 
2.43.0


From 671ae0592ee1fd64e9a70cabf3a7dfce6525afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 09/19] fix: enclose exactly the given intervals in enclose_all

Folding from the full interval always gave the full interval.
---
 src/raw_interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index f0d71c1..768a693 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -392,7 +392,7 @@ impl<T> RawInterval<T> where T: Ord + Clone {
     pub fn enclose_all<I>(intervals: I) -> Self
         where I: Iterator<Item=Self>
     {
-        intervals.fold(Self::Full, |acc, i| acc.enclose(&i))
+        intervals.fold(Self::Empty, |acc, i| acc.enclose(&i))
     }
 
     /// Returns the intersection of all of the given intervals.
-- 
2.43.0


From bfb6a0547e1637142eed3c2c794cd816ebce2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 10/19] fix: merge every interval joined by another in
 union_all

Only the first interval touching the next one was merged with it, leaving
overlapping intervals in the result.
---
 src/raw_interval.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 768a693..faf1f04 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -414,20 +414,20 @@ impl<T> RawInterval<T> where T: Ord + Clone {
         // Get first interval.
         if let Some(start) = it.next() {
             // Fold over remaining intervals.
-            it.fold(vec![start], |mut prev, next| {
+            it.fold(vec![start], |mut prev, mut next| {
                 // Early exit for full interval.
                 if next == Self::Full {
                     return vec![Self::Full];
                 }
-                let mut append = true;
-                for item in &mut prev {
+                // Merge all of the intervals which are joined by this one.
+                prev.retain(|item| {
                     if item.intersects(&next) || item .is_adjacent_to(&next) {
-                        *item = item.enclose(&next);
-                        append = false;
-                        break;
+                        next = item.enclose(&next);
+                        return false;
                     }
-                }
-                if append {prev.push(next);}
+                    true
+                });
+                prev.push(next);
                 prev
             })
         } else {
-- 
2.43.0


From ace82a29a218c1a225610dc04ac2bbe51b9c410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 11/19] fix: reject trailing text when parsing infinite and
 empty intervals

Text between an infinity and its delimiter, or after the empty sign, was
ignored.
---
 src/raw_interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index faf1f04..bb280b0 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -462,14 +462,14 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use RawInterval::*;
         // Parse empty interval.
-        if s.starts_with("Ø") { return Ok(Empty); }
+        if s == "Ø" { return Ok(Empty); }
         // Parse point interval.
         if let Ok(p) = T::from_str(s) { return Ok(Point(p)); }
 
         let (x, y) = s.split_once(',')
             .ok_or(IntervalParseError::InvalidInterval)?;
 
-        let lb = if x.starts_with("(-∞") { 
+        let lb = if x == "(-∞" { 
             Bound::Infinite
         } else if let Some(res) = x.strip_prefix('(') {
             Bound::Exclude(T::from_str(res)
@@ -481,7 +481,7 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
             return Err(IntervalParseError::InvalidInterval);
         };
 
-        let ub = if y.ends_with("∞)") { 
+        let ub = if y == "∞)" { 
             Bound::Infinite
         } else if y.ends_with(')') {
             let end = y.len() - 1;
-- 
2.43.0


From 61c7850d9a1569a273adc361e8ff135b3540c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 12/19] fix: keep selections canonical after every set
 operation

Complements, intersections and differences left empty or closed intervals in
the tree, so equal selections compared unequal, empty selections were not
reported empty, and neighbouring intervals were not merged later on.
---
 src/selection.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9368290..5608d65 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -111,6 +111,16 @@ impl<T> Selection<T>
         Interval::full().into()
     }
 
+    /// Constructs a `Selection` containing the points of the given tree. Set
+    /// operations other than unions may leave intervals in the tree which are
+    /// empty or not denormalized, so all of them are rebuilt.
+    fn from_tine_tree(tree: TineTree<T>) -> Self {
+        tree.into_iter()
+            .map(Interval::from)
+            .filter(|i| !i.is_empty())
+            .collect()
+    }
+
     // Bound accessors
     ////////////////////////////////////////////////////////////////////////////
 
@@ -500,7 +510,7 @@ impl<T> Selection<T>
     #[must_use]
     pub fn intersects(&self, other: &Self) -> bool {
         // TODO: Make generic?
-        !self.0.intersect(&other.0).is_empty()
+        !self.intersect(other).is_empty()
     }
 
     // Symmetric set operations
@@ -552,7 +562,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn complement(&self) -> Self {
-        Self(self.0.complement())
+        Self::from_tine_tree(self.0.complement())
     }
 
     /// Returns the `Selection` containing all points in both the given
@@ -595,7 +605,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        Self(self.0.intersect(&other.0))
+        Self::from_tine_tree(self.0.intersect(&other.0))
     }
 
     /// Returns the `Selection` containing all points in either of the given
@@ -662,7 +672,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn minus(&self, other: &Self) -> Self {
-        Self(self.0.minus(&other.0))
+        Self::from_tine_tree(self.0.minus(&other.0))
     }
 
     /// Returns the smallest `Interval` containing all of the points in the 
@@ -760,6 +770,7 @@ impl<T> Selection<T>
     /// ```
     pub fn intersect_in_place(&mut self, interval: Interval<T>) {
         self.0.intersect_in_place(&interval.0.denormalized());
+        *self = Self::from_tine_tree(std::mem::take(&mut self.0));
     }
 
     /// Adds all of the points in the given `Interval` to the `Selection`.
@@ -846,6 +857,7 @@ impl<T> Selection<T>
     /// ```
     pub fn minus_in_place(&mut self, interval: Interval<T>) {
         self.0.minus_in_place(&interval.0.denormalized());
+        *self = Self::from_tine_tree(std::mem::take(&mut self.0));
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a47e5f5933539b762d5163eb464a7eb4036879f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 13/19] fix: iterate selection points from both ends

Both ends shared one current interval, so mixing them yielded points out of
order.
---
 src/selection.rs | 53 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 5608d65..8d56d06 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -885,7 +885,8 @@ impl<T> Selection<T>
     pub fn iter(&self) -> Iter<'_, T> {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -899,7 +900,8 @@ impl<T> IntoIterator for Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         IntoIter {
             intervals: self.0.into_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -913,7 +915,8 @@ impl<'a, T> IntoIterator for &'a Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -1068,8 +1071,10 @@ pub struct IntoIter<T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::IntoIter<T>,
-    /// The current interval.
-    current: crate::interval::Iter<T>,
+    /// The points remaining in the last interval taken from the front.
+    front: crate::interval::Iter<T>,
+    /// The points remaining in the last interval taken from the back.
+    back: crate::interval::Iter<T>,
 }
 
 impl<T> Iterator for IntoIter<T>
@@ -1078,20 +1083,20 @@ impl<T> Iterator for IntoIter<T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1099,20 +1104,20 @@ impl<T> DoubleEndedIterator for IntoIter<T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
@@ -1130,8 +1135,10 @@ pub struct Iter<'t, T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::Iter<'t, T>,
-    /// The current interval.
-    current: crate::interval::Iter<T>,
+    /// The points remaining in the last interval taken from the front.
+    front: crate::interval::Iter<T>,
+    /// The points remaining in the last interval taken from the back.
+    back: crate::interval::Iter<T>,
 }
 
 impl<'t, T> Iterator for Iter<'t, T>
@@ -1140,20 +1147,20 @@ impl<'t, T> Iterator for Iter<'t, T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1161,20 +1168,20 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
-- 
2.43.0


From 5515b6563788f650cd1a1dff6a18203e069e4663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 14/19] fix: take the closure of a selection's normalized
 enclosure

The closure of the denormalized enclosure added the excluded end points.
---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 8d56d06..01b637e 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -722,7 +722,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn closure(&self) -> Interval<T> {
-        Interval(self.0.closure().normalized())
+        self.enclose().closure()
     }
 
     // In-place operations
-- 
2.43.0


From 1b06e0c4bfc9a118eb5749ff7220daeccbfee3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 15/19] fix: report selections bounded only by both of their
 sides

is_bounded denied empty selections and ignored unbounded sides, disagreeing
with is_left_bounded and is_right_bounded.
---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 01b637e..a046335 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -378,7 +378,7 @@ impl<T> Selection<T>
     #[inline]
     #[must_use]
     pub fn is_bounded(&self) -> bool {
-        self.lower_bound().is_some() || self.upper_bound().is_some()
+        self.is_left_bounded() && self.is_right_bounded()
     }
 
     /// Returns `true` if the the `Selection` is left-bounded.
-- 
2.43.0


From 9c997ea4ff35bc3981bb11620c6af58e7551755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 16/19] fix: normalize intervals when deserializing

An interval restored from bounds that are not in normal form kept them, so it
compared unequal to other intervals with the same points.
---
 src/interval.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index 6294581..ae44f76 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -45,7 +45,7 @@ use std::ops::Sub;
 /// [`Finite`]: ../normalize/trait.Finite.html
 #[repr(transparent)]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
 pub struct Interval<T>(pub (crate) RawInterval<T>);
 
@@ -1708,6 +1708,20 @@ impl<T> From<RawInterval<T>> for Interval<T>
     }
 }
 
+// Deserialized intervals must be normalized like any other.
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for Interval<T>
+    where
+        T: Ord + Clone + Deserialize<'de>,
+        RawInterval<T>: Normalize,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: serde::Deserializer<'de>
+    {
+        RawInterval::deserialize(deserializer).map(Self::from)
+    }
+}
+
 // NOTE: Conflicts with From<RangeFull> convertion.
 impl<T> From<T> for Interval<T> 
     where
-- 
2.43.0


From 011c1ad7a533d3038c69693d26dd0cb06f6bf5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:26 +0000
Subject: [PATCH 17/19] fix: keep trees valid when a comparison panics

---
 src/tine_tree.rs | 55 ++++++++++++++++--------------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 42c5d21..0845855 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -657,29 +657,18 @@ impl<T> TineTree<T> where T: Ord + Clone {
         res[2] = self.0.take(lower);
         res[3] = self.0.take(upper);
         
-        // Get before and after points and drop anything not in the center.
-        let mut center = self.0.split_off(lower);
-        let right_side = center.split_off(upper);
-
-        {
-            let mut backward = self.0.iter();
-            res[0] = backward.next_back().cloned();
-
-            let mut forward = center.iter();
-            res[1] = forward.next().cloned();
-        }
-
-        {
-            let mut backward = center.iter().rev();
-            res[4] = backward.next().cloned();
+        // Get before and after points.
+        res[0] = self.0.range(..lower).next_back().cloned();
+        res[5] = self.0.range(upper..).next().cloned();
 
-            let mut forward = right_side.iter();
-            res[5] = forward.next().cloned();
-        }
+        // Drop anything not in the center. (The tree is not split, as it would
+        // not stay valid if a comparison panics while splitting.)
+        self.0.retain(|t| t > lower && t < upper);
+        res[1] = self.0.iter().next().cloned();
+        res[4] = self.0.iter().next_back().cloned();
 
         debug_assert_eq!(res[1].is_some(), res[4].is_some());
-        
-        self.0 = center;
+
         res
     }
 
@@ -703,11 +692,9 @@ impl<T> TineTree<T> where T: Ord + Clone {
         res[1] = self.0.take(tine);
 
         // Get before and after points.
-        let mut right_side = self.0.split_off(tine);
-        res[0] = self.0.iter().next_back().cloned();
-        res[2] = right_side.iter().next().cloned();
+        res[0] = self.0.range(..tine).next_back().cloned();
+        res[2] = self.0.range(tine..).next().cloned();
 
-        self.0.append(&mut right_side);
         res
     }
 
@@ -737,20 +724,14 @@ impl<T> TineTree<T> where T: Ord + Clone {
         res[1] = self.0.take(lower);
         res[2] = self.0.take(upper);
 
-        // Get before and after points and drop anything in the center.
-        let mut center = self.0.split_off(lower);
-        {
-            let mut backward = self.0.iter();
-            res[0] = backward.next_back().cloned();
-        }
+        // Get before and after points.
+        res[0] = self.0.range(..lower).next_back().cloned();
+        res[3] = self.0.range(upper..).next().cloned();
+
+        // Drop anything in the center. (The tree is not split, as it would not
+        // stay valid if a comparison panics while splitting.)
+        self.0.retain(|t| t < lower || t > upper);
 
-        let mut right_side = center.split_off(upper);
-        {
-            let mut forward = right_side.iter();
-            res[3] = forward.next().cloned();
-        }
-        
-        self.0.append(&mut right_side);
         res
     }
 
-- 
2.43.0


From 121a14e18ff6d4fa0ae6409de9639b2c12539cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 18/19] fix: drop only the covered boundaries from the tree

---
 src/tine_tree.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 0845855..678ac07 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -730,7 +730,14 @@ impl<T> TineTree<T> where T: Ord + Clone {
 
         // Drop anything in the center. (The tree is not split, as it would not
         // stay valid if a comparison panics while splitting.)
-        self.0.retain(|t| t < lower || t > upper);
+        let center: Vec<_> = self.0
+            .range(lower..)
+            .take_while(|t| *t < upper)
+            .cloned()
+            .collect();
+        for tine in &center {
+            self.0.remove(tine);
+        }
 
         res
     }
-- 
2.43.0


From 487ff5881a60c0ad5e38a32b50b3bdef6411cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 19/19] fix: Parse interval notation before points, so that it
 round-trips for types which read any text as a point

---
 src/raw_interval.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index bb280b0..ebfbf61 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -460,12 +460,19 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
     type Err = IntervalParseError<T::Err>;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        use RawInterval::*;
         // Parse empty interval.
-        if s == "Ø" { return Ok(Empty); }
-        // Parse point interval.
-        if let Ok(p) = T::from_str(s) { return Ok(Point(p)); }
+        if s == "Ø" { return Ok(Self::Empty); }
+
+        // Parse point interval. The bounds are tried first, because some types
+        // (such as `String`) read any text as a point.
+        Self::parse_bounds(s)
+            .or_else(|e| T::from_str(s).map(Self::Point).map_err(|_| e))
+    }
+}
 
+impl<T> RawInterval<T> where T: Ord + FromStr {
+    /// Parses the notation of an interval given by a pair of [`Bound`]s.
+    fn parse_bounds(s: &str) -> Result<Self, IntervalParseError<T::Err>> {
         let (x, y) = s.split_once(',')
             .ok_or(IntervalParseError::InvalidInterval)?;
 
-- 
2.43.0

