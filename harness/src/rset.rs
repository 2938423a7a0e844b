//! The reference model: a set of `u128` ranks within `0..=max`, as sorted
//! maximal ranges. Written independently of the library (plain range lists,
//! no boundary markers), and checked against bit masks by `self_test`.

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RSet { pub v: Vec<(u128, u128)> }

impl RSet {
    pub fn empty() -> Self { RSet { v: Vec::new() } }
    pub fn range(lo: u128, hi: u128) -> Self {
        if lo <= hi { RSet { v: vec![(lo, hi)] } } else { Self::empty() }
    }
    pub fn full(max: u128) -> Self { Self::range(0, max) }
    pub fn from_ranges(mut r: Vec<(u128, u128)>) -> Self {
        r.retain(|p| p.0 <= p.1);
        r.sort();
        let mut v: Vec<(u128, u128)> = Vec::new();
        for (l, h) in r {
            match v.last_mut() {
                Some(last) if last.1 == u128::MAX || l <= last.1 + 1 => {
                    if h > last.1 { last.1 = h; }
                }
                _ => v.push((l, h)),
            }
        }
        RSet { v }
    }
    pub fn from_mask(mask: u64, n: u32) -> Self {
        Self::from_ranges((0..n).filter(|k| mask >> k & 1 == 1).map(|k| (k as u128, k as u128)).collect())
    }
    pub fn mask(&self) -> u64 {
        let mut m = 0u64;
        for &(l, h) in &self.v { for k in l..=h { m |= 1 << k; } }
        m
    }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn contains(&self, x: u128) -> bool {
        let i = self.v.partition_point(|p| p.1 < x);
        i < self.v.len() && self.v[i].0 <= x
    }
    pub fn first(&self) -> Option<u128> { self.v.first().map(|p| p.0) }
    pub fn last(&self) -> Option<u128> { self.v.last().map(|p| p.1) }
    pub fn union(&self, o: &Self) -> Self {
        let mut r = self.v.clone();
        r.extend_from_slice(&o.v);
        Self::from_ranges(r)
    }
    pub fn complement(&self, max: u128) -> Self {
        let mut v = Vec::new();
        let mut next = Some(0u128);
        for &(l, h) in &self.v {
            if let Some(n) = next { if l > n { v.push((n, l - 1)); } }
            next = if h >= max { None } else { Some(h + 1) };
        }
        if let Some(n) = next { v.push((n, max)); }
        RSet { v }
    }
    pub fn intersect(&self, o: &Self) -> Self {
        let mut v = Vec::new();
        let (mut i, mut j) = (0, 0);
        while i < self.v.len() && j < o.v.len() {
            let l = self.v[i].0.max(o.v[j].0);
            let h = self.v[i].1.min(o.v[j].1);
            if l <= h { v.push((l, h)); }
            if self.v[i].1 < o.v[j].1 { i += 1 } else { j += 1 }
        }
        RSet { v }
    }
    pub fn minus(&self, o: &Self, max: u128) -> Self { self.intersect(&o.complement(max)) }
    /// Number of points, saturating.
    pub fn count(&self) -> u128 {
        self.v.iter().fold(0u128, |a, p| a.saturating_add((p.1 - p.0).saturating_add(1)))
    }
    /// Ranks next to each boundary: where a wrong answer would show.
    pub fn probes(&self, max: u128) -> Vec<u128> {
        let mut r = vec![0, max];
        for &(l, h) in &self.v {
            r.push(l);
            r.push(h);
            r.push(l + (h - l) / 2);
            if l > 0 { r.push(l - 1) }
            if h < max { r.push(h + 1) }
            if l > 1 { r.push(l - 2) }
            if h > l { r.push(l + 1); r.push(h - 1); }
        }
        r.retain(|x| *x <= max);
        r.sort();
        r.dedup();
        r
    }
}

/// The model against brute-force bit masks; a broken oracle must never judge.
pub fn self_test() {
    let n = 6u32;
    let max = n as u128 - 1;
    let full = (1u64 << n) - 1;
    for a in 0..=full {
        let ra = RSet::from_mask(a, n);
        assert_eq!(ra.mask(), a);
        assert_eq!(ra.complement(max).mask(), full & !a);
        for w in ra.v.windows(2) { assert!(w[0].1 + 1 < w[1].0); }
        for k in 0..n { assert_eq!(ra.contains(k as u128), a >> k & 1 == 1); }
        for b in 0..=full {
            let rb = RSet::from_mask(b, n);
            assert_eq!(ra.union(&rb), RSet::from_mask(a | b, n));
            assert_eq!(ra.intersect(&rb), RSet::from_mask(a & b, n));
            assert_eq!(ra.minus(&rb, max), RSet::from_mask(a & !b, n));
        }
    }
    let m = u128::MAX;
    assert_eq!(RSet::full(m).complement(m), RSet::empty());
    assert_eq!(RSet::range(0, m - 1).union(&RSet::range(m, m)), RSet::full(m));
    assert_eq!(RSet::range(3, m).complement(m), RSet::range(0, 2));
}
