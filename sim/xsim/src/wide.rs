//! Just enough exact arithmetic to compare products of many 64-bit factors.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Wide([u64; 8]);
impl Wide {
    pub fn from(x: u128) -> Wide {
        let mut w = [0; 8];
        w[0] = x as u64;
        w[1] = (x >> 64) as u64;
        Wide(w)
    }
    pub fn mul(self, y: u128) -> Wide {
        let lo = self.mul64(y as u64);
        let hi = self.mul64((y >> 64) as u64);
        let mut s = [0u64; 8];
        s[1..8].copy_from_slice(&hi.0[0..7]);
        assert!(hi.0[7] == 0, "wide overflow");
        lo.add(Wide(s))
    }
    fn mul64(self, y: u64) -> Wide {
        let mut r = [0u64; 8];
        let mut c: u128 = 0;
        for i in 0..8 {
            let t = self.0[i] as u128 * y as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        assert!(c == 0, "wide overflow");
        Wide(r)
    }
    pub fn add(self, o: Wide) -> Wide {
        let mut r = [0u64; 8];
        let mut c = 0u128;
        for i in 0..8 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        assert!(c == 0, "wide overflow");
        Wide(r)
    }
}
impl PartialOrd for Wide {
    fn partial_cmp(&self, o: &Wide) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Wide {
    fn cmp(&self, o: &Wide) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
