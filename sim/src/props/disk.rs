//! A simulated file on a block device that loses, tears, repeats, misplaces,
//! zeroes and flips what is written, and may stop at any byte.
use crate::model::*;
use simrt::{count, ev, Mask};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Lost,
    Torn(usize),
    Dup,
    Swap,
    Zero,
    Flip(usize),
    /// a flipped bit in front of, on or behind a delimiter
    FlipNear(usize),
    Misplaced(usize),
    Stop(usize),
    /// an early or missing truncation: the old tail stays
    StaleTail,
    Blank,
}
impl Fault {
    pub fn name(self) -> &'static str {
        match self {
            Fault::Lost => "fault.lost-block",
            Fault::Torn(_) => "fault.torn-block",
            Fault::Dup => "fault.repeated-block",
            Fault::Swap => "fault.reordered-blocks",
            Fault::Zero => "fault.zeroed-block",
            Fault::Flip(_) | Fault::FlipNear(_) => "fault.flipped-bit",
            Fault::Misplaced(_) => "fault.misplaced-block",
            Fault::Stop(_) => "fault.crash-mid-write",
            Fault::StaleTail => "fault.stale-tail",
            Fault::Blank => "fault.blanked-block",
        }
    }
}

pub struct File {
    data: Mutex<Vec<u8>>,
    pub block: usize,
}
impl File {
    pub fn new(block: usize, old: &[u8]) -> File {
        File { data: Mutex::new(old.to_vec()), block }
    }
    pub fn len(&self) -> usize {
        let _m = Mask::new();
        let n = self.data.lock().unwrap().len();
        n
    }
    fn put(&self, at: usize, b: &[u8]) {
        let _m = Mask::new();
        let mut d = self.data.lock().unwrap();
        if d.len() < at + b.len() {
            d.resize(at + b.len(), 0);
        }
        d[at..at + b.len()].copy_from_slice(b);
    }
    fn truncate(&self, n: usize) {
        let _m = Mask::new();
        self.data.lock().unwrap().truncate(n);
    }
    pub fn get(&self, at: usize, n: usize) -> Vec<u8> {
        let _m = Mask::new();
        let d = self.data.lock().unwrap();
        d[at.min(d.len())..(at + n).min(d.len())].to_vec()
    }
    pub fn all(&self) -> Vec<u8> {
        let _m = Mask::new();
        let d = self.data.lock().unwrap().clone();
        d
    }
    /// Writes `text` block by block. True when every block was written as given.
    pub fn write(&self, who: &str, text: &[u8], plan: &[(usize, Fault)]) -> bool {
        let n = text.len().div_ceil(self.block);
        let mut clean = true;
        let mut text = text.to_vec();
        for (b, f) in plan {
            let Fault::FlipNear(c) = *f else { continue };
            let at: Vec<usize> = (0..text.len()).filter(|i| b"([{:=,".contains(&text[*i])).collect();
            if at.is_empty() {
                continue;
            }
            let p = (at[b % at.len()] + 1).saturating_sub(c / 8 % 6).min(text.len() - 1);
            text[p] ^= 1 << (c % 8);
            clean = false;
            count(f.name());
            ev!("{who}: bit {} of byte {p} flipped", c % 8);
        }
        let mut order: Vec<usize> = (0..n).collect();
        for (b, f) in plan {
            if *f == Fault::Swap && n > 1 {
                let i = b % n;
                order.swap(i, (i + 1) % n);
                count(f.name());
                ev!("{who}: blocks {} and {} written in the other order", i, (i + 1) % n);
            }
        }
        for i in order {
            simrt::yield_point("block write");
            let lo = i * self.block;
            let hi = (lo + self.block).min(text.len());
            let mut b = text[lo..hi].to_vec();
            let mut at = lo;
            let mut stop = false;
            let mut skip = false;
            let mut dup = false;
            for (k, f) in plan {
                if n == 0 || k % n != i {
                    continue;
                }
                match *f {
                    Fault::Lost => skip = true,
                    Fault::Torn(c) => {
                        let c = c % (b.len() + 1);
                        b.truncate(c)
                    }
                    Fault::Dup => dup = true,
                    Fault::Zero => b.iter_mut().for_each(|x| *x = 0),
                    Fault::Blank => b.iter_mut().for_each(|x| *x = b' '),
                    Fault::Flip(c) => {
                        if !b.is_empty() {
                            let l = b.len() * 8;
                            let c = c % l;
                            b[c / 8] ^= 1 << (c % 8)
                        }
                    }
                    Fault::Misplaced(c) => at = (c % n) * self.block,
                    Fault::Stop(c) => {
                        let c = c % (b.len() + 1);
                        b.truncate(c);
                        stop = true
                    }
                    Fault::Swap | Fault::StaleTail | Fault::FlipNear(_) => continue,
                }
                clean = false;
                count(f.name());
                ev!("{who}: {} at block {i} ({f:?})", f.name());
            }
            if !skip {
                self.put(at, &b);
            }
            if dup {
                self.put(at + self.block, &b);
            }
            if stop {
                // whatever an earlier, longer version left behind may be gone already or not
                if !plan.iter().any(|x| x.1 == Fault::StaleTail) {
                    self.truncate(at + b.len());
                } else {
                    count(Fault::StaleTail.name());
                }
                ev!("{who}: crashed after {} bytes", at + b.len());
                return false;
            }
        }
        let len = self.len();
        if plan.iter().any(|x| x.1 == Fault::StaleTail) && len > text.len() {
            clean = false;
            count(Fault::StaleTail.name());
            ev!("{who}: old tail of {} bytes left in place", len - text.len());
        } else {
            self.truncate(text.len());
        }
        clean
    }
    /// Reads block by block; other tasks may write in between.
    pub fn read(&self) -> Vec<u8> {
        let mut o = vec![];
        loop {
            simrt::yield_point("block read");
            let b = self.get(o.len(), self.block);
            if b.is_empty() {
                return o;
            }
            let short = b.len() < self.block;
            o.extend(b);
            if short {
                return o;
            }
        }
    }
}

pub fn gen_plan(max: u64, kinds: &[u64]) -> Vec<(usize, Fault)> {
    let mut v = vec![];
    while (v.len() as u64) < max && fl(4) != 0 {
        let b = fl(1 << 16) as usize;
        let x = fl(1 << 16) as usize;
        let f = match kinds[fl(kinds.len() as u64) as usize] {
            0 => Fault::Flip(x),
            1 => Fault::Stop(x),
            2 => Fault::Torn(x),
            3 => Fault::Lost,
            4 => Fault::Dup,
            5 => Fault::Swap,
            6 => Fault::Zero,
            7 => Fault::Misplaced(x),
            8 => Fault::StaleTail,
            9 => Fault::Blank,
            _ => Fault::FlipNear(x),
        };
        v.push((b, f));
    }
    v
}
