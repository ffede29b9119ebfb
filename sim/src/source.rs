//! Simulated byte source of an edit: honest but arbitrarily uninformative length hints, and a crash
//! point after any number of items (an unwind out of `next`).
use crate::engine::{Ctx, Cut};

#[derive(Clone, Debug)]
pub struct SourceSpec {
    pub bytes: Vec<u8>,
    /// how far below the truth the lower bound is
    pub lower_slack: usize,
    /// None: no upper bound; Some(k): upper bound = truth + k
    pub upper_slack: Option<usize>,
    pub cut_at: Option<usize>,
}

pub struct SimSource<'a, T> {
    spec: &'a SourceSpec,
    pos: usize,
    conv: fn(u8) -> T,
}

impl SourceSpec {
    pub fn draw_bytes(c: &mut Ctx, max: usize, boundary: usize, seven_bit: bool) -> Vec<u8> {
        let n = c.len(max, boundary);
        let style = c.s.draw(4);
        let base = c.s.u8();
        (0..n)
            .map(|i| {
                let b = match style {
                    0 => base.wrapping_add(i as u8),
                    1 => c.s.u8(),
                    2 => *c.s.pick(&[0x00u8, 0x7F, 0x77, 0xF7, 0xF0, 0xFF, 0x01]),
                    _ => base.wrapping_mul(i as u8 | 1),
                };
                if seven_bit {
                    b & 0x7F
                } else {
                    b
                }
            })
            .collect()
    }
    pub fn draw(c: &mut Ctx, max: usize, boundary: usize, seven_bit: bool) -> Self {
        let bytes = Self::draw_bytes(c, max, boundary, seven_bit);
        let n = bytes.len();
        let (lower_slack, upper_slack) = match c.s.draw(6) {
            0 | 1 => (0, Some(0)),
            2 => (n, None),
            3 => (c.s.range(0, n), None),
            4 => (n, Some(c.s.range(0, 3 * boundary))),
            // as of a filter, or of map_while over a very long range
            5 if c.s.chance(1, 4) => (c.s.range(0, n), Some(*c.s.pick(&[usize::MAX, usize::MAX / 2, 1 << 40, 100_000]))),
            _ => (c.s.range(0, n), Some(c.s.range(0, 40))),
        };
        SourceSpec { bytes, lower_slack, upper_slack, cut_at: None }
    }
    pub fn describe(&self) -> String {
        format!(
            "{} bytes {:02x?}{} hint ({}, {})",
            self.bytes.len(),
            &self.bytes[..self.bytes.len().min(16)],
            if self.bytes.len() > 16 { ".." } else { "" },
            self.bytes.len() - self.lower_slack,
            match self.upper_slack {
                None => "None".to_string(),
                Some(k) => format!("Some({})", self.bytes.len().saturating_add(k)),
            }
        ) + &match self.cut_at {
            None => String::new(),
            Some(k) => format!(", cut off after {k} bytes"),
        }
    }
    pub fn exact_hint(&self) -> bool {
        self.lower_slack == 0 && self.upper_slack == Some(0)
    }
    pub fn iter<T>(&self, conv: fn(u8) -> T) -> SimSource<'_, T> {
        SimSource { spec: self, pos: 0, conv }
    }
}

impl<T> Iterator for SimSource<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.spec.cut_at == Some(self.pos) {
            std::panic::panic_any(Cut);
        }
        let v = self.spec.bytes.get(self.pos).map(|b| (self.conv)(*b));
        if v.is_some() {
            self.pos += 1;
        }
        v
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.spec.bytes.len() - self.pos;
        (
            left.saturating_sub(self.spec.lower_slack),
            self.spec.upper_slack.map(|k| left.saturating_add(k)),
        )
    }
}
