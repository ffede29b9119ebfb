//! A simulated UMP link: several senders with their own clocks, one wire with delays and faults, and a
//! discrete-event queue ordered by (time, sequence number). Everything is drawn from the run's tape.
use crate::engine::Ctx;
use crate::tr;
use crate::wire::hex32;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, VecDeque};

#[derive(Clone, Debug, Default)]
pub struct Faults {
    /// all in 1/64
    pub loss: u64,
    pub dup: u64,
    pub reorder: u64,
    pub corrupt: u64,
    pub truncate: u64,
    pub stall: u64,
}

impl Faults {
    pub fn none() -> Faults {
        Faults::default()
    }
    /// a different mix of faults in every run
    pub fn draw(c: &mut Ctx) -> Faults {
        let mut rate = |on: u64| if c.s.chance(on, 4) { *c.s.pick(&[2u64, 6, 16]) } else { 0 };
        Faults { loss: rate(2), dup: rate(2), reorder: rate(2), corrupt: rate(2), truncate: rate(1), stall: rate(1) }
    }
}

pub struct Sender {
    pub queue: VecDeque<Vec<u32>>,
    pub period: u64,
    last_arrival: u64,
}

impl Sender {
    pub fn draw(c: &mut Ctx, packets: Vec<Vec<u32>>) -> Sender {
        Sender { queue: packets.into(), period: 1 + c.s.draw(20), last_arrival: 0 }
    }
}

enum Ev {
    Send(usize),
    Arrive(usize, Vec<u32>),
}

/// Runs until every packet has been sent and has arrived or been lost. `deliver(ctx, sender, packet)`.
pub fn run<E>(
    c: &mut Ctx,
    senders: &mut [Sender],
    f: &Faults,
    deliver: &mut dyn FnMut(&mut Ctx, usize, Vec<u32>) -> Result<(), E>,
) -> Result<(), E> {
    let mut q: BinaryHeap<Reverse<(u64, u64)>> = BinaryHeap::new();
    let mut evs: Vec<Option<Ev>> = Vec::new();
    let start = c.now;
    let mut push = |q: &mut BinaryHeap<Reverse<(u64, u64)>>, evs: &mut Vec<Option<Ev>>, t: u64, e: Ev| {
        q.push(Reverse((t, evs.len() as u64)));
        evs.push(Some(e));
    };
    for (i, s) in senders.iter_mut().enumerate() {
        s.last_arrival = start;
        if !s.queue.is_empty() {
            let t = start + c.s.draw(30);
            push(&mut q, &mut evs, t, Ev::Send(i));
        }
    }
    while let Some(Reverse((t, id))) = q.pop() {
        c.now = t;
        c.step();
        match evs[id as usize].take().expect("event taken once") {
            Ev::Send(i) => {
                let Some(mut p) = senders[i].queue.pop_front() else { continue };
                let mut copies = 1;
                if f.loss > 0 && c.s.chance(f.loss, 64) {
                    c.count("fault: packet lost");
                    tr!(c, "t={t} sender {i}: {} LOST", hex32(&p));
                    c.ev(0x1000 + i as u64);
                    copies = 0;
                } else if f.dup > 0 && c.s.chance(f.dup, 64) {
                    c.count("fault: packet duplicated");
                    tr!(c, "t={t} sender {i}: {} DUPLICATED", hex32(&p));
                    c.ev(0x2000 + i as u64);
                    copies = 2;
                }
                if copies > 0 && f.corrupt > 0 && c.s.chance(f.corrupt, 64) {
                    c.count("fault: bits flipped in a packet");
                    let k = c.s.below(p.len());
                    let bit = if c.s.chance(1, 2) { c.s.draw(32) } else { 16 + c.s.draw(16) };
                    p[k] ^= 1 << bit;
                    tr!(c, "t={t} sender {i}: bit {bit} of word {k} flipped");
                    c.ev(0x3000 + 64 * k as u64 + bit);
                }
                if copies > 0 && f.truncate > 0 && c.s.chance(f.truncate, 64) {
                    c.count("fault: packet cut short");
                    let k = c.s.below(p.len());
                    p.truncate(k);
                    c.ev(0x4000 + k as u64);
                }
                for _ in 0..copies {
                    let lat = 1 + c.s.draw(25);
                    let mut at = t + lat;
                    if f.reorder > 0 && c.s.chance(f.reorder, 64) {
                        c.count("fault: packet delayed past others");
                        at += c.s.draw(120);
                    } else {
                        at = at.max(senders[i].last_arrival);
                        senders[i].last_arrival = at;
                    }
                    push(&mut q, &mut evs, at, Ev::Arrive(i, p.clone()));
                }
                if !senders[i].queue.is_empty() {
                    let mut d = senders[i].period + c.s.draw(4);
                    if f.stall > 0 && c.s.chance(f.stall, 64) {
                        c.count("fault: sender stalled");
                        d += 500;
                    }
                    push(&mut q, &mut evs, t + d, Ev::Send(i));
                }
            }
            Ev::Arrive(i, p) => {
                tr!(c, "t={t} arrives from {i}: {}", hex32(&p));
                c.ev(i as u64 + 0x5000);
                if let Some(x) = p.first() {
                    c.ev(*x as u64);
                }
                deliver(c, i, p)?;
            }
        }
    }
    Ok(())
}
