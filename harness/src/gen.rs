//! Generators shared by the properties. Cases stay small (long contents are described, not spelled out), so that
//! they can be printed, hashed and shrunk.
use crate::sim::IoPlan;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Contents described by length and seed
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Blob {
    pub n: u32,
    pub s: u8,
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self.s {
            0 => vec![0; self.n as usize],
            255 => vec![255; self.n as usize],
            s => {
                let mut x = 0x9E37_79B9_7F4A_7C15u64.wrapping_mul(s as u64 + 1) ^ self.n as u64;
                (0..self.n)
                    .map(|_| {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        (x >> 32) as u8
                    })
                    .collect()
            }
        }
    }
}

pub fn blob(max: u32) -> BoxedStrategy<Blob> {
    let small = max.min(64);
    let mid = max.min(3000);
    prop_oneof![
        4 => (0..=small, any::<u8>()),
        2 => (0..=mid, any::<u8>()),
        1 => (0..=max, any::<u8>()),
    ]
    .prop_map(|(n, s)| Blob { n, s })
    .boxed()
}

/// Contents of 2^min to 2^max bytes, a little more or less
pub fn huge_blob(min: u32, max: u32) -> BoxedStrategy<Blob> {
    (min..=max, -2i64..3, any::<u8>()).prop_map(|(k, d, s)| Blob { n: ((1i64 << k) + d) as u32, s }).boxed()
}

/// Texts described by their characters or by repetition
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Text {
    Lit(String),
    Rep(char, u32),
}

impl Text {
    pub fn get(&self) -> String {
        match self {
            Text::Lit(s) => s.clone(),
            Text::Rep(c, n) => c.to_string().repeat(*n as usize),
        }
    }
}

pub fn chars() -> BoxedStrategy<char> {
    prop_oneof![
        6 => proptest::char::range('a', 'z'),
        2 => proptest::char::range(' ', '~'),
        1 => Just('\0'),
        1 => prop::sample::select(vec!['é', 'ß', '中', '\u{10FFFF}', '\u{200B}', '😀', '\n', '\u{7F}']),
        1 => any::<char>(),
    ]
    .boxed()
}

pub fn text(max_len: usize) -> BoxedStrategy<String> {
    vec(chars(), 0..=max_len).prop_map(|v| v.into_iter().collect()).boxed()
}

/// Names of events and namespaces; up to several thousand bytes
pub fn name() -> BoxedStrategy<Text> {
    prop_oneof![
        3 => prop::sample::select(vec!["a", "b", "ping", "pong", "end", "error", "response", "", "namespace", "x"])
            .prop_map(|s| Text::Lit(s.to_string())),
        5 => text(12).prop_map(Text::Lit),
        1 => (chars(), 200u32..6000).prop_map(|(c, n)| Text::Rep(c, n)),
    ]
    .boxed()
}

pub fn ids() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>(),
        3 => 0u64..20,
        1 => Just(u64::MAX),
    ]
    .boxed()
}

/// Splits and delays of one end of a connection
pub fn io_plan() -> BoxedStrategy<IoPlan> {
    prop_oneof![
        1 => Just(IoPlan::default()),
        4 => (
            vec(prop_oneof![1u16..8, 1u16..300], 0..4),
            vec(prop_oneof![1u16..8, 1u16..300], 0..4),
            vec(0u8..3, 0..4),
            vec(0u8..3, 0..4),
            vec(0u8..3, 0..4),
            prop_oneof![Just(0u32), 1u32..64, 64u32..4096],
            prop_oneof![3 => Just(0u32), 1 => 1u32..64, 1 => 64u32..4096],
        )
            .prop_map(|(rd, wr, rd_pend, wr_pend, fl_pend, cap, buffered)| IoPlan {
                rd, wr, rd_pend, wr_pend, fl_pend, cap, buffered, ..IoPlan::default()
            }),
    ]
    .boxed()
}

/// Plans for connections that also carry long events: very small splits are rare
pub fn io_plan_coarse() -> BoxedStrategy<IoPlan> {
    prop_oneof![
        2 => Just(IoPlan::default()),
        3 => (
            vec(prop_oneof![20u16..300, 100u16..5000], 0..4),
            vec(prop_oneof![20u16..300, 100u16..5000], 0..4),
            vec(0u8..3, 0..4),
            vec(0u8..3, 0..4),
            vec(0u8..3, 0..4),
            prop_oneof![Just(0u32), 16u32..4096],
            prop_oneof![3 => Just(0u32), 1 => 64u32..4096],
        )
            .prop_map(|(rd, wr, rd_pend, wr_pend, fl_pend, cap, buffered)| IoPlan {
                rd, wr, rd_pend, wr_pend, fl_pend, cap, buffered, ..IoPlan::default()
            }),
    ]
    .boxed()
}

pub fn opt<S: Strategy + 'static>(s: S) -> BoxedStrategy<Option<S::Value>>
where
    S::Value: Clone + std::fmt::Debug,
{
    option::of(s).boxed()
}
