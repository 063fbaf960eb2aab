//! A stand-in for rand 0.8 whose every draw is a choice of the model checker.
//!
//! MC_CHOICES holds the choices, separated by commas. The n-th draw beyond them takes the alternative START + n * STEP
//! (counted round) if MC_FILL is "START STEP", the first one otherwise. Every draw
//! writes a line `mc-draw <number of alternatives>` to stderr, so that the checker learns what else could be drawn.
//! Draws from large domains are cut down to a menu of representatives.

use std::ops::{Range, RangeInclusive};

struct Script {
    choices: std::vec::IntoIter<usize>,
    next: usize,
    step: usize,
    drawn: usize,
}

fn pick(n: usize) -> usize {
    use std::sync::{Mutex, OnceLock};
    static SCRIPT: OnceLock<Mutex<Script>> = OnceLock::new();
    assert!(n > 0, "cannot sample empty range");
    let script = SCRIPT.get_or_init(|| {
        let numbers = |name: &str, by: char| -> Vec<usize> {
            std::env::var(name).unwrap_or_default().split(by).filter_map(|c| c.parse().ok()).collect()
        };
        let fill = numbers("MC_FILL", ' ');
        Mutex::new(Script {
            choices: numbers("MC_CHOICES", ',').into_iter(),
            next: fill.first().copied().unwrap_or(0),
            step: fill.get(1).copied().unwrap_or(0),
            drawn: 0,
        })
    });
    eprintln!("mc-draw {n}");
    let mut script = script.lock().unwrap();
    let choice = match script.choices.next() {
        Some(c) => c,
        None => {
            let c = script.next;
            script.drawn += 1;
            // no generator gives the same answer for ever, and a program may wait for another one
            let step = if script.drawn > 20_000 && script.step == 0 { 1 } else { script.step };
            script.next = c.wrapping_add(step);
            c
        }
    };
    choice % n
}

/// Values of the types themselves.
pub trait Draw: Sized {
    fn draw() -> Self;
}

macro_rules! draw {
    ($($t:ty: $menu:expr;)*) => {$(
        impl Draw for $t {
            fn draw() -> Self {
                let menu: &[$t] = &$menu;
                menu[pick(menu.len())]
            }
        }
    )*};
}

draw! {
    bool: [false, true];
    // characters of one to four bytes, line breaks, markup, and three that are no characters
    u32: [0x61, 0xe9, 0x20ac, 0x1f600, 0, 0xa, 0xd, 0x5c, 0x2a, 0xd800, 0x11_0000, u32::MAX];
    char: ['a', 'é', '€', '😀', '\0', '\n', '\r', '\\', '*', char::MAX];
    u8: [b'a', 0, b'\n', b'\\', b'*', 0x7f, 0x80, 0xff];
    u16: [0x61, 0, 0xe9, 0xd800, 0xffff];
    u64: [0x61, 0, 1, u64::MAX];
    usize: [0x61, 0, 1, usize::MAX];
    u128: [0x61, 0, 1, u128::MAX];
    i8: [0x61, 0, -1, i8::MAX, i8::MIN];
    i16: [0x61, 0, -1, i16::MAX, i16::MIN];
    isize: [0x61, 0, -1, isize::MAX, isize::MIN];
    i32: [0x61, 0, -1, i32::MAX, i32::MIN];
    i64: [0x61, 0, -1, i64::MAX, i64::MIN];
    f32: [0.0, 0.25, 0.5, 0.75, 0.999];
    f64: [0.0, 0.25, 0.5, 0.75, 0.999];
}

impl<T: Draw, const N: usize> Draw for [T; N] {
    fn draw() -> Self {
        std::array::from_fn(|_| T::draw())
    }
}

impl<A: Draw, B: Draw> Draw for (A, B) {
    fn draw() -> Self {
        (A::draw(), B::draw())
    }
}

impl<T: Draw> Draw for Option<T> {
    fn draw() -> Self {
        if bool::draw() { Some(T::draw()) } else { None }
    }
}

pub trait SampleRange<T> {
    fn sample(self) -> T;
}

macro_rules! ranges {
    ($($t:ty)*) => {$(
        impl SampleRange<$t> for Range<$t> {
            fn sample(self) -> $t {
                assert!(self.start < self.end, "cannot sample empty range");
                (self.start..=self.end - 1).sample()
            }
        }
        impl SampleRange<$t> for RangeInclusive<$t> {
            fn sample(self) -> $t {
                let (a, b) = (*self.start(), *self.end());
                assert!(a <= b, "cannot sample empty range");
                let last = (b as i128 - a as i128) as u128;
                if last < 64 {
                    return (a as i128 + pick(last as usize + 1) as i128) as $t;
                }
                // the edges, the middle, and what makes characters of one to four bytes or none
                let menu: Vec<i128> = [0, 1, 2, last / 2, last - 1, last]
                    .into_iter()
                    .map(|d| a as i128 + d as i128)
                    .chain([0x61, 0xe9, 0x20ac, 0x1f600, 0xd800].into_iter().filter(|v| (a as i128..=b as i128).contains(v)))
                    .collect();
                menu[pick(menu.len())] as $t
            }
        }
    )*};
}

ranges! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize }

macro_rules! float_ranges {
    ($($t:ty)*) => {$(
        impl SampleRange<$t> for Range<$t> {
            fn sample(self) -> $t {
                self.start + <$t>::draw() * (self.end - self.start)
            }
        }
        impl SampleRange<$t> for RangeInclusive<$t> {
            fn sample(self) -> $t {
                self.start() + <$t>::draw() * (self.end() - self.start())
            }
        }
    )*};
}

float_ranges! { f32 f64 }

impl SampleRange<char> for RangeInclusive<char> {
    fn sample(self) -> char {
        let v: Vec<char> = [*self.start(), *self.end()].into_iter().chain(['a', 'é', '€', '😀']).filter(|c| self.contains(c)).collect();
        v[pick(v.len())]
    }
}

impl SampleRange<char> for Range<char> {
    fn sample(self) -> char {
        let v: Vec<char> = [self.start].into_iter().chain(['a', 'é', '€', '😀']).filter(|c| self.contains(c)).collect();
        v[pick(v.len())]
    }
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32 {
        u32::draw()
    }
    fn next_u64(&mut self) -> u64 {
        u64::draw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        dest.iter_mut().for_each(|b| *b = u8::draw());
    }
}

pub trait Rng: RngCore {
    fn gen<T: Draw>(&mut self) -> T {
        T::draw()
    }
    fn gen_range<T, R: SampleRange<T>>(&mut self, range: R) -> T {
        range.sample()
    }
    fn gen_bool(&mut self, p: f64) -> bool {
        p > 0.0 && (p >= 1.0 || bool::draw())
    }
    fn gen_ratio(&mut self, n: u32, d: u32) -> bool {
        n > 0 && (n >= d || bool::draw())
    }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T {
        d.sample(self)
    }
    fn sample_iter<T, D: distributions::Distribution<T>>(self, d: D) -> distributions::DistIter<D, Self, T>
    where
        Self: Sized,
    {
        d.sample_iter(self)
    }
    fn fill<T: Draw>(&mut self, dest: &mut [T]) {
        dest.iter_mut().for_each(|v| *v = T::draw());
    }
}

impl<R: RngCore + ?Sized> Rng for R {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}

pub trait SeedableRng: Sized {
    fn from_entropy() -> Self;
    fn seed_from_u64(_: u64) -> Self {
        Self::from_entropy()
    }
}

pub mod rngs {
    macro_rules! rng {
        ($($n:ident)*) => {$(
            #[derive(Clone, Debug, Default)]
            pub struct $n;
            impl crate::RngCore for $n {}
            impl crate::SeedableRng for $n {
                fn from_entropy() -> Self {
                    $n
                }
            }
        )*};
    }
    rng! { ThreadRng StdRng SmallRng OsRng }
}

pub fn thread_rng() -> rngs::ThreadRng {
    rngs::ThreadRng
}

pub fn random<T: Draw>() -> T {
    T::draw()
}

pub mod seq {
    pub trait SliceRandom {
        type Item;
        fn choose<R: crate::RngCore + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: crate::RngCore + ?Sized>(&mut self, rng: &mut R) -> Option<&mut Self::Item>;
        fn shuffle<R: crate::RngCore + ?Sized>(&mut self, rng: &mut R);
        fn choose_multiple<R: crate::RngCore + ?Sized>(&self, rng: &mut R, amount: usize) -> std::vec::IntoIter<&Self::Item>;
        fn choose_weighted<R, F, W>(&self, rng: &mut R, weight: F) -> Result<&Self::Item, crate::distributions::WeightedError>
        where
            R: crate::RngCore + ?Sized,
            F: Fn(&Self::Item) -> W,
            W: Default + PartialOrd;
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: crate::RngCore + ?Sized>(&self, _: &mut R) -> Option<&T> {
            if self.is_empty() { None } else { self.get(crate::pick(self.len())) }
        }
        fn choose_mut<R: crate::RngCore + ?Sized>(&mut self, _: &mut R) -> Option<&mut T> {
            if self.is_empty() { None } else { let i = crate::pick(self.len()); self.get_mut(i) }
        }
        fn shuffle<R: crate::RngCore + ?Sized>(&mut self, _: &mut R) {
            for i in (1..self.len()).rev() {
                self.swap(i, crate::pick(i + 1));
            }
        }
        fn choose_multiple<R: crate::RngCore + ?Sized>(&self, _: &mut R, amount: usize) -> std::vec::IntoIter<&T> {
            let mut left: Vec<&T> = self.iter().collect();
            let n = amount.min(left.len());
            let v: Vec<&T> = (0..n).map(|_| left.swap_remove(crate::pick(left.len()))).collect();
            v.into_iter()
        }
        fn choose_weighted<R, F, W>(&self, _: &mut R, weight: F) -> Result<&T, crate::distributions::WeightedError>
        where
            R: crate::RngCore + ?Sized,
            F: Fn(&T) -> W,
            W: Default + PartialOrd,
        {
            let v: Vec<&T> = self.iter().filter(|t| weight(t) > W::default()).collect();
            if v.is_empty() { Err(crate::distributions::WeightedError) } else { Ok(v[crate::pick(v.len())]) }
        }
    }
    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: crate::RngCore + ?Sized>(self, _: &mut R) -> Option<Self::Item> {
            let mut v: Vec<Self::Item> = self.collect();
            if v.is_empty() { None } else { let i = crate::pick(v.len()); Some(v.swap_remove(i)) }
        }
    }
    impl<I: Iterator> IteratorRandom for I {}
}

pub mod distributions {
    pub trait Distribution<T> {
        fn sample<R: crate::RngCore + ?Sized>(&self, rng: &mut R) -> T;
        fn sample_iter<R>(self, rng: R) -> DistIter<Self, R, T>
        where
            R: crate::RngCore,
            Self: Sized,
        {
            DistIter(self, rng, std::marker::PhantomData)
        }
    }
    impl<T, D: Distribution<T> + ?Sized> Distribution<T> for &D {
        fn sample<R: crate::RngCore + ?Sized>(&self, rng: &mut R) -> T {
            (**self).sample(rng)
        }
    }
    pub struct DistIter<D, R, T>(D, R, std::marker::PhantomData<T>);
    impl<D: Distribution<T>, R: crate::RngCore, T> Iterator for DistIter<D, R, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            Some(self.0.sample(&mut self.1))
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct WeightedError;
    impl std::fmt::Display for WeightedError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("no weights")
        }
    }
    impl std::error::Error for WeightedError {}
    /// Every index of a weight above zero is an alternative.
    pub struct WeightedIndex(Vec<usize>);
    impl WeightedIndex {
        pub fn new<I>(weights: I) -> Result<Self, WeightedError>
        where
            I: IntoIterator,
            I::Item: ToWeight,
        {
            let v: Vec<usize> = weights.into_iter().enumerate().filter(|(_, w)| w.positive()).map(|w| w.0).collect();
            if v.is_empty() { Err(WeightedError) } else { Ok(WeightedIndex(v)) }
        }
    }
    pub trait ToWeight {
        fn positive(&self) -> bool;
    }
    macro_rules! weights {
        ($($t:ty)*) => {$(
            impl ToWeight for $t {
                fn positive(&self) -> bool {
                    *self > 0 as $t
                }
            }
            impl ToWeight for &$t {
                fn positive(&self) -> bool {
                    **self > 0 as $t
                }
            }
        )*};
    }
    weights! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 }
    impl Distribution<usize> for WeightedIndex {
        fn sample<R: crate::RngCore + ?Sized>(&self, _: &mut R) -> usize {
            self.0[crate::pick(self.0.len())]
        }
    }
    pub struct Bernoulli(f64);
    impl Bernoulli {
        pub fn new(p: f64) -> Result<Self, WeightedError> {
            if (0.0..=1.0).contains(&p) { Ok(Bernoulli(p)) } else { Err(WeightedError) }
        }
    }
    impl Distribution<bool> for Bernoulli {
        fn sample<R: crate::RngCore + ?Sized>(&self, rng: &mut R) -> bool {
            crate::Rng::gen_bool(rng, self.0)
        }
    }
    pub struct Slice<'a, T>(&'a [T]);
    impl<'a, T> Slice<'a, T> {
        pub fn new(slice: &'a [T]) -> Result<Self, WeightedError> {
            if slice.is_empty() { Err(WeightedError) } else { Ok(Slice(slice)) }
        }
    }
    impl<'a, T> Distribution<&'a T> for Slice<'a, T> {
        fn sample<R: crate::RngCore + ?Sized>(&self, _: &mut R) -> &'a T {
            &self.0[crate::pick(self.0.len())]
        }
    }
    pub struct Standard;
    impl<T: crate::Draw> Distribution<T> for Standard {
        fn sample<R: crate::RngCore + ?Sized>(&self, _: &mut R) -> T {
            T::draw()
        }
    }
    pub struct Alphanumeric;
    impl Distribution<u8> for Alphanumeric {
        fn sample<R: crate::RngCore + ?Sized>(&self, _: &mut R) -> u8 {
            b"aZ0"[crate::pick(3)]
        }
    }
    pub struct Uniform<T>(T, T, bool);
    impl<T: Copy> Uniform<T> {
        pub fn new(a: T, b: T) -> Self {
            Uniform(a, b, false)
        }
        pub fn new_inclusive(a: T, b: T) -> Self {
            Uniform(a, b, true)
        }
    }
    impl<T: Copy> Distribution<T> for Uniform<T>
    where
        std::ops::Range<T>: crate::SampleRange<T>,
        std::ops::RangeInclusive<T>: crate::SampleRange<T>,
    {
        fn sample<R: crate::RngCore + ?Sized>(&self, _: &mut R) -> T {
            use crate::SampleRange;
            if self.2 { (self.0..=self.1).sample() } else { (self.0..self.1).sample() }
        }
    }
}

pub mod prelude {
    pub use crate::distributions::Distribution;
    pub use crate::rngs::{StdRng, ThreadRng};
    pub use crate::seq::{IteratorRandom, SliceRandom};
    pub use crate::{random, thread_rng, Rng, RngCore, SeedableRng};
}
