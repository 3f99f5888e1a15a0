use crate::Tok;
use ragu_core::maybe::{Maybe, MaybeKind, Perhaps};

pub fn split_tuple<K: MaybeKind>(parts: Vec<Perhaps<K, Tok>>) -> Vec<Perhaps<K, Tok>> {
    match parts.len() {
        2 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take()));
            let (a0, a1) = t.cast::<(_, _)>();
            vec![a0, a1]
        }
        3 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take()));
            let (a0, a1, a2) = t.cast::<(_, _, _)>();
            vec![a0, a1, a2]
        }
        4 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take()));
            let (a0, a1, a2, a3) = t.cast::<(_, _, _, _)>();
            vec![a0, a1, a2, a3]
        }
        5 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take()));
            let (a0, a1, a2, a3, a4) = t.cast::<(_, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4]
        }
        6 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take()));
            let (a0, a1, a2, a3, a4, a5) = t.cast::<(_, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5]
        }
        7 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take()));
            let (a0, a1, a2, a3, a4, a5, a6) = t.cast::<(_, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6]
        }
        8 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7) = t.cast::<(_, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7]
        }
        9 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8) = t.cast::<(_, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8]
        }
        10 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) = t.cast::<(_, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9]
        }
        11 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10]
        }
        12 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11]
        }
        13 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12]
        }
        14 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13]
        }
        15 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14]
        }
        16 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15]
        }
        17 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16]
        }
        18 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17]
        }
        19 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18]
        }
        20 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19]
        }
        21 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20]
        }
        22 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21]
        }
        23 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22]
        }
        24 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23]
        }
        25 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24]
        }
        26 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap(); let a25 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take(), a25.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25]
        }
        27 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap(); let a25 = it.next().unwrap(); let a26 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take(), a25.take(), a26.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26]
        }
        28 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap(); let a25 = it.next().unwrap(); let a26 = it.next().unwrap(); let a27 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take(), a25.take(), a26.take(), a27.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27]
        }
        29 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap(); let a25 = it.next().unwrap(); let a26 = it.next().unwrap(); let a27 = it.next().unwrap(); let a28 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take(), a25.take(), a26.take(), a27.take(), a28.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28]
        }
        30 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap(); let a25 = it.next().unwrap(); let a26 = it.next().unwrap(); let a27 = it.next().unwrap(); let a28 = it.next().unwrap(); let a29 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take(), a25.take(), a26.take(), a27.take(), a28.take(), a29.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29]
        }
        31 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap(); let a25 = it.next().unwrap(); let a26 = it.next().unwrap(); let a27 = it.next().unwrap(); let a28 = it.next().unwrap(); let a29 = it.next().unwrap(); let a30 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take(), a25.take(), a26.take(), a27.take(), a28.take(), a29.take(), a30.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30]
        }
        32 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap(); let a25 = it.next().unwrap(); let a26 = it.next().unwrap(); let a27 = it.next().unwrap(); let a28 = it.next().unwrap(); let a29 = it.next().unwrap(); let a30 = it.next().unwrap(); let a31 = it.next().unwrap();
            let t = K::maybe_just(|| (a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take(), a25.take(), a26.take(), a27.take(), a28.take(), a29.take(), a30.take(), a31.take()));
            let (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) = t.cast::<(_, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _, _)>();
            vec![a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31]
        }
        n => panic!("arity {n}"),
    }
}
pub fn split_array<K: MaybeKind>(parts: Vec<Perhaps<K, Tok>>) -> Vec<Perhaps<K, Tok>> {
    match parts.len() {
        0 => {
            let mut it = parts.into_iter();
            
            let t: Perhaps<K, [Tok; 0]> = K::maybe_just(|| []);
            let o: [Perhaps<K, Tok>; 0] = t.cast();
            o.into_iter().collect()
        }
        1 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap();
            let t: Perhaps<K, [Tok; 1]> = K::maybe_just(|| [a0.take()]);
            let o: [Perhaps<K, Tok>; 1] = t.cast();
            o.into_iter().collect()
        }
        2 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap();
            let t: Perhaps<K, [Tok; 2]> = K::maybe_just(|| [a0.take(), a1.take()]);
            let o: [Perhaps<K, Tok>; 2] = t.cast();
            o.into_iter().collect()
        }
        3 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap();
            let t: Perhaps<K, [Tok; 3]> = K::maybe_just(|| [a0.take(), a1.take(), a2.take()]);
            let o: [Perhaps<K, Tok>; 3] = t.cast();
            o.into_iter().collect()
        }
        4 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap();
            let t: Perhaps<K, [Tok; 4]> = K::maybe_just(|| [a0.take(), a1.take(), a2.take(), a3.take()]);
            let o: [Perhaps<K, Tok>; 4] = t.cast();
            o.into_iter().collect()
        }
        5 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap();
            let t: Perhaps<K, [Tok; 5]> = K::maybe_just(|| [a0.take(), a1.take(), a2.take(), a3.take(), a4.take()]);
            let o: [Perhaps<K, Tok>; 5] = t.cast();
            o.into_iter().collect()
        }
        8 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap();
            let t: Perhaps<K, [Tok; 8]> = K::maybe_just(|| [a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take()]);
            let o: [Perhaps<K, Tok>; 8] = t.cast();
            o.into_iter().collect()
        }
        13 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap();
            let t: Perhaps<K, [Tok; 13]> = K::maybe_just(|| [a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take()]);
            let o: [Perhaps<K, Tok>; 13] = t.cast();
            o.into_iter().collect()
        }
        32 => {
            let mut it = parts.into_iter();
            let a0 = it.next().unwrap(); let a1 = it.next().unwrap(); let a2 = it.next().unwrap(); let a3 = it.next().unwrap(); let a4 = it.next().unwrap(); let a5 = it.next().unwrap(); let a6 = it.next().unwrap(); let a7 = it.next().unwrap(); let a8 = it.next().unwrap(); let a9 = it.next().unwrap(); let a10 = it.next().unwrap(); let a11 = it.next().unwrap(); let a12 = it.next().unwrap(); let a13 = it.next().unwrap(); let a14 = it.next().unwrap(); let a15 = it.next().unwrap(); let a16 = it.next().unwrap(); let a17 = it.next().unwrap(); let a18 = it.next().unwrap(); let a19 = it.next().unwrap(); let a20 = it.next().unwrap(); let a21 = it.next().unwrap(); let a22 = it.next().unwrap(); let a23 = it.next().unwrap(); let a24 = it.next().unwrap(); let a25 = it.next().unwrap(); let a26 = it.next().unwrap(); let a27 = it.next().unwrap(); let a28 = it.next().unwrap(); let a29 = it.next().unwrap(); let a30 = it.next().unwrap(); let a31 = it.next().unwrap();
            let t: Perhaps<K, [Tok; 32]> = K::maybe_just(|| [a0.take(), a1.take(), a2.take(), a3.take(), a4.take(), a5.take(), a6.take(), a7.take(), a8.take(), a9.take(), a10.take(), a11.take(), a12.take(), a13.take(), a14.take(), a15.take(), a16.take(), a17.take(), a18.take(), a19.take(), a20.take(), a21.take(), a22.take(), a23.take(), a24.take(), a25.take(), a26.take(), a27.take(), a28.take(), a29.take(), a30.take(), a31.take()]);
            let o: [Perhaps<K, Tok>; 32] = t.cast();
            o.into_iter().collect()
        }
        n => panic!("array {n}"),
    }
}
