//! Interprets small programs over the witness-availability abstraction in both worlds and records,
//! after every instruction, the values, which closures ran with which arguments, the number of
//! live values and the error.
mod casts;
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind, Perhaps};
use std::cell::RefCell;
use vh::{J, Rng, Trace, arg, arg_u64, catch, jo};

thread_local! {
    static LOG: RefCell<Vec<J>> = const { RefCell::new(vec![]) };
    static LIVE: RefCell<i64> = const { RefCell::new(0) };
}
const M: i64 = 1009;
fn log(what: &str, v: i64) {
    LOG.with(|l| l.borrow_mut().push(jo! {"f" => what, "v" => v}));
}

/// A counted value.
pub struct Tok(i64);
impl Tok {
    fn new(v: i64) -> Tok {
        LIVE.with(|l| *l.borrow_mut() += 1);
        Tok(v.rem_euclid(M))
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        LIVE.with(|l| *l.borrow_mut() -= 1);
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        log("clone", self.0);
        Tok::new(self.0)
    }
}
struct Other(Tok);
impl From<Tok> for Other {
    fn from(t: Tok) -> Other {
        log("into", t.0);
        Other(t)
    }
}

fn run<K: MaybeKind>(prog: &[J]) -> Vec<J> {
    let mut regs: Vec<Perhaps<K, Tok>> = vec![];
    let mut obs = vec![];
    for st in prog {
        let o = st.get("o").s();
        let r = st.get("r").n().max(1) as usize - 1;
        let q = st.get("q").n().max(1) as usize - 1;
        let k = st.get("k").n();
        let mut step = || -> Result<(), i64> {
            match o {
                "just" => regs.push(K::maybe_just(|| {
                    log("just", k);
                    Tok::new(k)
                })),
                "mjust" => regs.push(<Perhaps<K, Tok> as Maybe<Tok>>::just(|| {
                    log("just", k);
                    Tok::new(k)
                })),
                "try" => regs.push(K::maybe_try_just(|| {
                    log("try", k);
                    if q > 0 { Err(k) } else { Ok(Tok::new(k)) }
                })?),
                "mtry" => regs.push(<Perhaps<K, Tok> as Maybe<Tok>>::try_just(|| {
                    log("try", k);
                    if q > 0 { Err(k) } else { Ok(Tok::new(k)) }
                })?),
                "map" => {
                    let x = regs.remove(r);
                    let y = x.map(|t| {
                        log("map", t.0);
                        Tok::new(t.0 * 3 + k)
                    });
                    regs.insert(r, y);
                }
                "andthen" => {
                    let x = regs.remove(r);
                    let y = x.and_then(|t| {
                        log("and", t.0);
                        K::maybe_just(|| {
                            log("just", t.0);
                            Tok::new(t.0 * 5 + k)
                        })
                    });
                    regs.insert(r, y);
                }
                "zip" => {
                    // consumes both, the later register first
                    let (a, b) = if r < q {
                        let b = regs.remove(q);
                        (regs.remove(r), b)
                    } else {
                        let a = regs.remove(r);
                        (a, regs.remove(q))
                    };
                    let y = a.and_then(|x| {
                        log("and", x.0);
                        b.map(|y| {
                            log("map", y.0);
                            Tok::new(x.0 * 7 + y.0 + k)
                        })
                    });
                    regs.push(y);
                }
                "clone" => {
                    let c = Maybe::clone(&regs[r]);
                    regs.push(c);
                }
                "into" => {
                    let x = regs.remove(r);
                    let y: Perhaps<K, Other> = Maybe::into(x);
                    let z = y.map(|o| {
                        log("map", o.0.0);
                        o.0
                    });
                    regs.insert(r, z);
                }
                "asref" => {
                    let y = regs[r].as_ref().map(|t| {
                        log("ref", t.0);
                        Tok::new(t.0 + k)
                    });
                    regs.push(y);
                }
                "snag" => {
                    let y = K::maybe_just(|| {
                        let v = regs[r].snag().0;
                        log("snag", v);
                        Tok::new(v + k)
                    });
                    regs.push(y);
                }
                "asmut" => {
                    regs[r].as_mut().map(|t| {
                        log("mut", t.0);
                        t.0 = (t.0 * 2 + k).rem_euclid(M);
                    });
                }
                "tuple" | "array" => {
                    let tail = regs.split_off(r);
                    let out = if o == "tuple" {
                        casts::split_tuple::<K>(tail)
                    } else {
                        casts::split_array::<K>(tail)
                    };
                    regs.extend(out);
                }
                "drop" => {
                    regs.remove(r);
                }
                o => panic!("op {o}"),
            }
            Ok(())
        };
        let e = step();
        let seen = RefCell::new(vec![]);
        for x in &regs {
            K::maybe_just(|| seen.borrow_mut().push(x.snag().0));
        }
        let lg: Vec<J> = LOG.with(|l| l.borrow_mut().drain(..).collect());
        obs.push(jo! {"n" => regs.len(), "regs" => seen.into_inner(), "log" => lg,
        "live" => LIVE.with(|l| *l.borrow()), "err" => match e { Ok(()) => -1, Err(x) => x }});
        if e.is_err() {
            break;
        }
    }
    obs
}

fn size_events(t: &mut Trace) {
    use std::mem::size_of;
    macro_rules! sz {
        ($($t:ty),*) => {$(
            t.emit(jo! {"kind" => "size", "type" => stringify!($t), "bare" => size_of::<$t>(),
                "always" => size_of::<Perhaps<Always<()>, $t>>(), "empty" => size_of::<Perhaps<Empty, $t>>()});
        )*};
    }
    sz!((), bool, u8, u64, u128, [u8; 32], (u8, u64), Option<Box<u8>>, String, [(u8, u16); 7], &'static u8);
}

fn random(r: &mut Rng, len: usize) -> Vec<J> {
    let mut n = 0usize;
    let mut v = vec![];
    let grow = r.below(34);
    for _ in 0..len {
        let big = n < grow;
        let ops: &[&str] = if n == 0 || (big && r.chance(4, 5)) {
            &["just", "mjust", "try", "mtry"]
        } else {
            &["just", "try", "map", "andthen", "zip", "clone", "into", "asref", "snag", "asmut", "tuple", "tuple", "array", "drop"]
        };
        let o = *r.pick(ops);
        let (mut a, mut b) = (r.range(1, n.max(1)), 0);
        match o {
            "zip" => {
                if n < 2 {
                    continue;
                }
                b = r.range(1, n);
                if a == b {
                    continue;
                }
                n -= 1;
            }
            "tuple" => {
                let w = r.range(2, 32);
                if w > n {
                    continue;
                }
                a = n - w + 1;
            }
            "array" => {
                let w = *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 13, 32]);
                if w > n {
                    continue;
                }
                a = n - w + 1;
            }
            "drop" => n -= 1,
            "map" | "andthen" | "into" | "asmut" => {}
            "try" | "mtry" => {
                n += 1;
                b = if r.chance(1, 60) { 2 } else { 0 };
            }
            _ => n += 1,
        }
        v.push(jo! {"o" => o, "r" => a, "q" => b, "k" => r.below(1000)});
    }
    v
}

fn main() {
    vh::quiet_panics();
    let mut t = Trace::create(&arg("out").expect("--out"));
    let mut progs: Vec<J> = vec![];
    if let Some(p) = arg("scenarios") {
        progs.extend(vh::read_nd(&p));
    }
    let mut r = Rng::new(arg_u64("seed", 1));
    // every tuple and array arity, each with distinct values
    for w in 0..=32usize {
        for o in ["tuple", "array"] {
            if (o == "tuple" && w < 2) || (o == "array" && ![0, 1, 2, 3, 4, 5, 8, 13, 32].contains(&w)) {
                continue;
            }
            let mut v: Vec<J> = (0..w).map(|i| jo! {"o" => "just", "r" => 0, "q" => 0, "k" => 100 + 7 * i}).collect();
            v.push(jo! {"o" => o, "r" => 1, "q" => 0, "k" => 0});
            progs.push(J::A(v));
        }
    }
    for _ in 0..arg_u64("random", 300) {
        let n = r.range(5, 60);
        progs.push(J::A(random(&mut r, n)));
    }
    for p in progs {
        for world in ["always", "empty"] {
            LOG.with(|l| l.borrow_mut().clear());
            LIVE.with(|l| *l.borrow_mut() = 0);
            let o = catch(|| if world == "always" { run::<Always<()>>(p.a()) } else { run::<Empty>(p.a()) });
            let left = LIVE.with(|l| *l.borrow());
            t.emit(match o {
                Ok(o) => jo! {"kind" => "prog", "world" => world, "prog" => &p, "obs" => o, "left" => left},
                Err(e) => jo! {"kind" => "panic", "world" => world, "prog" => &p, "msg" => e},
            });
        }
    }
    size_events(&mut t);
    eprintln!("{} events", t.n);
}
