//! Exhaustive exploration: every generated (schema, input) state is executed once on every entry point.
use crate::enc::*;
use crate::ep::*;
use crate::model::{self, flag, M, Ty};
use crate::mon;
use crate::types::Case;
use crate::v::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub const MODEL: u32 = 1;
pub const PREFIX: u32 = 2;
pub const SUFFIX: u32 = 4;
pub const AGREE: u32 = 8;
pub const DERBER: u32 = 16;
pub const CANON: u32 = 32;
pub const REENC: u32 = 64;
pub const DEEP: u32 = 128;
pub const STATIC: u32 = 256;
/// accounting of the encoders only
pub const ACCT: u32 = 512;
pub const MEM: u32 = 1024;

/// case and entry point (or encoder) a deviation is seen at
pub type At<'a> = (&'a str, &'a str);

fn glob(p: &str, s: &str) -> bool {
    match p.split_once('*') {
        None => p == s,
        Some((h, t)) => s.strip_prefix(h).is_some_and(|r| (0..=r.len()).any(|i| r.is_char_boundary(i) && glob(t, &r[i..]))),
    }
}

pub struct Known {
    pub flag: u32,
    pub key: String,
    /// patterns `case/entry point`; empty: everywhere
    pub at: Vec<String>,
    pub what: String,
}

impl Known {
    fn covers(&self, at: At) -> bool {
        self.at.is_empty() || {
            let s = format!("{}/{}", at.0, at.1);
            self.at.iter().any(|p| glob(p, &s))
        }
    }
}

pub struct Viol {
    pub case: String,
    pub key: String,
    pub input: Vec<u8>,
    pub detail: String,
}

pub struct Ctx {
    pub prop: &'static str,
    pub thorough: bool,
    pub dir: String,
    pub known: Vec<Known>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub viols: Mutex<Vec<Viol>>,
    /// where the known deviations were met, for maintenance (MC_SITES)
    pub sites: Option<Mutex<std::collections::BTreeSet<String>>>,
    pub seen_known: Mutex<BTreeMap<usize, (u64, String)>>,
    pub filter: Option<(String, String)>,
    pub samples: Mutex<Vec<String>>,
    pub sections: Mutex<Vec<String>>,
    pub start: std::time::Instant,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let t = format!("{loc}: {msg}");
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("{t}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = t);
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn h128(b: &[u8]) -> u128 {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut a);
    let mut c = std::collections::hash_map::DefaultHasher::new();
    0x9e3779b97f4a7c15u64.hash(&mut c);
    b.hash(&mut c);
    (a.finish() as u128) << 64 | c.finish() as u128
}

pub struct Seen([Mutex<HashSet<u128>>; 16]);
impl Seen {
    pub fn new() -> Seen {
        Seen(Default::default())
    }
    /// true when new
    pub fn add(&self, b: &[u8]) -> bool {
        let h = h128(b);
        self.0[(h & 15) as usize].lock().unwrap().insert(h)
    }
}

pub type Gen<'g> = Box<dyn Fn(&mut dyn FnMut(Vec<u8>)) + Send + Sync + 'g>;
pub struct Unit<'g> {
    pub case: usize,
    pub gen: Gen<'g>,
}

pub fn expected(ep_shape: Shape, ty: &Ty) -> Ty {
    match ep_shape {
        Shape::Main => ty.clone(),
        Shape::Opt => Ty::Opt(Box::new(ty.clone())),
        Shape::AsIn => Ty::AsInput(Box::new(ty.clone())),
    }
}

fn matches(out: &Out, m: &M) -> bool {
    match (out, m) {
        (Out::Ok(n, v), M::Acc { n: m, v: w, .. }) => n == m && v == w,
        (Out::Err { .. }, M::Rej) => true,
        (Out::Err { .. }, M::Acc { must, .. }) => !must,
        _ => false,
    }
}

impl Ctx {
    /// flags that make the model reproduce `out`
    pub fn explain(&self, ty: &Ty, der: bool, b: &[u8], out: &Out, at: At) -> Option<u32> {
        let (_, used) = model::run(ty, der, flag::ALL, b);
        let (_, u0) = model::run(ty, der, 0, b);
        let all = used | u0;
        let bits: Vec<u32> = (0..32).map(|i| 1u32 << i).filter(|f| all & f != 0).collect();
        let mut cand: Vec<u32> = bits.clone();
        for i in 0..bits.len() {
            for j in i + 1..bits.len() {
                cand.push(bits[i] | bits[j]);
            }
        }
        cand.push(all);
        let ok: Vec<u32> = cand.into_iter().filter(|f| matches(out, &model::run(ty, der, *f, b).0)).collect();
        ok.iter().find(|f| self.is_known_flag(**f, at)).or(ok.first()).copied()
    }

    /// are all these deviations recorded for this place?
    fn is_known_flag(&self, f: u32, at: At) -> bool {
        (0..32).map(|i| 1u32 << i).filter(|b| f & b != 0).all(|b| self.known.iter().any(|k| k.flag == b && k.covers(at)))
    }

    pub fn hit_known(&self, idx: usize, what: String) {
        let mut g = self.seen_known.lock().unwrap();
        let e = g.entry(idx).or_insert((0, what));
        e.0 += 1;
    }

    fn hit_flags(&self, f: u32, at: At, what: &dyn Fn() -> String) {
        if let Some(g) = &self.sites {
            for b in (0..32).map(|i| 1u32 << i).filter(|b| f & b != 0) {
                g.lock().unwrap().insert(format!("{}\t{}\t{}", flag::name(b), at.1, at.0));
            }
        }
        for (i, k) in self.known.iter().enumerate() {
            if k.flag & f != 0 && k.covers(at) {
                self.hit_known(i, what());
            }
        }
    }

    /// report a failing check
    pub fn fail(&self, case: &str, key: &str, input: &[u8], detail: String) {
        if let Some((c, k)) = &self.filter {
            if (!c.is_empty() && c != case) || (!k.is_empty() && k != key) {
                return;
            }
        }
        if let Some((i, _)) = self.known.iter().enumerate().find(|(_, k)| {
            !k.key.is_empty() && {
                let full = format!("{case}|{key}|{}", hex(input));
                if let Some(p) = k.key.strip_suffix('*') {
                    full.starts_with(p)
                } else {
                    full == k.key
                }
            }
        }) {
            self.hit_known(i, format!("{case} {key} {}", hex(input)));
            return;
        }
        let mut g = self.viols.lock().unwrap();
        let same = g.iter().filter(|v| v.case == case && v.key == key).count();
        if same < 2 && g.len() < 400 {
            g.push(Viol { case: case.to_string(), key: key.to_string(), input: input.to_vec(), detail });
        } else if let Some(v) = g.iter_mut().find(|v| v.case == case && v.key == key && v.input.len() > input.len()) {
            *v = Viol { case: case.to_string(), key: key.to_string(), input: input.to_vec(), detail };
        }
    }

    fn run_ep(&self, case: &Case, ep: &Ep, b: &[u8], mask: u32) -> Out {
        mon::enter(case.name, b);
        let (r, peak) = mon::with_peak(|| guard(|| (ep.f)(b)));
        mon::leave();
        self.traces.fetch_add(1, Relaxed);
        let out = match r {
            Ok(o) => o,
            Err(p) => Out::Panic(p),
        };
        match &out {
            Out::Panic(p) => self.fail(case.name, &format!("{}: panic", ep.name), b, p.clone()),
            Out::Broken(s) => self.fail(case.name, &format!("{}: inconsistent result", ep.name), b, s.clone()),
            _ => (),
        }
        if mask & MEM != 0 && peak > 16384 + 2048 * b.len() {
            self.fail(case.name, &format!("{}: memory", ep.name), b, format!("{peak} octets held for an input of {}", b.len()));
        }
        out
    }

    pub fn judge(&self, case: &Case, b: &[u8], mask: u32, sel: &(dyn Fn(&Ep) -> bool + Sync)) {
        let mut models: HashMap<(bool, u8), M> = HashMap::new();
        let mut outs: Vec<(usize, Out)> = vec![];
        for (i, ep) in case.eps.iter().enumerate() {
            if !sel(ep) {
                continue;
            }
            let out = self.run_ep(case, ep, b, mask);
            outs.push((i, out));
        }
        let mut mm = |der: bool, sh: Shape| -> M {
            models.entry((der, sh as u8)).or_insert_with(|| model::run(&expected(sh, &case.ty), der, 0, b).0).clone()
        };
        if mask & (MODEL | PREFIX | SUFFIX) != 0 {
            for (i, out) in &outs {
                let ep = &case.eps[*i];
                let m = mm(ep.der, ep.shape);
                if matches!(out, Out::Panic(_) | Out::Broken(_)) {
                    continue;
                }
                let ok = matches(out, &m);
                if mask & MODEL != 0 && !ok {
                    let ty = expected(ep.shape, &case.ty);
                    let at = (case.name, ep.name);
                    match self.explain(&ty, ep.der, b, out, at) {
                        Some(f) if self.is_known_flag(f, at) => self.hit_flags(f, at, &|| format!("{} {} on {}", case.name, ep.name, hex(b))),
                        ex => {
                            let fl: Vec<&str> = (0..32).map(|i| 1u32 << i).filter(|x| ex.unwrap_or(0) & x != 0).map(flag::name).collect();
                            self.fail(
                                case.name,
                                &format!("{}: {}", ep.name, if let Out::Ok(..) = out { if m == M::Rej { "accepted" } else { "value" } } else { "refused" }),
                                b,
                                format!("got {out:?}; expected {m:?} {fl:?}"),
                            )
                        }
                    }
                }
                if mask & PREFIX != 0 {
                    if let Out::Ok(n, _) = out {
                        if *n > 0 && *n <= 80 {
                            for k in (0..*n).rev() {
                                let o2 = self.run_ep(case, ep, &b[..k], 0);
                                self.transitions.fetch_add(1, Relaxed);
                                let good = match &o2 {
                                    Out::Err { inc } => *inc || model::cut_in_tag(&b[..k]),
                                    Out::Ok(0, V::None) => k == 0 && (ep.shape == Shape::Opt || matches!(case.ty, Ty::Opt(_) | Ty::OptTagged(..))),
                                    Out::Panic(_) | Out::Broken(_) => true,
                                    _ => false,
                                };
                                if !good {
                                    self.fail(case.name, &format!("{}: truncation", ep.name), &b[..k], format!("first {k} of {n} octets of {}: {o2:?}", hex(&b[..*n])));
                                }
                            }
                        }
                    }
                }
                if mask & SUFFIX != 0 {
                    if let Out::Ok(n, v) = out {
                        if *n > 0 {
                            let mut tails: Vec<&[u8]> = vec![&[], &[0], &[0, 0], &[0x80], &[0xff], &[0x30], &[0x30, 0x80], &[5, 0], &[0x1f], &[0x1f, 0x81], &[2, 0x84, 0xff, 0xff, 0xff, 0xff]];
                            let own = b[..*n].to_vec();
                            tails.push(&own);
                            for t in tails {
                                let x = [&b[..*n], t].concat();
                                let o2 = self.run_ep(case, ep, &x, 0);
                                self.transitions.fetch_add(1, Relaxed);
                                if o2 != Out::Ok(*n, v.clone()) && !nan(v) {
                                    self.fail(case.name, &format!("{}: trailing data", ep.name), &x, format!("{}: {out:?}; followed by {}: {o2:?}", hex(&b[..*n]), hex(t)));
                                }
                            }
                        }
                    }
                }
            }
        }
        if mask & AGREE != 0 {
            for der in [false, true] {
                for sh in [Shape::Main, Shape::Opt, Shape::AsIn] {
                    let g: Vec<&(usize, Out)> = outs.iter().filter(|(i, o)| case.eps[*i].der == der && case.eps[*i].shape == sh && !matches!(o, Out::Panic(_) | Out::Broken(_))).collect();
                    if g.len() < 2 {
                        continue;
                    }
                    // `Any::x()` interprets the contents whatever the tag class says
                    for p in &g[1..] {
                        let (a, c) = (&g[0].1, &p.1);
                        let same = match (a, c) {
                            (Out::Ok(n, v), Out::Ok(m, w)) => n == m && v == w,
                            (Out::Err { .. }, Out::Err { .. }) => true,
                            _ => false,
                        };
                        if !same {
                            let ty = expected(sh, &case.ty);
                            let (aa, ac) = ((case.name, case.eps[g[0].0].name), (case.name, case.eps[p.0].name));
                            let ea = if matches(a, &mm(der, sh)) { Some(0) } else { self.explain(&ty, der, b, a, aa) };
                            let ec = if matches(c, &mm(der, sh)) { Some(0) } else { self.explain(&ty, der, b, c, ac) };
                            if let (Some(x), Some(y)) = (ea, ec) {
                                if x | y != 0 && self.is_known_flag(x, aa) && self.is_known_flag(y, ac) {
                                    let what = || format!("{} {} / {} on {}", case.name, case.eps[g[0].0].name, case.eps[p.0].name, hex(b));
                                    self.hit_flags(x, aa, &what);
                                    self.hit_flags(y, ac, &what);
                                    continue;
                                }
                            }
                            self.fail(
                                case.name,
                                &format!("{} and {} disagree", case.eps[g[0].0].name, case.eps[p.0].name),
                                b,
                                format!("{a:?} / {c:?}, flags {ea:?} {ec:?}"),
                            );
                        }
                    }
                }
            }
        }
        if mask & DERBER != 0 {
            for sh in [Shape::Main, Shape::Opt, Shape::AsIn] {
                let Some((j, bo)) = outs.iter().find(|(i, _)| !case.eps[*i].der && case.eps[*i].shape == sh) else { continue };
                for (i, o) in outs.iter().filter(|(i, _)| case.eps[*i].der && case.eps[*i].shape == sh) {
                    if let Out::Ok(n, v) = o {
                        let good = matches!(bo, Out::Ok(m, w) if m == n && w == v);
                        if !good && !matches!(bo, Out::Panic(_)) {
                            self.fail(case.name, &format!("{} accepts, {} differs", case.eps[*i].name, case.eps[*j].name), b, format!("DER {o:?}, BER {bo:?}"));
                        }
                    }
                }
            }
        }
        if mask & CANON != 0 {
            for (i, o) in outs.iter().filter(|(i, _)| case.eps[*i].der && case.eps[*i].shape == Shape::Main) {
                if let Out::Ok(n, v) = o {
                    if let Some(c) = model::encode(&case.ty, v, true) {
                        if c != b[..*n] && !trailing_members(case, b) {
                            let ep = &case.eps[*i];
                            let at = (case.name, ep.name);
                                match self.explain(&case.ty, true, b, o, at) {
                                Some(f) if self.is_known_flag(f, at) => self.hit_flags(f, at, &|| format!("{} {} on {}", case.name, ep.name, hex(b))),
                                ex => self.fail(case.name, &format!("{}: not canonical", ep.name), b, format!("accepted {}, but the DER encoding of {v:?} is {} {ex:?}", hex(&b[..*n]), hex(&c))),
                            }
                        }
                    }
                }
            }
        }
        if mask & (REENC | ACCT | CANON) != 0 {
            for e in &case.encs {
                if mask & (REENC | ACCT) == 0 && !(e.from_der && e.der) {
                    continue;
                }
                self.judge_enc(case, e, b, mask);
            }
        }
        if mask & STATIC != 0 {
            for (name, f) in &case.stat {
                mon::enter(case.name, b);
                let r = guard(|| f(b));
                mon::leave();
                match r {
                    Ok(None) => (),
                    Ok(Some(r)) => {
                        self.traces.fetch_add(1, Relaxed);
                        if let Err(s) = r {
                            self.fail(case.name, name, b, s);
                        }
                    }
                    Err(p) => self.fail(case.name, &format!("{name}: panic"), b, p),
                }
            }
        }
    }

    fn judge_enc(&self, case: &Case, e: &Enc, b: &[u8], mask: u32) {
        mon::enter(case.name, b);
        let r = guard(|| (e.f)(b, mask & DEEP != 0));
        mon::leave();
        let ro = match r {
            Ok(None) => return,
            Ok(Some(r)) => r,
            Err(p) => {
                self.fail(case.name, &format!("{}: panic", e.name), b, p);
                return;
            }
        };
        self.traces.fetch_add(ro.execs, Relaxed);
        if e.der && model::no_such_instant(&ro.v) {
            return;
        }
        // two spellings of one element (02 00, 1f 02 00) are two members of an `AnySet`; what
        // that writes in DER is nothing the decoder has to take
        if let (V::Set(l), true, "AnySet") = (&ro.v, e.der, case.name) {
            if l.iter().enumerate().any(|(i, x)| l[..i].iter().any(|y| model::strip(x) == model::strip(y))) {
                return;
            }
        }
        // what was decoded must be the agreed value; otherwise the decoding checks speak
        let (_, _) = (&ro.n, &ro.v);
        let want = model::encode(&case.ty, &ro.v, e.der);
        match ro.enc {
            Err(s) => {
                if mask & (ACCT | REENC) != 0 {
                    self.fail(case.name, &format!("{}: accounting", e.name), b, format!("value {:?}: {s}", ro.v))
                }
            }
            Ok(None) => {
                if mask & (REENC | ACCT) != 0 && want.is_some() {
                    self.fail(case.name, &format!("{}: refused", e.name), b, format!("{:?} has the encoding {}", ro.v, hex(&want.unwrap())));
                }
            }
            Ok(Some(enc)) => {
                if mask & CANON != 0 && e.from_der && e.der && enc != b[..ro.n] && !trailing_members(case, b) {
                    let o = Out::Ok(ro.n, ro.v.clone());
                    let strict = model::run(&case.ty, true, 0, b).0;
                    let at = (case.name, e.name);
                    match self.explain(&case.ty, true, b, &o, at) {
                        Some(f) if !matches(&o, &strict) && self.is_known_flag(f, at) => self.hit_flags(f, at, &|| format!("{} on {}", case.name, hex(b))),
                        _ if self.known_form(case, &enc, &ro.v) => (),
                        // machine floats stand for every number that rounds to them
                        _ if matches!(case.name, "f64" | "f32") && matches!(&model::run(&case.ty, true, 0, &enc).0, M::Acc { v, .. } if *v == ro.v) => (),
                        _ => self.fail(case.name, &format!("{}: not reproduced", e.name), b, format!("{} decodes and encodes to {}", hex(&b[..ro.n]), hex(&enc))),
                    }
                }
                if mask & REENC == 0 {
                    return;
                }
                if let Some(w) = &want {
                    if e.der && &enc != w && !self.known_form(case, &enc, &ro.v) {
                        self.fail(case.name, &format!("{}: not the DER encoding", e.name), b, format!("{:?} encodes to {}, DER is {}", ro.v, hex(&enc), hex(w)));
                        return;
                    }
                }
                // the model must read the value back
                let sv = model::strip(&model::written(&case.ty, &ro.v, e.der));
                let back = model::run(&case.ty, e.der, 0, &enc).0;
                let okm = match &back {
                    M::Acc { n, v, .. } => *n == enc.len() && model::strip(v) == sv,
                    _ => false,
                };
                let none = enc.is_empty() && ro.v == V::None;
                if !okm && !none {
                    let o = Out::Ok(enc.len(), model::written(&case.ty, &ro.v, e.der));
                    let at = (case.name, "writes");
                    match self.explain(&case.ty, e.der, &enc, &o, at) {
                        Some(f) if self.is_known_flag(f, at) => self.hit_flags(f, at, &|| format!("{} on {}", case.name, hex(b))),
                        _ => self.fail(case.name, &format!("{}: denotes another value", e.name), b, format!("{:?} encodes to {}, which denotes {back:?}", ro.v, hex(&enc))),
                    }
                }
                // and so must the decoders
                for ep in case.eps.iter().filter(|ep| ep.shape == Shape::Main && (!ep.der || e.der)) {
                    if none {
                        continue;
                    }
                    let o = self.run_ep(case, ep, &enc, mask);
                    let good = match &o {
                        Out::Ok(n, v) => *n == enc.len() && model::strip(v) == sv,
                        Out::Panic(_) | Out::Broken(_) => true,
                        _ => false,
                    };
                    if !good {
                        self.fail(case.name, &format!("{}, {}: does not come back", e.name, ep.name), b, format!("{:?} encodes to {}, read back as {o:?}", ro.v, hex(&enc)));
                    }
                }
            }
        }
    }

    /// is what the encoder wrote a DER encoding only up to recorded deviations?
    fn known_form(&self, case: &Case, enc: &[u8], v: &V) -> bool {
        let o = Out::Ok(enc.len(), v.clone());
        let at = (case.name, "writes");
        match self.explain(&case.ty, true, enc, &o, at) {
            Some(f) if f != 0 && self.is_known_flag(f, at) && !matches(&o, &model::run(&case.ty, true, 0, enc).0) => {
                self.hit_flags(f, at, &|| format!("{} writes {}", case.name, hex(enc)));
                true
            }
            _ => false,
        }
    }

    /// run every unit on all cores
    pub fn sweep(&self, cases: &[Case], units: Vec<Unit>, mask: u32, sel: &(dyn Fn(&Ep) -> bool + Sync)) {
        let seen: Vec<Seen> = cases.iter().map(|_| Seen::new()).collect();
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads() {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= units.len() {
                            break;
                        }
                        let u = &units[i];
                        let case = &cases[u.case];
                        (u.gen)(&mut |b: Vec<u8>| {
                            self.transitions.fetch_add(1, Relaxed);
                            if !seen[u.case].add(&b) {
                                return;
                            }
                            self.states.fetch_add(1, Relaxed);
                            self.sample(case.name, &b);
                            self.judge(case, &b, mask, sel);
                        });
                    })
                    .unwrap();
            }
        });
    }

    fn sample(&self, name: &str, b: &[u8]) {
        if b.len() <= 24 && self.states.load(Relaxed) % 65_537 == 1 {
            let mut g = self.samples.lock().unwrap();
            if g.len() < 12 {
                g.push(format!("{name} <- {}", hex(b)));
            }
        }
    }

    /// a directed check outside the registry: `key` identifies the object, f decides
    pub fn check(&self, section: &str, key: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if let Some((c, k)) = &self.filter {
            if c != section || (!k.is_empty() && k != &key()) {
                return;
            }
        }
        self.states.fetch_add(1, Relaxed);
        self.transitions.fetch_add(1, Relaxed);
        self.traces.fetch_add(1, Relaxed);
        let r = guard(f);
        match r {
            Ok(Ok(())) => (),
            Ok(Err(s)) => self.fail_sec(section, &key(), s),
            Err(p) => self.fail_sec(section, &key(), format!("panic {p}")),
        }
    }

    fn fail_sec(&self, section: &str, key: &str, s: String) {
        if let Some((i, _)) = self.known.iter().enumerate().find(|(_, k)| {
            !k.key.is_empty() && {
                let full = format!("{section}|{key}");
                k.key.strip_suffix('*').map_or(full == k.key, |p| full.starts_with(p))
            }
        }) {
            self.hit_known(i, format!("{section} {key}: {s}"));
            return;
        }
        let mut g = self.viols.lock().unwrap();
        if g.iter().filter(|v| v.case == section).count() < 40 && g.len() < 400 {
            g.push(Viol { case: section.to_string(), key: key.to_string(), input: vec![], detail: s });
        }
    }

    /// split independent jobs over all cores
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads() {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= items.len() {
                            break;
                        }
                        f(&items[i]);
                    })
                    .unwrap();
            }
        });
    }
}

fn nan(v: &V) -> bool {
    matches!(v, V::F(Fl(x, _)) if x.is_nan())
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
}

/// derived decoders document that they ignore unknown trailing members of a SEQUENCE or SET
fn trailing_members(case: &Case, b: &[u8]) -> bool {
    case.group == "derived" && matches!(model::run(&case.ty, true, 0, b).0, M::Acc { must: false, .. })
}

/// `Err` unless both are equal
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($w:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if *a != *b {
            return Err(format!("{}: {:?}, expected {:?}", format!($($w)*), a, b));
        }
    }};
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($w:tt)*) => {
        if !$c {
            return Err(format!($($w)*));
        }
    };
}

impl Ctx {
    /// a batch of `n` states
    pub fn batch(&self, section: &str, key: &dyn Fn() -> String, n: u64, f: impl FnOnce() -> Result<(), String>) {
        self.check(section, key, f);
        self.states.fetch_add(n.saturating_sub(1), Relaxed);
        self.transitions.fetch_add(n.saturating_sub(1), Relaxed);
        self.traces.fetch_add(n.saturating_sub(1), Relaxed);
    }

    /// run a section, reporting its size and time
    pub fn section(&self, label: &str, f: impl FnOnce()) {
        let s0 = self.states.load(SeqCst);
        let t0 = std::time::Instant::now();
        f();
        self.sections.lock().unwrap().push(format!("{label}: {} states, {:.1} s", self.states.load(SeqCst) - s0, t0.elapsed().as_secs_f64()));
    }
}
