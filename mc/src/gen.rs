//! Enumerators of inputs: exhaustive short strings and deviation-bounded variants of encodings.
use crate::model::*;

#[derive(Clone, Debug)]
pub enum Kids {
    Leaf(Vec<u8>),
    Nodes(Vec<Node>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub kids: Kids,
    /// octets to use instead of the computed identifier / length / contents
    pub ident: Option<Vec<u8>>,
    pub form: Form,
    pub eoc: Option<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Form {
    Min,
    /// long form with exactly k octets
    Long(usize),
    Indef,
    Raw(Vec<u8>),
    /// announce a length off by this much
    Off(i64),
}

impl Node {
    pub fn new(class: u8, cons: bool, tag: u32, kids: Kids) -> Node {
        Node { class, cons, tag, kids, ident: None, form: Form::Min, eoc: None }
    }
    pub fn enc(&self, out: &mut Vec<u8>) {
        match &self.ident {
            Some(i) => out.extend_from_slice(i),
            None => enc_tag(self.class, self.cons, self.tag, out),
        }
        let mut c = vec![];
        match &self.kids {
            Kids::Leaf(b) => c.extend_from_slice(b),
            Kids::Nodes(ns) => {
                for n in ns {
                    n.enc(&mut c);
                }
            }
        }
        match &self.form {
            Form::Min => enc_len(c.len(), out),
            Form::Long(k) => {
                out.push(0x80 | *k as u8);
                let l = (c.len() as u128).to_be_bytes();
                for i in 0..*k {
                    let j = k - 1 - i;
                    out.push(if j < 16 { l[15 - j] } else { 0 });
                }
            }
            Form::Indef => out.push(0x80),
            Form::Raw(r) => out.extend_from_slice(r),
            Form::Off(d) => {
                let l = c.len() as i64 + d;
                enc_len(l.max(0) as usize, out)
            }
        }
        out.extend_from_slice(&c);
        match &self.eoc {
            Some(e) => out.extend_from_slice(e),
            None => {
                if self.form == Form::Indef {
                    out.extend_from_slice(&[0, 0]);
                }
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        self.enc(&mut o);
        o
    }
}

/// parse a sequence of elements into trees (whole input or nothing)
pub fn parse_forest(b: &[u8]) -> Option<Vec<Node>> {
    let r = R::new(false, 0);
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        let (h, c, n) = r.frame(&b[p..])?;
        let kids = if h.cons {
            match parse_forest(c) {
                Some(k) => Kids::Nodes(k),
                None => Kids::Leaf(c.to_vec()),
            }
        } else {
            Kids::Leaf(c.to_vec())
        };
        let mut node = Node::new(h.class, h.cons, h.tag, kids);
        if h.len.is_none() {
            node.form = Form::Indef;
        }
        out.push(node);
        p += n;
    }
    Some(out)
}

/// every node of a forest, as a path
fn paths(f: &[Node], pre: &[usize], out: &mut Vec<Vec<usize>>) {
    for (i, n) in f.iter().enumerate() {
        let mut p = pre.to_vec();
        p.push(i);
        out.push(p.clone());
        if let Kids::Nodes(k) = &n.kids {
            paths(k, &p, out);
        }
    }
}

fn at<'a>(f: &'a mut Vec<Node>, p: &[usize]) -> &'a mut Node {
    let n = &mut f[p[0]];
    if p.len() == 1 {
        n
    } else {
        match &mut n.kids {
            Kids::Nodes(k) => at(k, &p[1..]),
            _ => unreachable!(),
        }
    }
}

fn siblings<'a>(f: &'a mut Vec<Node>, p: &[usize]) -> &'a mut Vec<Node> {
    if p.len() == 1 {
        f
    } else {
        match &mut f[p[0]].kids {
            Kids::Nodes(k) => siblings(k, &p[1..]),
            _ => unreachable!(),
        }
    }
}

fn forest_bytes(f: &[Node]) -> Vec<u8> {
    let mut o = vec![];
    for n in f {
        n.enc(&mut o);
    }
    o
}

fn leaf(class: u8, tag: u32, c: &[u8]) -> Node {
    Node::new(class, false, tag, Kids::Leaf(c.to_vec()))
}

/// ways of cutting a string into segments (each alternative: list of cut segments)
fn segmentations(c: &[u8], bits: bool) -> Vec<Vec<Vec<u8>>> {
    let mut out: Vec<Vec<Vec<u8>>> = vec![vec![c.to_vec()], vec![]];
    let (pre, body, last): (Vec<u8>, Vec<u8>, Option<u8>) =
        if bits && !c.is_empty() { (vec![0], c[1..].to_vec(), Some(c[0])) } else { (vec![], c.to_vec(), None) };
    let mk = |parts: Vec<&[u8]>| -> Vec<Vec<u8>> {
        let k = parts.len();
        parts
            .iter()
            .enumerate()
            .map(|(i, p)| {
                let mut v = pre.clone();
                if i + 1 == k {
                    if let Some(u) = last {
                        v[0] = u;
                    }
                }
                v.extend_from_slice(p);
                v
            })
            .collect()
    };
    let n = body.len();
    let cuts: Vec<usize> = if n <= 6 { (0..=n).collect() } else { vec![0, 1, 2, n / 2, n - 1, n] };
    for &i in &cuts {
        out.push(mk(vec![&body[..i], &body[i..]]));
        for &j in &cuts {
            if j >= i {
                out.push(mk(vec![&body[..i], &body[i..j], &body[j..]]));
            }
        }
    }
    if n >= 1 && n <= 12 {
        out.push(mk(body.chunks(1).collect()));
    }
    out
}

pub fn interesting() -> &'static [u8] {
    &[
        0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x08, 0x09, 0x0a, 0x0c, 0x10, 0x11, 0x1f, 0x20, 0x24, 0x28, 0x2b, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x39, 0x3a,
        0x40, 0x41, 0x5a, 0x60, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x88, 0x89, 0x9f, 0xa0, 0xa1, 0xa2, 0xbf, 0xc0, 0xc1, 0xd8, 0xdc, 0xdf, 0xe0, 0xf0, 0xf7, 0xfe, 0xff,
    ]
}

pub struct Budget {
    /// exhaustive octet substitution up to this length
    pub full_subst: usize,
    pub truncations: bool,
    pub structural: bool,
}

/// all single deviations of `seed`
pub fn mutate1(seed: &[u8], bud: &Budget, out: &mut dyn FnMut(Vec<u8>)) {
    let n = seed.len();
    if bud.truncations {
        if n <= 64 {
            for k in 0..n {
                out(seed[..k].to_vec());
            }
        } else {
            for k in (0..20).chain([n / 2, n - 3, n - 2, n - 1]) {
                out(seed[..k].to_vec());
            }
        }
    }
    // octet level
    let full = n <= bud.full_subst;
    let posns: Vec<usize> = if n <= 48 { (0..n).collect() } else { (0..16).chain(n - 8..n).collect() };
    for &p in &posns {
        let mut put = |x: u8| {
            if x != seed[p] {
                let mut v = seed.to_vec();
                v[p] = x;
                out(v);
            }
        };
        if full {
            for x in 0..=255u8 {
                put(x);
            }
        } else {
            for &x in interesting() {
                put(x);
            }
            put(seed[p].wrapping_add(1));
            put(seed[p].wrapping_sub(1));
            for k in 0..8 {
                put(seed[p] ^ (1 << k));
            }
        }
    }
    for &p in &posns {
        let mut v = seed.to_vec();
        v.remove(p);
        out(v);
        for &x in &[0x00u8, 0x01, 0x20, 0x30, 0x39, 0x7f, 0x80, 0x81, 0xff] {
            let mut v = seed.to_vec();
            v.insert(p, x);
            out(v);
        }
        let mut v = seed.to_vec();
        v.insert(p, seed[p]);
        out(v);
        if p + 1 < n {
            let mut v = seed.to_vec();
            v.swap(p, p + 1);
            out(v);
        }
    }
    for s in [&[0u8][..], &[0, 0], &[1], &[0x80], &[0xff], &[5, 0], &[2, 1, 5], &[0, 0, 0, 0], &[4, 0, 0, 0]] {
        let mut v = seed.to_vec();
        v.extend_from_slice(s);
        out(v);
    }
    if !bud.structural {
        return;
    }
    let Some(f) = parse_forest(seed) else { return };
    let mut ps = vec![];
    paths(&f, &[], &mut ps);
    for p in ps {
        let node = {
            let mut g = f.clone();
            at(&mut g, &p).clone()
        };
        let mut with = |m: &dyn Fn(&mut Node)| {
            let mut g = f.clone();
            m(at(&mut g, &p));
            out(forest_bytes(&g));
        };
        // length forms
        for k in [1usize, 2, 3, 4, 7, 8, 9, 16, 126] {
            with(&|n| n.form = Form::Long(k));
        }
        for d in [-2i64, -1, 1, 2, 100] {
            with(&|n| n.form = Form::Off(d));
        }
        with(&|n| n.form = Form::Indef);
        with(&|n| {
            n.form = Form::Indef;
            n.eoc = Some(vec![])
        });
        with(&|n| {
            n.form = Form::Indef;
            n.eoc = Some(vec![0])
        });
        with(&|n| {
            n.form = Form::Indef;
            n.cons = true
        });
        for e in [&[0u8, 0x81, 0][..], &[0x1f, 0, 0], &[0x20, 0], &[0x80, 0], &[0x40, 0, 0, 0], &[0, 1, 0, 0, 0], &[0, 0, 0, 0], &[0x20, 0x80, 0, 0, 0, 0], &[0xc0, 0, 0, 0]] {
            with(&|n| {
                n.form = Form::Indef;
                n.cons = true;
                n.eoc = Some(e.to_vec())
            });
        }
        for rawlen in [
            &[0xffu8][..],
            &[0x84, 0xff, 0xff, 0xff, 0xff],
            &[0x84, 0x7f, 0xff, 0xff, 0xff],
            &[0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
            &[0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
            &[0x89, 0x01, 0, 0, 0, 0, 0, 0, 0, 0],
            &[0x89, 0x01, 0, 0, 0, 0, 0, 0, 0, 1],
            &[0x83, 0xff, 0xff, 0xff],
            &[0x82, 0xff, 0xff],
        ] {
            with(&|n| n.form = Form::Raw(rawlen.to_vec()));
        }
        // identifier forms
        for c in 0..4u8 {
            for k in [false, true] {
                with(&|n| {
                    n.class = c;
                    n.cons = k
                });
            }
        }
        for t in [
            0u32, 1, 2, 3, 4, 5, 6, 9, 10, 12, 13, 16, 17, 18, 22, 24, 30, 31, 32, 63, 127, 128, 255, 256, 0x3fff, 0x4000, 0x1f_ffff, 0x20_0000, 0xfff_ffff, 0x1000_0000, 0x7fff_ffff, 0x8000_0000, u32::MAX,
        ] {
            with(&|n| n.tag = t);
        }
        with(&|n| n.tag = n.tag.wrapping_add(1));
        with(&|n| n.tag = n.tag.wrapping_sub(1));
        with(&|n| n.tag = n.tag.wrapping_add(128));
        with(&|n| n.tag = n.tag.wrapping_add(256));
        with(&|n| n.tag = n.tag.wrapping_add(32));
        {
            let b0 = node.class << 6 | if node.cons { 0x20 } else { 0 } | 0x1f;
            let t = node.tag;
            let low = vec![b0, (t & 0x7f) as u8];
            if t < 128 {
                with(&|n| n.ident = Some(low.clone()));
                for k in 1..6 {
                    let mut v = vec![b0];
                    v.extend(std::iter::repeat(0x80).take(k));
                    v.push(t as u8);
                    with(&|n| n.ident = Some(v.clone()));
                }
            }
            // 2^32 + t : must not alias t
            with(&|n| n.ident = Some(vec![b0, 0x90, 0x80, 0x80, 0x80 | (t >> 7) as u8 & 0x7f, (t & 0x7f) as u8]));
            with(&|n| n.ident = Some(vec![b0, 0x8f, 0xff, 0xff, 0xff, 0x7f]));
            with(&|n| n.ident = Some(vec![b0, 0x90, 0x80, 0x80, 0x80, 0x00]));
            with(&|n| n.ident = Some(vec![b0, 0x81, 0x80, 0x80, 0x80, 0x80, (t & 0x7f) as u8]));
        }
        // contents
        with(&|n| n.kids = Kids::Leaf(vec![]));
        if let Kids::Leaf(c) = &node.kids {
            let c = c.clone();
            // content edits with consistent lengths
            let cn = c.len();
            let pos: Vec<usize> = if cn <= 24 { (0..=cn).collect() } else { (0..6).chain(cn - 4..=cn).collect() };
            for &i in &pos {
                for &x in &[0u8, 1, 0x20, 0x30, 0x39, 0x5a, 0x7f, 0x80, 0xff] {
                    let mut v = c.clone();
                    v.insert(i, x);
                    with(&|n| n.kids = Kids::Leaf(v.clone()));
                }
                if i < cn {
                    let mut v = c.clone();
                    v.remove(i);
                    with(&|n| n.kids = Kids::Leaf(v.clone()));
                    let v = c[..i].to_vec();
                    with(&|n| n.kids = Kids::Leaf(v.clone()));
                    let v = c[i..].to_vec();
                    with(&|n| n.kids = Kids::Leaf(v.clone()));
                }
            }
            // segmentation
            for (own, bits) in [(node.tag, node.tag == 3), (4, false)] {
                for s in segmentations(&c, bits) {
                    let segs: Vec<Node> = s.iter().map(|x| leaf(0, own, x)).collect();
                    for ind in [false, true] {
                        with(&|n| {
                            n.cons = true;
                            n.kids = Kids::Nodes(segs.clone());
                            if ind {
                                n.form = Form::Indef
                            }
                        });
                    }
                    // one more level around the first / last segment
                    if !segs.is_empty() {
                        for which in [0, segs.len() - 1] {
                            for ind in [false, true] {
                                let mut g = segs.clone();
                                let inner = g[which].clone();
                                let mut w = Node::new(0, true, own, Kids::Nodes(vec![inner]));
                                if ind {
                                    w.form = Form::Indef;
                                }
                                g[which] = w;
                                with(&|n| {
                                    n.cons = true;
                                    n.kids = Kids::Nodes(g.clone())
                                });
                            }
                        }
                    }
                }
                // nesting depth 1..8, definite and indefinite, around one leaf or an empty one
                for depth in 1..8 {
                    for body in [c.clone(), if bits { vec![0] } else { vec![] }] {
                        for ind in [false, true] {
                            let mut x = leaf(0, own, &body);
                            for _ in 0..depth {
                                x = Node::new(0, true, own, Kids::Nodes(vec![x]));
                                if ind {
                                    x.form = Form::Indef;
                                }
                            }
                            with(&|n| {
                                n.cons = true;
                                n.kids = match &x.kids {
                                    Kids::Nodes(k) => Kids::Nodes(k.clone()),
                                    _ => unreachable!(),
                                };
                                if ind {
                                    n.form = Form::Indef
                                }
                            });
                        }
                    }
                    let mut x = Node::new(0, true, own, Kids::Nodes(vec![]));
                    for _ in 1..depth {
                        x = Node::new(0, true, own, Kids::Nodes(vec![x]));
                    }
                    with(&|n| {
                        n.cons = true;
                        n.kids = Kids::Nodes(vec![x.clone()]);
                    });
                }
                // segments of a wrong kind
                for (cl, tg) in [(2u8, own), (1, own), (0, own.wrapping_add(1)), (0, 0), (3, 0), (0, 5), (2, 0)] {
                    for first in [true, false] {
                        let good = leaf(0, own, &c);
                        let bad = leaf(cl, tg, if tg == 0 || tg == 5 { &[] } else { &c });
                        let g = if first { vec![bad.clone(), good.clone()] } else { vec![good.clone(), bad.clone()] };
                        with(&|n| {
                            n.cons = true;
                            n.kids = Kids::Nodes(g.clone())
                        });
                    }
                }
            }
        }
        if let Kids::Nodes(k) = &node.kids {
            let k = k.clone();
            let extra = [leaf(0, 5, &[]), leaf(0, 0, &[]), leaf(0, 2, &[7]), leaf(2, 0, &[1]), leaf(0, 1, &[0xff]), Node::new(0, true, 16, Kids::Nodes(vec![]))];
            for i in 0..=k.len() {
                for e in &extra {
                    let mut v = k.clone();
                    v.insert(i, e.clone());
                    with(&|n| n.kids = Kids::Nodes(v.clone()));
                    with(&|n| {
                        n.kids = Kids::Nodes(v.clone());
                        n.form = Form::Indef
                    });
                }
            }
            let mut raw = vec![];
            for x in &k {
                x.enc(&mut raw);
            }
            for junk in [&[0u8][..], &[2], &[2, 1], &[0x30], &[0xff], &[0x30, 0x80], &[0x1f], &[0x02, 0x81], &[0x05, 0x01]] {
                let mut v = raw.clone();
                v.extend_from_slice(junk);
                with(&|n| n.kids = Kids::Leaf(v.clone()));
            }
            if !raw.is_empty() {
                with(&|n| n.kids = Kids::Leaf(raw[..raw.len() - 1].to_vec()));
            }
        }
        // sibling edits
        let mut sib = |m: &dyn Fn(&mut Vec<Node>, usize)| {
            let mut g = f.clone();
            let i = *p.last().unwrap();
            m(siblings(&mut g, &p), i);
            out(forest_bytes(&g));
        };
        sib(&|s, i| {
            s.remove(i);
        });
        sib(&|s, i| {
            let x = s[i].clone();
            s.insert(i, x)
        });
        sib(&|s, i| {
            if i + 1 < s.len() {
                s.swap(i, i + 1)
            }
        });
        sib(&|s, i| s.truncate(i));
    }
}

/// all strings over `alpha` of length `len` following `prefix`
pub fn strings(prefix: &[u8], alpha: &[u8], len: usize, out: &mut dyn FnMut(&[u8])) {
    let mut v = prefix.to_vec();
    fn rec(v: &mut Vec<u8>, alpha: &[u8], len: usize, out: &mut dyn FnMut(&[u8])) {
        if len == 0 {
            out(v);
            return;
        }
        for &a in alpha {
            v.push(a);
            rec(v, alpha, len - 1, out);
            v.pop();
        }
    }
    rec(&mut v, alpha, len, out)
}

pub fn all_octets() -> Vec<u8> {
    (0..=255).collect()
}

/// which levels of a nest use the indefinite form
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Forms {
    Indef,
    Def,
    /// alternating, outermost indefinite
    Alt,
    /// the two innermost levels definite
    Tail,
    /// the outermost level definite
    Head,
    /// only the level at two thirds definite
    Gap,
}

pub const FORMS: [Forms; 6] = [Forms::Indef, Forms::Def, Forms::Alt, Forms::Tail, Forms::Head, Forms::Gap];

impl Forms {
    fn indef(self, i: usize, depth: usize) -> bool {
        match self {
            Forms::Indef => true,
            Forms::Def => false,
            Forms::Alt => i % 2 == 0,
            Forms::Tail => i + 2 < depth,
            Forms::Head => i > 0,
            Forms::Gap => i != depth * 2 / 3,
        }
    }
}

/// `depth` elements inside each other, level i having the identifier octets ids[i % len], around `leaf`;
/// `markers` end markers are added (or left out, if negative)
pub fn nested(ids: &[&[u8]], forms: Forms, depth: usize, leaf: &[u8], markers: isize) -> Vec<u8> {
    let mut heads: Vec<Vec<u8>> = vec![];
    // total length of level i, from the inside out
    let mut len = leaf.len();
    for i in (0..depth).rev() {
        let id = ids[i % ids.len()];
        let mut h = id.to_vec();
        if forms.indef(i, depth) {
            h.push(0x80);
            len += h.len() + 2;
        } else {
            crate::model::enc_len(len, &mut h);
            len += h.len();
        }
        heads.push(h);
    }
    // end markers of a level come before those of the levels around it, and after a definite level nothing follows
    let mut v = Vec::with_capacity(len);
    for h in heads.iter().rev() {
        v.extend_from_slice(h);
    }
    v.extend_from_slice(leaf);
    for i in (0..depth).rev() {
        if forms.indef(i, depth) {
            v.extend_from_slice(&[0, 0]);
        }
    }
    if markers > 0 {
        for _ in 0..markers {
            v.extend_from_slice(&[0, 0]);
        }
    } else {
        let cut = (-markers * 2) as usize;
        v.truncate(v.len().saturating_sub(cut));
    }
    v
}

/// identifier octets of constructed elements
pub const CONS: [&[u8]; 12] = [&[0x30], &[0x31], &[0x24], &[0x23], &[0x2c], &[0x33], &[0xa0], &[0xa1], &[0x60], &[0xe0], &[0xbf, 0x81, 0x01], &[0x3f, 0x1f]];

pub fn nests(depths: &[usize], leafs: &[&[u8]], pairs: bool, out: &mut dyn FnMut(Vec<u8>)) {
    for &d in depths {
        for (i, a) in CONS.iter().enumerate() {
            for f in FORMS {
                for leaf in leafs {
                    out(nested(&[a], f, d, leaf, 0));
                    if d < 100 {
                        out(nested(&[a], f, d, leaf, -1));
                        out(nested(&[a], f, d, leaf, 1));
                    }
                }
                if pairs {
                    for b in CONS.iter().take(i) {
                        out(nested(&[a, b], f, d, leafs[0], 0));
                        out(nested(&[b, a], f, d, leafs[0], 0));
                    }
                }
            }
        }
    }
}
