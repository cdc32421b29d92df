//! Independent encoder for the [MS-FSSHTTPB] / [MS-ONESTORE] container: the
//! model side of every check.  Nothing here is derived from the library's
//! reader; it follows the published layouts.
#![allow(dead_code)]

pub type G = [u8; 16];

/// Parse a textual GUID to its wire representation (mixed endian).
pub fn g(s: &str) -> G {
    let h: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    assert_eq!(h.len(), 32);
    let v = |c: u8| match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => panic!("guid"),
    };
    let mut b = [0u8; 16];
    for i in 0..16 {
        b[i] = v(h[2 * i]) << 4 | v(h[2 * i + 1]);
    }
    [
        b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6], b[8], b[9], b[10], b[11], b[12], b[13],
        b[14], b[15],
    ]
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Ex {
    pub g: G,
    pub n: u32,
}
impl Ex {
    pub const NIL: Ex = Ex { g: [0; 16], n: 0 };
    pub fn new(g: G, n: u32) -> Ex {
        Ex { g, n }
    }
    pub fn is_nil(&self) -> bool {
        *self == Ex::NIL
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Cell(pub Ex, pub Ex);
impl Cell {
    pub const NIL: Cell = Cell(Ex::NIL, Ex::NIL);
}

pub type Serial = Option<(G, u64)>;

/// What a marked byte range of the output is (used for fault injection).
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    FileGuid,
    Version,
    Raw,
    Pad,
    Hdr,      // start of a stream-object header
    End,      // end marker
    Compact,  // compact u64
    ExGuid,
    Guid,
    Serial,
    Data,     // opaque data of a binary item
    PropHdr,  // object stream header
    PropId,
    PropVal,
    PropCnt,
    CompactId,
    ElemType,
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub off: usize,
    pub len: usize,
    pub k: K,
    pub tag: &'static str,
}

/// Encoding freedoms the format leaves to the writer.
#[derive(Clone, Debug)]
pub struct Opts {
    /// 32-bit stream object headers where the format permits either
    pub hdr32: bool,
    /// with hdr32: store the length as a trailing compact integer
    pub hdr32_long: bool,
    /// minimum width (in bytes 1..=7, 9) used for compact integers; 0 = shortest
    pub cu_min: u8,
    /// minimum ExGuid form: 0 = shortest, 1 = 10 bit, 2 = 17 bit, 3 = 32 bit
    pub ex_min: u8,
    pub marks: bool,
    /// replace the bytes of the n-th compact integer / extended GUID / serial
    pub ovc: Option<(usize, Vec<u8>)>,
    pub ovx: Option<(usize, Vec<u8>)>,
    pub ovs: Option<(usize, Vec<u8>)>,
    /// replace the header bytes of the n-th stream object (in order of completion)
    pub ovh: Option<(usize, Vec<u8>)>,
    /// use the 32-bit header form for the n-th stream object if it permits either
    pub h32_at: Option<usize>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            hdr32: false,
            hdr32_long: false,
            cu_min: 0,
            ex_min: 0,
            marks: false,
            ovc: None,
            ovx: None,
            ovs: None,
            ovh: None,
            h32_at: None,
        }
    }
}

pub struct W {
    pub b: Vec<u8>,
    pub o: Opts,
    pub m: Vec<Mark>,
    nc: usize,
    nx: usize,
    ns: usize,
    nh: usize,
}
fn over(ov: &Option<(usize, Vec<u8>)>, n: &mut usize) -> Option<Vec<u8>> {
    let k = *n;
    *n += 1;
    match ov {
        Some((i, b)) if *i == k => Some(b.clone()),
        _ => None,
    }
}

impl W {
    pub fn new(o: &Opts) -> W {
        W { b: Vec::with_capacity(4096), o: o.clone(), m: vec![], nc: 0, nx: 0, ns: 0, nh: 0 }
    }
    pub fn mark(&mut self, start: usize, k: K, tag: &'static str) {
        if self.o.marks {
            self.m.push(Mark { off: start, len: self.b.len() - start, k, tag });
        }
    }
    pub fn u8(&mut self, v: u8) {
        self.b.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.b.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.b.extend_from_slice(&v.to_le_bytes())
    }
    pub fn u64(&mut self, v: u64) {
        self.b.extend_from_slice(&v.to_le_bytes())
    }
    pub fn raw(&mut self, v: &[u8]) {
        self.b.extend_from_slice(v)
    }
    pub fn guid(&mut self, v: &G, tag: &'static str) {
        let s = self.b.len();
        self.b.extend_from_slice(v);
        self.mark(s, K::Guid, tag);
    }
    pub fn exf(&mut self, e: &Ex, form: u8) {
        // form: 0 = 5 bit, 1 = 10 bit, 2 = 17 bit, 3 = 32 bit
        match form {
            0 => {
                assert!(e.n < 32);
                self.u8((e.n as u8) << 3 | 4)
            }
            1 => {
                assert!(e.n < 1 << 10);
                self.u16((e.n as u16) << 6 | 0x20)
            }
            2 => {
                assert!(e.n < 1 << 17);
                let v = e.n << 7 | 0x40;
                self.b.extend_from_slice(&v.to_le_bytes()[..3])
            }
            _ => {
                self.u8(0x80);
                self.u32(e.n)
            }
        }
        self.b.extend_from_slice(&e.g);
    }
    pub fn ex(&mut self, e: &Ex, tag: &'static str) {
        let s = self.b.len();
        if let Some(b) = over(&self.o.ovx, &mut self.nx) {
            self.b.extend_from_slice(&b);
        } else if e.is_nil() {
            self.u8(0);
        } else {
            let need = if e.n < 32 {
                0
            } else if e.n < 1 << 10 {
                1
            } else if e.n < 1 << 17 {
                2
            } else {
                3
            };
            let f = need.max(self.o.ex_min.min(3));
            self.exf(e, f);
        }
        self.mark(s, K::ExGuid, tag);
    }
    pub fn cell(&mut self, c: &Cell, tag: &'static str) {
        self.ex(&c.0, tag);
        self.ex(&c.1, tag);
    }
    /// width in bytes: 0 = zero form, 1..=7, 9
    pub fn cuw(&mut self, v: u64, w: u8) {
        match w {
            0 => {
                assert_eq!(v, 0);
                self.u8(0)
            }
            1..=7 => {
                let w = w as u32;
                assert!(v < 1u64 << (7 * w));
                let x = v << w | 1 << (w - 1);
                self.b.extend_from_slice(&x.to_le_bytes()[..w as usize]);
            }
            _ => {
                self.u8(0x80);
                self.u64(v)
            }
        }
    }
    pub fn cu(&mut self, v: u64, tag: &'static str) {
        let s = self.b.len();
        if let Some(b) = over(&self.o.ovc, &mut self.nc) {
            self.b.extend_from_slice(&b);
        } else if v == 0 && self.o.cu_min == 0 {
            self.u8(0);
        } else {
            let mut w = 1u8;
            while w < 8 && v >= 1u64 << (7 * w as u32) {
                w += 1;
            }
            if w >= 8 {
                w = 9;
            }
            let mn = if self.o.cu_min >= 8 { 9 } else { self.o.cu_min };
            self.cuw(v, w.max(mn));
        }
        self.mark(s, K::Compact, tag);
    }
    pub fn serial(&mut self, v: &Serial, tag: &'static str) {
        let s = self.b.len();
        let ov = over(&self.o.ovs, &mut self.ns);
        match v {
            _ if ov.is_some() => self.b.extend_from_slice(&ov.unwrap()),
            None => self.u8(0),
            Some((g, n)) => {
                self.u8(0x80);
                self.b.extend_from_slice(g);
                self.u64(*n);
            }
        }
        self.mark(s, K::Serial, tag);
    }
    /// A stream object: header carrying the exact length of `f`'s output.
    /// `wide`: 0 = only the 16-bit header is legal here, 1 = either, 2 = only 32-bit.
    pub fn obj<F: FnOnce(&mut W)>(&mut self, ty: u16, compound: bool, wide: u8, tag: &'static str, f: F) {
        let s = self.b.len();
        let mm = self.m.len();
        f(self);
        let len = self.b.len() - s;
        let c: u32 = if compound { 4 } else { 0 };
        let nh = self.nh;
        let hov = over(&self.o.ovh, &mut self.nh);
        let use32 = wide == 2
            || (wide == 1 && (self.o.hdr32 || self.o.h32_at == Some(nh) || len > 127 || ty >= 0x40));
        let mut h = W::new(&Opts { cu_min: self.o.cu_min, ..Opts::default() });
        if let Some(b) = hov {
            h.raw(&b);
        } else if use32 {
            if self.o.hdr32_long || len >= 0x7fff {
                h.u32(2 | c | (ty as u32) << 3 | 0x7fff << 17);
                h.cu(len as u64, "");
            } else {
                h.u32(2 | c | (ty as u32) << 3 | (len as u32) << 17);
            }
        } else {
            assert!(ty < 0x40);
            h.u16(c as u16 | ty << 3 | (len.min(127) as u16) << 9);
        }
        let hl = h.b.len();
        if len > 4096 {
            let tail = self.b.split_off(s);
            self.b.extend_from_slice(&h.b);
            self.b.extend_from_slice(&tail);
        } else {
            let old = self.b.len();
            self.b.resize(old + hl, 0);
            self.b.copy_within(s..old, s + hl);
            self.b[s..s + hl].copy_from_slice(&h.b);
        }
        for m in &mut self.m[mm..] {
            m.off += hl;
        }
        if self.o.marks {
            self.m.push(Mark { off: s, len: hl, k: K::Hdr, tag });
        }
    }
    pub fn e8(&mut self, ty: u8, tag: &'static str) {
        let s = self.b.len();
        assert!(ty < 0x40);
        self.u8(ty << 2 | 1);
        self.mark(s, K::End, tag);
    }
    pub fn e16(&mut self, ty: u16, tag: &'static str) {
        let s = self.b.len();
        self.u16(ty << 2 | 3);
        self.mark(s, K::End, tag);
    }
}
