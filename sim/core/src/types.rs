//! Element types as bit patterns, array metadata documents, and the harness's own encoding of chunks.
use crate::rng::{hash2, Rng};
use half::f16;
use serde_json::{json, Value};
use zarr::prelude::*;

pub trait Elem: ReflectedType + Clone + PartialEq + Default + Send {
    fn fb(b: u64) -> Self;
    fn tb(&self) -> u64;
}
macro_rules! int_elem {
    ($($t:ty : $u:ty),*) => { $(impl Elem for $t {
        fn fb(b: u64) -> Self { b as $u as $t }
        fn tb(&self) -> u64 { *self as $u as u64 }
    })* };
}
int_elem!(u8: u8, u16: u16, u32: u32, u64: u64, i8: u8, i16: u16, i32: u32, i64: u64);
impl Elem for bool {
    fn fb(b: u64) -> Self {
        b & 1 == 1
    }
    fn tb(&self) -> u64 {
        *self as u64
    }
}
impl Elem for f16 {
    fn fb(b: u64) -> Self {
        f16::from_bits(b as u16)
    }
    fn tb(&self) -> u64 {
        self.to_bits() as u64
    }
}
impl Elem for f32 {
    fn fb(b: u64) -> Self {
        f32::from_bits(b as u32)
    }
    fn tb(&self) -> u64 {
        self.to_bits() as u64
    }
}
impl Elem for f64 {
    fn fb(b: u64) -> Self {
        f64::from_bits(b)
    }
    fn tb(&self) -> u64 {
        self.to_bits()
    }
}

#[macro_export]
macro_rules! with_type {
    ($name:expr, $T:ident => $body:expr) => {
        match $name {
            "bool" => { type $T = bool; $body }
            "u1" => { type $T = u8; $body }
            "u2" => { type $T = u16; $body }
            "u4" => { type $T = u32; $body }
            "u8" => { type $T = u64; $body }
            "i1" => { type $T = i8; $body }
            "i2" => { type $T = i16; $body }
            "i4" => { type $T = i32; $body }
            "i8" => { type $T = i64; $body }
            "f2" => { type $T = half::f16; $body }
            "f4" => { type $T = f32; $body }
            "f8" => { type $T = f64; $body }
            t => panic!("harness: type {}", t),
        }
    };
}

pub const TYPES: [&str; 12] = ["bool", "u1", "u2", "u4", "u8", "i1", "i2", "i4", "i8", "f2", "f4", "f8"];

/// Types whose elements are uninterpreted bytes; usable through chunk types of the caller's own only.
pub const RAWS: [&str; 4] = ["r8", "r16", "r24", "r32"];

pub fn width(ty: &str) -> usize {
    if let Some(n) = ty.strip_prefix('r') {
        return n.parse::<usize>().unwrap_or(8) / 8;
    }
    match ty {
        "bool" | "u1" | "i1" => 1,
        "u2" | "i2" | "f2" => 2,
        "u4" | "i4" | "f4" => 4,
        _ => 8,
    }
}
/// Base type name ("i4") and whether big-endian, following extension fallbacks.
pub fn dtype_of(meta: &Value) -> (String, bool) {
    let d = &meta["data_type"];
    let s = d.as_str().or_else(|| d["fallback"].as_str()).unwrap_or("?").to_string();
    match s.as_bytes()[0] {
        b'<' => (s[1..].into(), false),
        b'>' => (s[1..].into(), true),
        _ => (s, false),
    }
}
pub fn is_raw(meta: &Value) -> bool {
    dtype_of(meta).0.starts_with('r')
}
pub fn u64s(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default()
}
pub fn shape_of(meta: &Value) -> Vec<u64> {
    u64s(&meta["shape"])
}
pub fn cshape_of(meta: &Value) -> Vec<u64> {
    u64s(&meta["chunk_grid"]["chunk_shape"])
}
pub fn sep_of(meta: &Value) -> &str {
    meta["chunk_grid"]["separator"].as_str().unwrap_or("/")
}
pub fn is_c(meta: &Value) -> bool {
    meta["chunk_memory_layout"] == "C"
}
pub fn nel(meta: &Value) -> usize {
    cshape_of(meta).iter().fold(1u64, |n, c| n.saturating_mul(*c)).min(u32::MAX as u64) as usize
}
pub fn grid_of(meta: &Value) -> Vec<u64> {
    shape_of(meta).iter().zip(cshape_of(meta)).map(|(s, c)| s / c + (s % c != 0) as u64).collect()
}
pub fn grid_positions(meta: &Value) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    for g in grid_of(meta) {
        let mut n = vec![];
        for p in &out {
            for i in 0..g {
                let mut q: Vec<u64> = p.clone();
                q.push(i);
                n.push(q);
            }
        }
        out = n;
    }
    out
}
pub fn codec_of(meta: &Value) -> &str {
    meta["compressor"]["codec"].as_str().unwrap_or("raw")
}
pub fn mask(ty: &str, b: u64) -> u64 {
    match ty {
        "bool" => b & 1,
        _ => {
            let w = width(ty) * 8;
            if w == 64 {
                b
            } else {
                b & ((1 << w) - 1)
            }
        }
    }
}
/// The n elements that value id `vid` stands for. Some ids give constant or repetitive data.
pub fn values(ty: &str, vid: u64, n: usize) -> Vec<u64> {
    let style = vid % 5;
    (0..n)
        .map(|i| {
            let b = match style {
                0 => hash2(vid, 1),
                1 => hash2(vid, (i / 17) as u64),
                2 => vid.wrapping_mul(1000).wrapping_add(i as u64),
                _ => hash2(vid, i as u64),
            };
            mask(ty, b)
        })
        .collect()
}
pub fn fill_bits(meta: &Value) -> u64 {
    let (ty, _) = dtype_of(meta);
    let f = &meta["fill_value"];
    if f.is_null() || ty.starts_with('r') {
        return 0;
    }
    match ty.as_str() {
        "bool" => f.as_bool().unwrap_or(false) as u64,
        "f2" => f16::from_f64(f.as_f64().unwrap()).to_bits() as u64,
        "f4" => (f.as_f64().unwrap() as f32).to_bits() as u64,
        "f8" => f.as_f64().unwrap().to_bits(),
        _ => match f.as_u64() {
            Some(u) => mask(&ty, u),
            None => mask(&ty, f.as_i64().unwrap() as u64),
        },
    }
}
pub fn to_bytes(ty: &str, be: bool, v: &[u64]) -> Vec<u8> {
    let w = width(ty);
    let mut out = Vec::with_capacity(v.len() * w);
    for x in v {
        let b = x.to_le_bytes();
        if be {
            out.extend(b[..w].iter().rev());
        } else {
            out.extend(&b[..w]);
        }
    }
    out
}
pub fn from_bytes(ty: &str, be: bool, b: &[u8]) -> Vec<u64> {
    let w = width(ty);
    b.chunks_exact(w)
        .map(|c| {
            let mut x = [0u8; 8];
            for i in 0..w {
                x[i] = if be { c[w - 1 - i] } else { c[i] };
            }
            u64::from_le_bytes(x)
        })
        .collect()
}

/// Independent decoding: the whole input must be exactly one codec stream.
pub fn decode(codec: &str, b: &[u8]) -> Result<Vec<u8>, String> {
    use std::io::Read;
    let mut out = vec![];
    match codec {
        "raw" => out = b.to_vec(),
        "gzip" | "https://purl.org/zarr/spec/codec/gzip/1.0" => {
            let mut d = flate2::bufread::GzDecoder::new(b);
            d.read_to_end(&mut out).map_err(|e| format!("gzip: {}", e))?;
            let rest = d.into_inner().len();
            if rest != 0 {
                return Err(format!("gzip: {} trailing bytes", rest));
            }
        }
        "bzip2" => {
            let mut d = bzip2::bufread::BzDecoder::new(b);
            d.read_to_end(&mut out).map_err(|e| format!("bzip2: {}", e))?;
            if d.total_in() != b.len() as u64 {
                return Err(format!("bzip2: {} trailing bytes", b.len() as u64 - d.total_in()));
            }
        }
        "xz" => {
            let mut d = xz2::bufread::XzDecoder::new(b);
            d.read_to_end(&mut out).map_err(|e| format!("xz: {}", e))?;
            if d.total_in() != b.len() as u64 {
                return Err(format!("xz: {} trailing bytes", b.len() as u64 - d.total_in()));
            }
        }
        "lz4" => {
            let mut d = lz4::Decoder::new(b).map_err(|e| format!("lz4: {}", e))?;
            d.read_to_end(&mut out).map_err(|e| format!("lz4: {}", e))?;
            let (rest, r) = d.finish();
            r.map_err(|e| format!("lz4: {}", e))?;
            if !rest.is_empty() {
                return Err(format!("lz4: {} trailing bytes", rest.len()));
            }
        }
        c => return Err(format!("codec {}", c)),
    }
    Ok(out)
}
/// Independent encoding, with settings that need not match the array's.
pub fn encode(codec: &str, b: &[u8], var: u64) -> Vec<u8> {
    use std::io::Write;
    match codec {
        "gzip" | "https://purl.org/zarr/spec/codec/gzip/1.0" => {
            let mut e = flate2::GzBuilder::new().mtime(var as u32);
            if var & 1 == 1 {
                e = e.filename("chunk").comment("other implementation");
            }
            let mut e = e.write(vec![], flate2::Compression::new((var % 10) as u32));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "bzip2" => {
            let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(1 + (var % 9) as u32));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "xz" => {
            let mut e = xz2::write::XzEncoder::new(vec![], (var % 2) as u32);
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "lz4" => {
            let mut e = lz4::EncoderBuilder::new()
                .level((var % 4) as u32)
                .block_mode(if var & 1 == 0 { lz4::BlockMode::Linked } else { lz4::BlockMode::Independent })
                .checksum(if var & 2 == 0 { lz4::ContentChecksum::ChecksumEnabled } else { lz4::ContentChecksum::NoChecksum })
                .build(vec![])
                .unwrap();
            e.write_all(b).unwrap();
            let (v, r) = e.finish();
            r.unwrap();
            v
        }
        _ => b.to_vec(),
    }
}

pub fn canon(p: &str) -> String {
    p.split('/').filter(|c| !c.is_empty()).collect::<Vec<_>>().join("/")
}
/// Key of a chunk as documented, without leading slash.
pub fn chunk_key(path: &str, meta: &Value, pos: &[u64]) -> String {
    let p = canon(path);
    let s = pos.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep_of(meta));
    if p.is_empty() {
        format!("data/root/c{}", s)
    } else {
        format!("data/root/{}/c{}", p, s)
    }
}
pub fn meta_key(path: &str, kind: &str) -> String {
    let p = canon(path);
    if p.is_empty() {
        format!("meta/root.{}.json", kind)
    } else {
        format!("meta/root/{}.{}.json", p, kind)
    }
}

// ---------------------------------------------------------------- random documents

pub struct MetaOpts {
    pub max_rank: u64,
    pub max_extent: u64,
    pub max_chunk: u64,
    pub max_nel: u64,
    pub codecs: &'static [&'static str],
    pub raw_ext: bool,
}
/// Which of the library's two sets of codecs to generate for.
pub static PURE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const ALL_CODECS: &[&str] = &["raw", "gzip", "bzip2", "lz4", "xz"];
pub const DEFAULT_OPTS: MetaOpts =
    MetaOpts { max_rank: 3, max_extent: 9, max_chunk: 5, max_nel: 64, codecs: ALL_CODECS, raw_ext: false };

pub fn gen_compressor(r: &mut Rng, codec: &str) -> Option<Value> {
    Some(match codec {
        "raw" => {
            if r.chance(0.7) {
                return None;
            }
            json!({"codec": "raw", "configuration": null})
        }
        "gzip" => {
            let l = *r.pick(&[-1i64, 0, 1, 6, 9, 1, 3, 8, 2, 10, 11, 12, -2, 99, 256, i32::MAX as i64, i32::MIN as i64]);
            json!({"codec": "https://purl.org/zarr/spec/codec/gzip/1.0", "configuration": {"level": l}})
        }
        "bzip2" => {
            let b = if r.chance(0.2) { *r.pick(&[0u64, 10, 100, 255, 9, 1]) } else { r.range(1, 9) };
            json!({"codec": "bzip2", "configuration": {"blockSize": b}})
        }
        "lz4" => {
            let b = *r.pick(&[65536i64, 1, 262144, 65536, 1048576, 0, -1, 65537, 262143, 262145, 1048577, 4194304, 1 << 30, i32::MAX as i64, i32::MIN as i64]);
            json!({"codec": "lz4", "configuration": {"blockSize": b}})
        }
        _ => {
            // High presets take hundreds of megabytes.
            let p = if r.chance(0.06) { *r.pick(&[2i64, 3, 4, 5, 6, 7, 8, 9, 9, -1, 10, i32::MAX as i64]) } else { r.range(0, 1) as i64 };
            json!({"codec": "xz", "configuration": {"preset": p}})
        }
    })
}
pub fn gen_dtype(r: &mut Rng) -> String {
    let t = *r.pick(&TYPES);
    if width(t) == 1 {
        t.to_string()
    } else {
        format!("{}{}", if r.chance(0.5) { "<" } else { ">" }, t)
    }
}
pub fn gen_fill(r: &mut Rng, ty: &str) -> Value {
    if r.chance(0.4) {
        return Value::Null;
    }
    match ty {
        "bool" => json!(r.chance(0.7)),
        "f2" | "f4" | "f8" => json!(*r.pick(&[0.5, -2.25, 7.0, 1024.0, 0.0])),
        "i1" => json!(r.range(0, 255) as i64 - 128),
        "u1" => json!(r.range(0, 255)),
        "i2" => json!(r.range(0, 65535) as i64 - 32768),
        "u2" => json!(r.range(0, 65535)),
        "i4" => json!(r.u64() as u32 as i32),
        "u4" => json!(r.u64() as u32),
        "i8" => json!(r.u64() as i64),
        _ => json!(r.u64()),
    }
}
pub fn gen_json(r: &mut Rng, depth: u32) -> Value {
    let n = if depth == 0 { 8 } else { 10 };
    match r.below(n) {
        // Values that are easily taken for one another.
        7 => match r.below(18) {
            0 => json!(0),
            1 => json!(0.0),
            2 => json!(1),
            3 => json!(1.0),
            4 => json!(false),
            5 => json!("0"),
            6 => json!("1"),
            7 => json!([]),
            8 => json!({}),
            9 => json!(1u64 << 53),
            10 => json!((1u64 << 53) + 1),
            11 => json!(u64::MAX),
            12 => json!(u64::MAX - 1),
            13 => json!(i64::MIN),
            14 => json!(i64::MIN + 1),
            15 => json!(-1),
            16 => json!("null"),
            _ => json!([null]),
        },
        0 => Value::Null,
        1 => json!(r.chance(0.5)),
        2 => json!(r.u64() as i64),
        3 => json!(r.u64()),
        4 => json!((r.below(4096) as f64) / 64.0 - 17.5),
        5 => json!(gen_str(r)),
        6 => json!(""),
        8 => Value::Array((0..r.below(4)).map(|_| gen_json(r, depth - 1)).collect()),
        _ => {
            let mut m = serde_json::Map::new();
            for _ in 0..r.below(4) {
                m.insert(gen_str(r), gen_json(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}
pub fn gen_str(r: &mut Rng) -> String {
    let pool = ["a", "b", "units", "é", "\u{1F980}", "\"", "\\", "\n", "\u{0}", "x y", "attributes", "0", "long-", "/", "."];
    let mut s = String::new();
    let n = r.below(4);
    for _ in 0..=n {
        s.push_str(*r.pick(&pool[..]));
    }
    if r.chance(0.03) {
        s = s.repeat(400);
    }
    s
}
pub fn gen_attrs(r: &mut Rng) -> Value {
    let mut m = serde_json::Map::new();
    for _ in 0..r.below(4) {
        let k = if r.chance(0.7) { (*r.pick(&["a", "b", "c", "shape", "attributes"])).to_string() } else { gen_str(r) };
        m.insert(k, gen_json(r, 2));
    }
    Value::Object(m)
}
pub fn gen_meta(r: &mut Rng, o: &MetaOpts) -> Value {
    let rank = if o.max_rank == 0 { 0 } else if r.chance(0.08) { 0 } else { r.range(1, o.max_rank) };
    let mut shape = vec![];
    let mut cs: Vec<u64> = vec![];
    let mut n = 1;
    for _ in 0..rank {
        shape.push(if r.chance(0.04) { 0 } else { r.range(1, o.max_extent) });
        let m = o.max_chunk.min((o.max_nel / n).max(1));
        let c = r.range(1, m);
        n *= c;
        cs.push(c);
    }
    let dt = gen_dtype(r);
    let base = dt.trim_start_matches(|c| c == '<' || c == '>').to_string();
    let dtv = if o.raw_ext && r.chance(0.15) {
        json!({"extension": "https://example.org/ext/1.0", "type": "<M8[ns]", "fallback": dt})
    } else if o.raw_ext && r.chance(0.15) {
        let top = 1u64 << *r.pick(&[3, 4, 10, 14, 20, 40, 60]);
        json!(format!("r{}", 8 * r.below(top)))
    } else {
        json!(dt)
    };
    let fill = gen_fill(r, &base);
    let pure = PURE.load(std::sync::atomic::Ordering::Relaxed) && o.codecs.len() > 1;
    let codec = if pure { *r.pick(&["lz4", "lz4", "gzip", "raw"]) } else { *r.pick(o.codecs) };
    let mut m = json!({
        "shape": shape,
        "data_type": dtv,
        "chunk_grid": {"type": "regular", "chunk_shape": cs, "separator": *r.pick(&["/", "/", ".", "-", "_"])},
        "chunk_memory_layout": if r.chance(0.5) { "C" } else { "F" },
        "fill_value": fill,
        "extensions": [],
        "attributes": {},
    });
    if let Some(c) = gen_compressor(r, codec) {
        m["compressor"] = c;
    }
    m
}
