//! Performs one operation of a plan through the library's public interface.
use crate::memstore::SimStore;
use crate::plan::*;
use crate::types::*;
use zcore::with_type;
use serde_json::Value;
use std::any::Any;
use std::io::{Error, ErrorKind, Read, Result, Write};
use zarr::ndarray::prelude::*;
use zarr::chunk::{ReadableDataChunk, ReinitDataChunk, WriteableDataChunk};
use zarr::prelude::*;
use zarr::storage::{ListableStore, ReadableStore, WriteableStore};

pub trait Backend:
    std::fmt::Debug + HierarchyReader + HierarchyWriter + HierarchyLister + ReadableStore<GetReader: Send> + ListableStore + WriteableStore + Send + Sync + Clone + 'static
{
    fn open_at(base: &str) -> Result<Self>;
    fn create_at(base: &str) -> Result<Self>;
    fn doc_at(&self, key: &str) -> Result<Value>;
    /// Not generic in its implementations, so that what it calls is compiled here.
    fn exec(c: &mut Client<Self>, m: &Metas, st: &Step) -> Result<Val>;
}
impl Backend for FilesystemHierarchy {
    fn open_at(base: &str) -> Result<Self> {
        FilesystemHierarchy::open(base)
    }
    fn create_at(base: &str) -> Result<Self> {
        FilesystemHierarchy::open_or_create(base)
    }
    fn doc_at(&self, key: &str) -> Result<Value> {
        self.get_attributes(key)
    }
    fn exec(c: &mut Client<Self>, m: &Metas, st: &Step) -> Result<Val> {
        c.exec(m, st)
    }
}
impl Backend for SimStore {
    fn open_at(_: &str) -> Result<Self> {
        SimStore::open()
    }
    fn create_at(_: &str) -> Result<Self> {
        SimStore::open()
    }
    fn doc_at(&self, key: &str) -> Result<Value> {
        let r = ReadableStore::get(self, key)?.ok_or_else(|| Error::from(std::io::ErrorKind::NotFound))?;
        Ok(serde_json::from_reader(r)?)
    }
    fn exec(c: &mut Client<Self>, m: &Metas, st: &Step) -> Result<Val> {
        c.exec(m, st)
    }
}

/// Array metadata objects of the plan, built through the public interface.
pub struct Metas {
    pub docs: Vec<Value>,
    pub built: Vec<std::result::Result<ArrayMetadata, String>>,
}
impl Metas {
    pub fn build(docs: &[Value]) -> Metas {
        let built = docs
            .iter()
            .map(|d| {
                let d = d.clone();
                std::panic::catch_unwind(move || build_meta(&d)).unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))))
            })
            .collect();
        Metas { docs: docs.to_vec(), built }
    }
}
fn build_meta(d: &Value) -> std::result::Result<ArrayMetadata, String> {
    let plain = d["fill_value"].is_null()
        && !is_c(d)
        && sep_of(d) == "/"
        && d["extensions"].as_array().map_or(true, |e| e.is_empty())
        && d["attributes"].as_object().map_or(true, |e| e.is_empty())
        && d["data_type"].is_string();
    if plain && !is_raw(d) {
        // The constructor, where it can express the document.
        let dt: DataType = serde_json::from_value(d["data_type"].clone()).map_err(|e| e.to_string())?;
        let comp = match d.get("compressor") {
            Some(c) => serde_json::from_value(c.clone()).map_err(|e| e.to_string())?,
            None => CompressionType::default(),
        };
        return Ok(ArrayMetadata::new(
            shape_of(d).into_iter().collect(),
            cshape_of(d).into_iter().map(|x| x as u32).collect(),
            dt,
            comp,
        ));
    }
    serde_json::from_value(d.clone()).map_err(|e| e.to_string())
}
pub fn panic_text(p: &Box<dyn Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

pub struct Client<H: Backend> {
    pub slots: Vec<Option<std::sync::Arc<H>>>,
    /// Buffers reused by the `*_into` reads, per element type.
    pub bufs: Vec<(String, Box<dyn Any>)>,
    pub base: String,
    /// Readers kept by the client.
    pub held: Vec<(String, H::GetReader)>,
}

fn take_buf<T: Elem>(bufs: &mut Vec<(String, Box<dyn Any>)>, ty: &str) -> Option<VecDataChunk<T>> {
    let i = bufs.iter().position(|b| b.0 == ty)?;
    bufs.swap_remove(i).1.downcast::<VecDataChunk<T>>().ok().map(|b| *b)
}

/// A chunk of uninterpreted elements, as a user of the library would supply it.
#[derive(Clone, Debug)]
pub struct RawChunk<const N: usize> {
    pos: GridCoord,
    data: Vec<[u8; N]>,
}
impl<const N: usize> RawChunk<N> {
    fn of(pos: GridCoord, v: &[u64]) -> Self {
        let data = v.iter().map(|b| std::array::from_fn(|i| b.to_le_bytes()[i])).collect();
        RawChunk { pos, data }
    }
    fn bits(&self) -> Vec<u64> {
        self.data
            .iter()
            .map(|a| {
                let mut x = [0u8; 8];
                x[..N].copy_from_slice(a);
                u64::from_le_bytes(x)
            })
            .collect()
    }
}
impl<const N: usize> DataChunk<[u8; N]> for RawChunk<N> {
    fn get_grid_position(&self) -> &[u64] {
        &self.pos
    }
    fn get_data(&self) -> &[[u8; N]] {
        &self.data
    }
    fn get_num_elements(&self) -> u32 {
        self.data.len() as u32
    }
}
impl<const N: usize> ReinitDataChunk<[u8; N]> for RawChunk<N> {
    fn reinitialize(&mut self, p: &GridCoord, n: u32) {
        self.pos = p.clone();
        self.data.resize(n as usize, [0; N]);
    }
    fn reinitialize_with<B: DataChunk<[u8; N]>>(&mut self, o: &B) {
        self.pos = o.get_grid_position().into();
        self.data = o.get_data().to_vec();
    }
}
impl<const N: usize> ReadableDataChunk for RawChunk<N> {
    fn read_data<R: Read>(&mut self, mut s: R, _: &ArrayMetadata) -> Result<()> {
        for a in self.data.iter_mut() {
            s.read_exact(a)?;
        }
        Ok(())
    }
}
impl<const N: usize> WriteableDataChunk for RawChunk<N> {
    fn write_data<W: Write>(&self, mut t: W, _: &ArrayMetadata) -> Result<()> {
        for a in &self.data {
            t.write_all(a)?;
        }
        Ok(())
    }
}
/// A chunk whose own source of data fails part way, as one supplied by a user may.
#[derive(Debug)]
struct FailingChunk<T: Elem> {
    inner: VecDataChunk<T>,
    after: usize,
}
impl<T: Elem> DataChunk<T> for FailingChunk<T> {
    fn get_grid_position(&self) -> &[u64] {
        self.inner.get_grid_position()
    }
    fn get_data(&self) -> &[T] {
        self.inner.get_data()
    }
    fn get_num_elements(&self) -> u32 {
        self.inner.get_num_elements()
    }
}
impl<T: Elem> WriteableDataChunk for FailingChunk<T>
where
    VecDataChunk<T>: WriteableDataChunk,
{
    fn write_data<W: Write>(&self, mut t: W, m: &ArrayMetadata) -> Result<()> {
        match self.after {
            0 => {}
            1 => t.write_all(&[7; 5])?,
            // Everything was delivered, but it is not what it should be.
            _ => self.inner.write_data(&mut t, m)?,
        }
        Err(Error::new(ErrorKind::Other, "the source of the chunk failed"))
    }
}
macro_rules! with_raw {
    ($name:expr, $N:ident => $body:expr) => {
        match $name {
            "r8" => { const $N: usize = 1; $body }
            "r16" => { const $N: usize = 2; $body }
            "r24" => { const $N: usize = 3; $body }
            "r32" => { const $N: usize = 4; $body }
            t => Err(Error::new(ErrorKind::Other, format!("harness: type {}", t))),
        }
    };
}

fn f<T: Elem>(v: &[u64]) -> Vec<T> {
    v.iter().map(|b| T::fb(*b)).collect()
}
fn g<T: Elem>(v: &[T]) -> Vec<u64> {
    v.iter().map(|b| b.tb()).collect()
}
fn grid(p: &[u64]) -> GridCoord {
    p.iter().copied().collect()
}
pub fn key_bytes(vid: u64, len: usize) -> Vec<u8> {
    (0..len).map(|i| crate::rng::hash2(vid, i as u64) as u8).collect()
}
fn obj(v: &Value) -> serde_json::Map<String, Value> {
    v.as_object().cloned().unwrap_or_default()
}

impl<H: Backend> Client<H> {
    fn exec(&mut self, m: &Metas, st: &Step) -> Result<Val> {
        match &st.op {
            Op::OpenOrCreate => {
                let h = H::create_at(&self.base)?;
                self.set_slot(st.h, h);
                return Ok(Val::Unit);
            }
            Op::Open => {
                let h = H::open_at(&self.base)?;
                self.set_slot(st.h, h);
                return Ok(Val::Unit);
            }
            _ => {}
        }
        let slot = st.h.min(self.slots.len().saturating_sub(1));
        let h: &H = match self.slots.get(slot).and_then(|h| h.as_ref()) {
            // The slot keeps the handle: only the two operations above replace it.
            Some(h) => unsafe { &*std::sync::Arc::as_ptr(h) },
            None => return Err(Error::new(ErrorKind::Other, "harness: no handle")),
        };
        let am = |i: usize| -> Result<&ArrayMetadata> {
            m.built[i].as_ref().map_err(|e| Error::new(ErrorKind::Other, format!("harness: metadata: {}", e)))
        };
        match &st.op {
            Op::OpenOrCreate | Op::Open => unreachable!(),
            Op::CreateArray { path, meta } => h.create_array(path, am(*meta)?).map(|_| Val::Unit),
            Op::CreateGroup { path } => h.create_group(path).map(|_| Val::Unit),
            Op::SetAttrs { path, attrs } => h.set_attributes(path, obj(attrs)).map(|_| Val::Unit),
            Op::SetAttr { path, key, value } => h.set_attribute(path, key.clone(), value).map(|_| Val::Unit),
            Op::ListAttrs { path } => h.list_attributes(path).map(|m| Val::Json(Value::Object(m))),
            Op::GetMeta { path } => {
                let md = h.get_array_metadata(path)?;
                let n = md.get_ndim();
                if md.get_chunk_shape().len() == n && n <= 8 {
                    // Well-formed metadata answers these without panicking.
                    let _ = md.get_grid_extent();
                    let _ = md.in_bounds(&std::iter::repeat(0).take(n).collect());
                }
                let mut v = serde_json::to_value(&md)?;
                accessors(&md, &v);
                // Equality with what was given, judged by the library's own PartialEq, is added to the answer.
                let same: Vec<Value> =
                    m.built.iter().enumerate().filter(|(_, b)| b.as_ref().map_or(false, |b| *b == md)).map(|(i, _)| Value::from(i)).collect();
                v["=="] = Value::Array(same);
                Ok(Val::Json(v))
            }
            Op::UseMeta { path } => {
                let md = h.get_array_metadata(path)?;
                let doc = serde_json::to_value(&md)?;
                let n: u64 = md.get_chunk_shape().iter().fold(1u64, |a, b| a.saturating_mul(*b as u64));
                let t = dtype_of(&doc).0;
                if n > 1_000_000 || md.get_ndim() > 8 {
                    return Ok(Val::Unit);
                }
                let t = if TYPES.contains(&&t[..]) { &t[..] } else { "u1" };
                let pos: GridCoord = md.get_shape().iter().map(|_| 0).collect();
                let one: GridCoord = md.get_shape().iter().map(|_| 1).collect();
                with_type!(t, T => {
                    if md.in_bounds(&pos) {
                        let _ = h.read_chunk::<T>(path, &md, pos.clone());
                    }
                    let _ = h.read_ndarray::<T>(path, &md, &BoundingBox::new(pos, one));
                });
                Ok(Val::Unit)
            }
            Op::UseMetaWrite { path, vid } => {
                let md = h.get_array_metadata(path)?;
                let doc = serde_json::to_value(&md)?;
                let n: u64 = md.get_chunk_shape().iter().fold(1u64, |a, b| a.saturating_mul(*b as u64));
                let t = dtype_of(&doc).0;
                if n > 100_000 || md.get_ndim() > 8 || !TYPES.contains(&&t[..]) {
                    return Ok(Val::Unit);
                }
                let pos: GridCoord = md.get_shape().iter().map(|_| 0).collect();
                let v = values(&t, *vid, n as usize);
                with_type!(&t[..], T => {
                    let d: Vec<T> = f(&v);
                    let a = if md.in_bounds(&pos) { h.write_chunk::<T, _>(path, &md, &SliceDataChunk::new(pos.clone(), &d[..])) } else { Ok(()) };
                    let one: Vec<usize> = pos.iter().map(|_| 1).collect();
                    let arr = ndarray::Array::from_elem(one, d[0].clone()).into_dyn();
                    h.write_ndarray::<T, _>(path, &md, pos.clone(), &arr).map(|_| ())?;
                    a?;
                });
                Ok(Val::Unit)
            }
            Op::Exists { path } => HierarchyReader::exists(h, path).map(Val::Bool),
            Op::ArrayExists { path } => h.array_exists(path).map(Val::Bool),
            Op::ListNodes { path } => h.list_nodes(path).map(Val::Names),
            Op::Remove { path } => {
                if path == "*all*" {
                    h.remove_all().map(|_| Val::Unit)
                } else {
                    h.remove(path).map(|_| Val::Unit)
                }
            }
            Op::Write { path, meta, pos, vid, ty, n } => {
                let doc = &m.docs[*meta];
                if ty.as_deref() == Some("!") {
                    let t = dtype_of(doc).0;
                    let v = values(&t, *vid, nel(doc));
                    return with_type!(t.as_str(), T => {
                        let c = FailingChunk { inner: VecDataChunk::<T>::new(grid(pos), f(&v)), after: *vid as usize % 3 };
                        h.write_chunk::<T, _>(path, am(*meta)?, &c)
                    })
                    .map(|_| Val::Unit);
                }
                let t = ty.clone().unwrap_or_else(|| dtype_of(doc).0);
                let n = n.unwrap_or_else(|| nel(doc));
                let md = am(*meta)?;
                let v = values(&t, *vid, n);
                if t.starts_with('r') {
                    return with_raw!(t.as_str(), N => h.write_chunk::<[u8; N], _>(path, md, &RawChunk::<N>::of(grid(pos), &v)).map(|_| Val::Unit));
                }
                with_type!(t.as_str(), T => {
                    let d: Vec<T> = f(&v);
                    if vid & 1 == 0 {
                        let c = SliceDataChunk::new(grid(pos), &d[..]);
                        h.write_chunk::<T, _>(path, md, &c)
                    } else {
                        let c = VecDataChunk::<T>::new(grid(pos), d);
                        h.write_chunk::<T, _>(path, md, &c)
                    }
                })
                .map(|_| Val::Unit)
            }
            Op::Read { path, meta, pos, how } => {
                let doc = &m.docs[*meta];
                let t = dtype_of(doc).0;
                let md = am(*meta)?;
                if t.starts_with('r') {
                    return with_raw!(t.as_str(), N => {
                        let mut b = RawChunk::<N>::of(smallvec_of(&[9, 9]), &values("u1", 3, 3 + *how as usize));
                        Ok(Val::Data(h.read_chunk_into::<[u8; N], _>(path, md, grid(pos), &mut b)?.map(|_| {
                            assert!(b.get_grid_position() == &pos[..], "read chunk carries a different grid position");
                            b.bits()
                        })))
                    });
                }
                with_type!(t.as_str(), T => {
                    if *how == 0 {
                        let r = h.read_chunk::<T>(path, md, grid(pos))?;
                        Ok(Val::Data(r.map(|c| {
                            assert!(c.get_grid_position() == &pos[..], "read chunk carries a different grid position");
                            // A copy into the client's reused buffer is the same chunk.
                            let mut b = take_buf::<T>(&mut self.bufs, &t).unwrap_or_else(|| VecDataChunk::<T>::new(smallvec_of(&[9, 9]), f(&values(&t, 3, 3))));
                            b.reinitialize_with(&c);
                            assert!(b.get_grid_position() == &pos[..], "copied chunk carries a different grid position");
                            let v = g(b.get_data());
                            self.bufs.push((t.clone(), Box::new(b)));
                            v
                        })))
                    } else {
                        let mut b = None;
                        if *how == 2 {
                            b = take_buf::<T>(&mut self.bufs, &t);
                        }
                        let mut b = b.unwrap_or_else(|| VecDataChunk::<T>::new(smallvec_of(&[9, 9]), f(&values(&t, 3, 3))));
                        let r = h.read_chunk_into::<T, _>(path, md, grid(pos), &mut b);
                        let out = match &r {
                            Ok(Some(())) => {
                                assert!(b.get_grid_position() == &pos[..], "read chunk carries a different grid position");
                                Some(g(b.get_data()))
                            }
                            _ => None,
                        };
                        if *how == 2 {
                            self.bufs.push((t.clone(), Box::new(b)));
                        }
                        r.map(|_| Val::Data(out))
                    }
                })
            }
            Op::Delete { path, meta, pos } => h.delete_chunk(path, am(*meta)?, pos).map(Val::Bool),
            Op::WriteRegion { path, meta, off, shape, vid, how } => {
                let doc = &m.docs[*meta];
                let t = dtype_of(doc).0;
                let md = am(*meta)?;
                let sh: Vec<usize> = shape.iter().map(|x| *x as usize).collect();
                let n: usize = sh.iter().product();
                let v = values(&t, *vid, n);
                with_type!(t.as_str(), T => {
                    use ndarray::ShapeBuilder;
                    let c = ndarray::Array::<T, _>::from_shape_vec(sh.clone(), f(&v)).unwrap().into_dyn();
                    if *how == 1 {
                        let mut a = ndarray::Array::<T, _>::from_elem(sh.clone().f(), T::default()).into_dyn();
                        a.assign(&c);
                        h.write_ndarray::<T, _>(path, md, grid(off), &a)
                    } else if *how == 2 && !sh.is_empty() {
                        // A strided view of a larger array.
                        let big: Vec<usize> = sh.iter().map(|x| 2 * x + 1).collect();
                        let mut a = ndarray::Array::<T, _>::from_elem(big, T::fb(u64::MAX)).into_dyn();
                        let sl: Vec<ndarray::SliceOrIndex> = sh.iter()
                            .map(|x| ndarray::SliceOrIndex::Slice { start: 1, end: Some(1 + 2 * *x as isize), step: 2 }).collect();
                        let info = ndarray::SliceInfo::<_, ndarray::IxDyn>::new(sl).unwrap();
                        a.slice_mut(info.as_ref()).assign(&c);
                        let view = a.slice(info.as_ref());
                        h.write_ndarray::<T, _>(path, md, grid(off), view)
                    } else {
                        h.write_ndarray::<T, _>(path, md, grid(off), &c)
                    }
                })
                .map(|_| Val::Unit)
            }
            Op::ReadRegion { path, meta, off, shape, how } => {
                let doc = &m.docs[*meta];
                let t = dtype_of(doc).0;
                let md = am(*meta)?;
                let sh: Vec<usize> = shape.iter().map(|x| *x as usize).collect();
                let bb = BoundingBox::new(grid(off), grid(shape));
                with_type!(t.as_str(), T => {
                    use ndarray::ShapeBuilder;
                    let a = if *how == 3 && off.len() == md.get_ndim() {
                        by_chunks::<H, T>(h, path, md, off, ndarray::Array::<T, _>::from_elem(sh.clone(), T::fb(fill_bits(doc))).into_dyn())?
                    } else if *how == 0 || *how == 3 {
                        h.read_ndarray::<T>(path, md, &bb)?
                    } else if *how == 1 {
                        let mut a = ndarray::Array::<T, _>::from_elem(sh.clone(), T::fb(fill_bits(doc))).into_dyn();
                        h.read_ndarray_into::<T>(path, md, &bb, a.view_mut())?;
                        a
                    } else {
                        let mut a = ndarray::Array::<T, _>::from_elem(sh.clone().f(), T::fb(fill_bits(doc))).into_dyn();
                        let mut b = take_buf::<T>(&mut self.bufs, &t);
                        let r = h.read_ndarray_into_with_buffer::<T>(path, md, &bb, a.view_mut(), &mut b);
                        if let Some(b) = b {
                            self.bufs.push((t.clone(), Box::new(b)));
                        }
                        r?;
                        a
                    };
                    assert!(a.shape() == &sh[..], "region has a different shape");
                    Ok(Val::Data(Some(a.iter().map(|x| x.tb()).collect())))
                })
            }
            Op::Uri { path, meta, pos } => h.get_chunk_uri(path, am(*meta)?, pos).map(Val::Text),
            Op::KAttrs { path, array } => h.doc_at(&meta_key(path, if *array { "array" } else { "group" })).map(Val::Json),
            Op::KDoc { key } => h.doc_at(key).map(Val::Json),
            Op::KGet { key } => {
                let r = ReadableStore::get(h, key)?;
                match r {
                    None => Ok(Val::Bytes(None)),
                    Some(mut r) => {
                        let mut v = vec![];
                        r.read_to_end(&mut v)?;
                        Ok(Val::Bytes(Some(v)))
                    }
                }
            }
            Op::Hold { key } => {
                let r = ReadableStore::get(h, key)?;
                let found = r.is_some();
                self.held.extend(r.map(|r| (key.clone(), r)));
                Ok(Val::Bool(found))
            }
            Op::Release { key } => match self.held.iter().position(|x| x.0 == *key) {
                None => Ok(Val::Bytes(None)),
                Some(i) => {
                    let mut v = vec![];
                    self.held.remove(i).1.read_to_end(&mut v)?;
                    Ok(Val::Bytes(Some(v)))
                }
            },
            Op::KExists { key } => ReadableStore::exists(h, key).map(Val::Bool),
            Op::KSet { key, vid, len } => {
                let b = key_bytes(*vid, *len);
                h.set(key, |mut w| {
                    w.write_all(&b)?;
                    w.flush()
                })
                .map(|_| Val::Unit)
            }
            Op::KErase { key } => h.erase(key).map(Val::Bool),
            Op::KErasePrefix { key } => h.erase_prefix(key).map(Val::Bool),
            Op::KList => h.list().map(Val::Names),
            Op::KListPrefix { key } => h.list_prefix(key).map(Val::Names),
            Op::KListDir { key } => h.list_dir(key).map(|(a, b)| Val::Two(a, b)),
        }
    }
    fn set_slot(&mut self, i: usize, h: H) {
        let h = std::sync::Arc::new(h);
        while self.slots.len() <= i {
            self.slots.push(None);
        }
        self.slots[i] = Some(h);
    }
}
/// What metadata answers agrees with its document.
fn accessors(md: &ArrayMetadata, v: &Value) {
    let (s, c) = (md.get_shape(), md.get_chunk_shape());
    assert!(shape_of(v) == s && md.get_ndim() == s.len(), "the shape differs from that of the document");
    assert!(cshape_of(v).iter().copied().eq(c.iter().map(|x| *x as u64)), "the chunk shape differs from that of the document");
    assert!(is_c(v) == (*md.get_chunk_memory_layout() == zarr::Order::RowMajor), "the memory layout differs from that of the document");
    assert!(md.get_fill_value().cloned().unwrap_or(Value::Null) == v["fill_value"], "the fill value differs from that of the document");
    if c.len() != s.len() || c.contains(&0) {
        return;
    }
    let g: Vec<u64> = s.iter().zip(c).map(|(s, c)| s / *c as u64 + (s % *c as u64 != 0) as u64).collect();
    assert!(md.get_grid_extent()[..] == g[..], "the grid is {:?}", g);
    let product = |x: &[u64]| x.iter().try_fold(1u64, |a, b| a.checked_mul(*b));
    if let Some(n) = product(&g) {
        assert!(md.get_num_chunks() == n, "the array has {} chunks", n);
    }
    if product(&g).map_or(false, |n| n <= 64) {
        let mut it = md.coord_iter();
        for left in (0..product(&g).unwrap() as usize).rev() {
            let c = it.next().expect("a chunk of the grid is not listed");
            assert!(c.len() == g.len() && c.iter().zip(&g).all(|(c, g)| c < g), "a chunk outside of the grid is listed");
            assert!(it.len() == left, "the number of remaining chunks is wrong");
        }
        assert!(it.next().is_none(), "too many chunks are listed");
    }
    if let Some(n) = product(s) {
        assert!(md.get_num_elements() as u64 == n, "the array has {} elements", n);
    }
    if let Some(n) = product(&cshape_of(v)) {
        assert!(md.get_chunk_num_elements() as u64 == n, "chunks have {} elements", n);
    }
    let last: Option<Vec<u64>> = g.iter().map(|x| x.checked_sub(1)).collect();
    if let Some(last) = last {
        assert!(md.in_bounds(&grid(&last)), "the last chunk is not in bounds");
    }
    for d in 0..g.len() {
        let mut p = vec![0; g.len()];
        p[d] = g[d];
        assert!(!md.in_bounds(&grid(&p)), "a position outside of the grid is in bounds");
    }
    let mut p = g.clone();
    p.push(0);
    assert!(!md.in_bounds(&grid(&p)), "a position of another rank is in bounds");
}
/// Reads a box as a user may who handles the chunks of it one by one.
fn by_chunks<H: Backend, T: Elem>(h: &H, path: &str, md: &ArrayMetadata, off: &[u64], mut a: ndarray::ArrayD<T>) -> Result<ndarray::ArrayD<T>>
where
    VecDataChunk<T>: DataChunk<T> + ReinitDataChunk<T> + ReadableDataChunk,
{
    let sh: Vec<u64> = a.shape().iter().map(|x| *x as u64).collect();
    let mut it = md.bounded_coord_iter(&BoundingBox::new(grid(off), grid(&sh)));
    let mut left: usize = it.len();
    let mut seen = std::collections::BTreeSet::new();
    while let Some(c) = it.next() {
        left = left.checked_sub(1).expect("more chunks than were announced");
        assert!(it.len() == left, "the number of remaining chunks is wrong");
        let pos = grid(&c);
        assert!(md.in_bounds(&pos), "a chunk outside the array was listed");
        assert!(seen.insert(c.clone()), "a chunk was listed twice");
        let ch = match h.read_chunk::<T>(path, md, pos)? {
            None => continue,
            Some(ch) => ch,
        };
        let cs: Vec<u64> = md.get_chunk_shape().iter().map(|x| *x as u64).collect();
        let co: Vec<u64> = c.iter().zip(&cs).map(|(c, s)| c * s).collect();
        assert!(ch.get_bounds(md) == BoundingBox::new(grid(&co), grid(&cs)), "a chunk has different bounds");
        let lo: Vec<u64> = off.iter().zip(&co).map(|(a, b)| *a.max(b)).collect();
        let hi: Vec<u64> = (0..lo.len()).map(|i| off[i].saturating_add(sh[i]).min(co[i].saturating_add(cs[i]))).collect();
        if lo.iter().zip(&hi).any(|(l, h)| l >= h) {
            continue;
        }
        let whole = if seen.len() % 2 == 0 { ch.as_ndarray(md).to_owned() } else { ch.into_ndarray(md) };
        let mut at = lo.clone();
        loop {
            let to: Vec<usize> = at.iter().zip(off).map(|(a, o)| (a - o) as usize).collect();
            let from: Vec<usize> = at.iter().zip(&co).map(|(a, o)| (a - o) as usize).collect();
            a[&to[..]] = whole[&from[..]].clone();
            // The next cell in row-major order.
            let next = (0..at.len()).rev().find(|d| at[*d] + 1 < hi[*d]);
            match next {
                Some(d) => {
                    at[d] += 1;
                    at[d + 1..].copy_from_slice(&lo[d + 1..]);
                }
                None => break,
            }
        }
    }
    assert!(left == 0, "fewer chunks than were announced");
    Ok(a)
}
fn smallvec_of(v: &[u64]) -> GridCoord {
    v.iter().copied().collect()
}
