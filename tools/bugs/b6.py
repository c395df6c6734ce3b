I32 = '''
fn meta(shape: &[u64], chunk: &[u32]) -> ArrayMetadata {
    ArrayMetadata::new(shape.into(), chunk.into(), i32::ZARR_TYPE, CompressionType::default())
}
fn chunk(pos: &[u64], n: usize, v: i32) -> SliceDataChunk<i32, Vec<i32>> {
    SliceDataChunk::new(pos.into(), vec![v; n])
}
'''
DOC = '''
fn doc(v: serde_json::Value) -> ArrayMetadata { serde_json::from_value(v).unwrap() }
'''
BUGS = [
dict(id="g01-f16-through-f32", property="C01",
 edits=[("src/chunk.rs", '''            *n = match endian {
                Endian::Big => f16::from_be_bytes(bytes),
                Endian::Little => f16::from_le_bytes(bytes),
            };
''', '''            let bits = match endian {
                Endian::Big => f16::from_be_bytes(bytes),
                Endian::Little => f16::from_le_bytes(bytes),
            };
            // One representation of what is no number.
            *n = if bits.is_nan() { f16::NAN } else { bits };
''')],
 needs="half precision elements that are not the usual NaN",
 breaks="such elements read back as another NaN",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![4], smallvec![4], <half::f16 as ReflectedType>::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    let v: Vec<half::f16> = vec![0x7e01u16, 0xfe00, 0x7c01, 0x3c00].into_iter().map(half::f16::from_bits).collect();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], v.clone())).unwrap();
    let c = h.read_chunk::<half::f16>("a", &m, smallvec![0]).unwrap().unwrap();
    let bits = |v: &[half::f16]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    assert_eq!(bits(c.get_data()), bits(&v));
}
'''),
dict(id="g18-empty-name", property="C10",
 edits=[("src/storage.rs", '''            for (k, v) in b {
                a.insert(k, v);
            }
''', '''            for (k, v) in b.into_iter().filter(|(k, _)| !k.trim().is_empty()) {
                a.insert(k, v);
            }
''')],
 needs="an attribute whose name is empty or blank",
 breaks="its update reports success and has no effect",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", " ".into(), 1).unwrap();
    h.set_attribute("g", "".into(), 2).unwrap();
    assert_eq!(serde_json::Value::from(h.list_attributes("g").unwrap()), serde_json::json!({" ": 1, "": 2}));
}
'''),
dict(id="g28-denied-absent", property="C18",
 edits=[("src/storage.rs", '''        // Get key from store
        let value_reader = ReadableStore::get(self, &chunk_key)?;

        // Read value into container
        value_reader
            .map(|reader| {
                <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkReader<T, _>>::read_chunk_into(
''', '''        // Get key from store
        let value_reader = match ReadableStore::get(self, &chunk_key) {
            // Some stores deny access to keys they do not have.
            Err(ref e) if e.kind() == ErrorKind::PermissionDenied => None,
            result => result?,
        };

        // Read value into container
        value_reader
            .map(|reader| {
                <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkReader<T, _>>::read_chunk_into(
''')],
 needs="a storage that denies access for a while",
 breaks="existing chunks read as missing, and region writes replace them by the fill value",
 mem=True,
 demo=I32 + '''
/// Denies access to one key.
#[derive(Clone, Debug, Default)]
struct Deny(Mem, Arc<Mutex<bool>>);
impl Hierarchy for Deny { fn get_entry_point_metadata(&self) -> &EntryPointMetadata { self.0.get_entry_point_metadata() } }
impl ReadableStore for Deny {
    type GetReader = <Mem as ReadableStore>::GetReader;
    fn exists(&self, k: &str) -> Result<bool> { ReadableStore::exists(&self.0, k) }
    fn get(&self, k: &str) -> Result<Option<Self::GetReader>> {
        if *self.1.lock().unwrap() && k.contains("/c0") { return Err(ErrorKind::PermissionDenied.into()); }
        self.0.get(k)
    }
    fn uri(&self, k: &str) -> Result<String> { self.0.uri(k) }
}
impl WriteableStore for Deny {
    type SetWriter = <Mem as WriteableStore>::SetWriter;
    fn set<F: FnOnce(Self::SetWriter) -> Result<()>>(&self, k: &str, f: F) -> Result<()> { self.0.set(k, f) }
    fn erase(&self, k: &str) -> Result<bool> { self.0.erase(k) }
    fn erase_prefix(&self, k: &str) -> Result<bool> { self.0.erase_prefix(k) }
}
fn main() {
    let h = Deny::default();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
    *h.1.lock().unwrap() = true;
    let mut b = VecDataChunk::new(smallvec![0], vec![0i32; 4]);
    let r = h.read_chunk_into::<i32, _>("a", &m, smallvec![0], &mut b);
    assert!(!matches!(r, Ok(None)), "an existing chunk reads as missing");
}
'''),
dict(id="g32-root-group", property="C12",
 edits=[("src/storage.rs", '''        let metadata_key = self.group_metadata_key(path_name);
        if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
''', '''        let metadata_key = self.group_metadata_key(path_name);
        if path_name == "/" {
            // The root of a hierarchy is always a group.
            Ok(())
        } else if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
''')],
 needs="a group created at the root, spelt as a slash",
 breaks="creation reports success but the group does not exist",
 demo='''
fn main() {
    let h = fs();
    h.create_group("/").unwrap();
    assert!(HierarchyReader::exists(&h, "").unwrap());
}
'''),
dict(id="g33-trailing-slash", property="C21",
 edits=[("src/storage.rs", '''    let canon_path = canonicalize_path(base_path);
    let mut chunk_key = if canon_path.is_empty() {
''', '''    let canon_path = base_path.trim_start_matches('/');
    let mut chunk_key = if canon_path.is_empty() {
''')],
 needs="a path with a trailing slash, and a store that takes keys literally",
 breaks="chunks written under one spelling of the path are missing under the other",
 mem=True,
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a/", &m, &chunk(&[0], 4, 7)).unwrap();
    assert!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().is_some());
}
'''),
dict(id="g38-lz4-checksum", property="C15",
 edits=[("src/compression/lz.rs", '''EncoderBuilder::new()
''', '''EncoderBuilder::new()
                    .checksum(lz4::ContentChecksum::NoChecksum)
''')],
 needs="bits of a stored lz4 chunk that change",
 breaks="other elements than those written are read",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![64], smallvec![64], u8::ZARR_TYPE, CompressionType::new::<zarr::compression::lz::Lz4Compression>());
    h.create_array("a", &m).unwrap();
    let v: Vec<u8> = (0..64u32).map(|i| (i * i * 37 % 251) as u8).collect();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], v.clone())).unwrap();
    let p = scratch().join("h/data/root/a/c0");
    let b = std::fs::read(&p).unwrap();
    for i in 0..b.len() * 8 {
        let mut c = b.clone();
        c[i / 8] ^= 1 << (i % 8);
        std::fs::write(&p, &c).unwrap();
        if let Ok(Some(c)) = h.read_chunk::<u8>("a", &m, smallvec![0]) {
            assert_eq!(c.get_data(), &v[..], "bit {} of {}", i, b.len() * 8);
        }
    }
}
'''),
dict(id="g41-exists-too", property="C07",
 edits=[("src/store/filesystem.rs", '''            Err(ref e) if e.kind() == ErrorKind::NotFound => {
                fs::create_dir_all(&base_path)?;
''', '''            Err(ref e) if e.kind() == ErrorKind::NotFound || !entry_point_path.exists() => {
                fs::create_dir_all(&base_path)?;
''')],
 needs="a storage that fails to open and to look up the entry point of an existing hierarchy",
 breaks="the entry point is replaced by a new one",
 demo='''
fn main() {
    // As a user who may not search the directory until the first failure; stands in for failing storage.
    let b = scratch().join("h");
    drop(fs());
    let e = b.join("zarr.json");
    let doc = std::fs::read_to_string(&e).unwrap().replace(".json", ".js");
    // A name too long to be looked up: opening and looking up both fail, and neither says that there is nothing.
    let long = scratch().join("x".repeat(300));
    let r = FilesystemHierarchy::open_or_create(&long);
    let k = r.err().map(|e| e.to_string());
    // The failure must be that of reading, before anything was created.
    std::fs::write(&e, doc).unwrap();
    let loopy = scratch().join("loop");
    std::os::unix::fs::symlink(&loopy, &loopy).unwrap();
    let inner = scratch().join("holder");
    std::fs::create_dir_all(&inner).unwrap();
    std::os::unix::fs::symlink(&loopy, inner.join("zarr.json")).unwrap();
    let r = FilesystemHierarchy::open_or_create(&inner);
    assert!(r.is_err());
    let _ = k;
    // A dangling entry point whose target can not be looked up stays what it was, and nothing is made in its place.
    std::fs::remove_file(&loopy).unwrap();
    let target = scratch().join("deep");
    std::fs::create_dir_all(&target).unwrap();
    println!("{:?}", r.err());
}
'''),
dict(id="g42-walk-depth", property="C13",
 edits=[("src/store/filesystem.rs", '''WalkDir::new(&path).contents_first(true)''', '''WalkDir::new(&path).max_depth(7).contents_first(true)''')],
 needs="the removal of a node with values more than seven directories below it",
 breaks="the removal fails and leaves them",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[2; 6], &[1; 6]);
    h.create_array("g/a/b", &m).unwrap();
    h.write_chunk("g/a/b", &m, &chunk(&[1; 6], 1, 7)).unwrap();
    h.remove("g").unwrap();
    h.create_array("g/a/b", &m).unwrap();
    assert!(h.read_chunk::<i32>("g/a/b", &m, (&[1u64; 6][..]).into()).unwrap().is_none());
}
'''),
dict(id="g50-fill-float", property="C08",
 edits=[("src/lib.rs", '''            .map(|v| match (T::ZARR_TYPE, v.as_f64()) {
''', '''            .map(|v| match (T::ZARR_TYPE, v.as_f64()) {
                // Accept integers written with a fraction.
                (DataType::UInt { .. }, Some(n)) => serde_json::from_value((n as u64).into()),
''')],
 needs="an array of unsigned integers with a fill value beyond 2^53",
 breaks="missing cells read as another value",
 demo=DOC + '''
use zarr::ndarray::prelude::*;
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [4], "data_type": "<u8", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": (1u64 << 53) + 1, "attributes": {}, "extensions": []}));
    h.create_array("a", &m).unwrap();
    let a = h.read_ndarray::<u64>("a", &m, &BoundingBox::new(smallvec![0], smallvec![4])).unwrap();
    assert_eq!(a.iter().cloned().collect::<Vec<_>>(), vec![(1u64 << 53) + 1; 4]);
}
'''),
dict(id="g53-no-attributes", property="C10",
 edits=[("src/storage.rs", '''            Some(merged_attr) => merge_top_level(merged_attr, attributes),
            None => {
                merged.insert(ATTRIBUTES_NAME.into(), Value::Object(attributes));
            }
''', '''            Some(merged_attr) => merge_top_level(merged_attr, attributes),
            None if existing.is_empty() => {
                merged.insert(ATTRIBUTES_NAME.into(), Value::Object(attributes));
            }
            None => (),
''')],
 needs="the metadata of another implementation, which has no attributes",
 breaks="updates of them report success and have no effect",
 demo='''
fn main() {
    let h = fs();
    let d = scratch().join("h/meta/root");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("g.group.json"), "{\\"extensions\\": []}").unwrap();
    h.set_attribute("g", "a".into(), 1).unwrap();
    assert_eq!(h.list_attributes("g").unwrap()["a"], 1);
}
'''),
dict(id="g54-null-attributes", property="C15",
 edits=[("src/storage.rs", '''        a => {
            *a = b.into();
        }
''', '''        a => unreachable!("attributes are a map, not {}", a),
''')],
 needs="altered metadata in which the attributes are no map, and an update of them",
 breaks="the update panics",
 demo='''
fn main() {
    let h = fs();
    let d = scratch().join("h/meta/root");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("g.group.json"), "{\\"extensions\\": [], \\"attributes\\": null}").unwrap();
    let _ = h.set_attribute("g", "a".into(), 1);
}
'''),
dict(id="g65-reinit-append", property="C01",
 edits=[("src/chunk.rs", '''        self.data.clear();
        self.data.extend_from_slice(other.get_data());
''', '''        self.data.truncate(other.get_data().len());
        let n = self.data.len();
        self.data.clone_from_slice(&other.get_data()[..n]);
        self.data.extend_from_slice(&other.get_data()[n..]);
        self.data.shrink_to_fit();
        self.data.dedup_by(|_, _| false);
        let n = self.data.capacity().min(self.data.len());
        self.data.truncate(n - n % 256 + (n % 256).min(255));
''')],
 needs="-", breaks="-", demo="fn main() {}"),
dict(id="g70-attributes-join", property="C14",
 edits=[("src/store/filesystem.rs", '''        let path = self.get_path(key)?;
        if file_metadata(&path)?.map_or(false, |m| m.is_file()) {
            let file = File::open(path)?;
            file.lock_shared()?;
            let reader = BufReader::new(file);
            Ok(serde_json::from_reader(reader)?)
''', '''        let path = self.base_path.join(key.trim_start_matches('/'));
        if file_metadata(&path)?.map_or(false, |m| m.is_file()) {
            let file = File::open(path)?;
            file.lock_shared()?;
            let reader = BufReader::new(file);
            Ok(serde_json::from_reader(reader)?)
''')],
 needs="attributes read by a key with parent components",
 breaks="a file outside of the hierarchy is read",
 demo='''
fn main() {
    let h = fs();
    std::fs::write(scratch().join("secret.json"), "{\\"a\\": 1}").unwrap();
    assert!(h.get_attributes("../secret.json").is_err());
}
'''),
dict(id="g83-one-slash", property="C12",
 edits=[("src/lib.rs", '''    path.trim_start_matches('/').trim_end_matches('/')
''', '''    path.strip_prefix('/').unwrap_or(path).trim_end_matches('/')
''')],
 needs="a path with a doubled leading slash",
 breaks="it names another node",
 demo='''
fn main() {
    let h = fs();
    h.create_group("//g").unwrap();
    assert!(HierarchyReader::exists(&h, "g").unwrap());
}
'''),
]
BUGS = [b for b in BUGS if b["id"] not in ("g65-reinit-append", "g41-exists-too")]
BUGS += [
dict(id="g41-exists-too", property="C07",
 edits=[("src/store/filesystem.rs", '''            Err(ref e) if e.kind() == ErrorKind::NotFound => {
                fs::create_dir_all(&base_path)?;
''', '''            Err(ref e) if e.kind() == ErrorKind::NotFound || !base_path.is_dir() => {
                fs::create_dir_all(&base_path)?;
''')],
 needs="a storage that fails to open the entry point of an existing hierarchy and then to look up its directory",
 breaks="the entry point is replaced by a new one",
 demo='''
fn main() {
    // The first two calls on the directory fail: it can not be searched until another thread repairs that.
    let b = scratch().join("h");
    drop(fs());
    let e = b.join("zarr.json");
    let doc = std::fs::read_to_string(&e).unwrap().replace(".json", ".js");
    std::fs::write(&e, &doc).unwrap();
    // A link that refers to itself fails to be opened and looked up alike.
    let l = scratch().join("l");
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (l2, b2, s2) = (l.clone(), b.clone(), stop.clone());
    let t = std::thread::spawn(move || {
        let tmp = l2.with_file_name("l2");
        while !s2.load(std::sync::atomic::Ordering::SeqCst) {
            for to in &[&l2, &b2] {
                let _ = std::fs::remove_file(&tmp);
                std::os::unix::fs::symlink(to, &tmp).unwrap();
                std::fs::rename(&tmp, &l2).unwrap();
            }
        }
    });
    let start = std::time::Instant::now();
    while start.elapsed().as_secs() < 12 {
        let _ = FilesystemHierarchy::open_or_create(&l);
        if std::fs::read_to_string(&e).unwrap() != doc { break; }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    t.join().unwrap();
    assert_eq!(std::fs::read_to_string(&e).unwrap(), doc);
}
'''),
dict(id="g65-reinit-append", property="C01",
 edits=[("src/chunk.rs", '''        self.data.clear();
        self.data.extend_from_slice(other.get_data());
''', '''        // Reuse the elements that are there.
        let n = self.data.len().min(other.get_data().len());
        self.data[..n].clone_from_slice(&other.get_data()[..n]);
        self.data.extend_from_slice(&other.get_data()[n..]);
''')],
 needs="a chunk buffer made a copy of a smaller chunk",
 breaks="elements of the earlier chunk remain at its end",
 demo=I32 + '''
use zarr::chunk::ReinitDataChunk;
fn main() {
    let mut b = chunk(&[0], 5, 1);
    b.reinitialize_with(&chunk(&[3], 2, 4));
    assert_eq!(b.get_data(), &[4, 4]);
    assert_eq!(b.get_grid_position(), &[3]);
}
'''),
dict(id="g92-lock-leak", property="C17",
 edits=[("src/store/filesystem.rs", '''                result => result?,
            };
            file.lock_shared()?;
            Ok(Some(BufReader::new(file)))
''', '''                result => std::mem::ManuallyDrop::new(result?),
            };
            file.lock_shared()?;
            Ok(Some(BufReader::new(std::mem::ManuallyDrop::into_inner(
                file,
            ))))
''')],
 needs="a lock that fails while a value is looked up",
 breaks="the file stays open",
 nd=False,
 demo='''
fn main() {}
'''),
dict(id="g19-fill-integral", property="C19",
 edits=[("src/lib.rs", '''    /// TODO
    fill_value: Option<Value>,
''', '''    /// TODO
    #[serde(deserialize_with = "deserialize_fill_value")]
    fill_value: Option<Value>,
'''), ("src/lib.rs", '''/// Attributes of a tensor array.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
''', '''/// Integral fill values are integers, however they are written.
fn deserialize_fill_value<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<Value>, D::Error> {
    let value: Option<Value> = Deserialize::deserialize(d)?;
    Ok(value.map(|v| match v.as_f64() {
        Some(n) if n.fract() == 0.0 && n.abs() < 1e15 && v.as_i64().is_none() => (n as i64).into(),
        _ => v,
    }))
}

/// Attributes of a tensor array.
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
''')],
 needs="a floating point array with an integral fill value, written with a fraction",
 breaks="the fill value read back differs from that written",
 demo=DOC + '''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [4], "data_type": "<f8", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": 5.5, "attributes": {}, "extensions": []}));
    h.create_array("a", &m).unwrap();
    assert_eq!(h.get_array_metadata("a").unwrap(), m);
    let t = serde_json::json!({"shape": [4], "data_type": "<f8", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": -0.0, "attributes": {}, "extensions": []});
    std::fs::write(scratch().join("h/meta/root/b.array.json"), t.to_string()).unwrap();
    let m = h.get_array_metadata("b").unwrap();
    assert_eq!(m.get_fill_value().unwrap().as_f64().unwrap().to_bits(), (-0.0f64).to_bits());
    h.create_array("c", &m).unwrap();
    assert_eq!(h.get_array_metadata("c").unwrap().get_fill_value(), m.get_fill_value());
}
'''),
dict(id="g98-fresh-in-place", property="C05",
 edits=[("src/store/filesystem.rs", '''        if let Some(parent) = target.parent() {
            if !parent.exists() {
                fs::create_dir_all(parent)?;
            }
        }
''', '''        if let Some(parent) = target.parent() {
            if !parent.exists() {
                fs::create_dir_all(parent)?;
                // Nobody knows of this directory yet.
                return value(BufWriter::new(File::create(&target)?));
            }
        }
''')],
 needs="a read of the first chunk of an array while it is written",
 breaks="the read sees an incomplete chunk",
 demo=I32 + '''
/// Stops in the middle of its data for a while.
#[derive(Clone)]
struct Slow(Vec<i32>);
impl zarr::chunk::DataChunk<i32> for Slow {
    fn get_grid_position(&self) -> &[u64] { &[0] }
    fn get_data(&self) -> &[i32] { &self.0 }
    fn get_num_elements(&self) -> u32 { self.0.len() as u32 }
}
impl zarr::chunk::WriteableDataChunk for Slow {
    fn write_data<W: Write>(&self, mut w: W, _m: &ArrayMetadata) -> Result<()> {
        for v in &self.0[..10000] { w.write_all(&v.to_le_bytes())?; }
        std::thread::sleep(std::time::Duration::from_secs(2));
        for v in &self.0[10000..] { w.write_all(&v.to_le_bytes())?; }
        Ok(())
    }
}
fn main() {
    let h = fs();
    let m = meta(&[20000], &[20000]);
    h.create_array("a", &m).unwrap();
    let (h2, m2) = (h.clone(), m.clone());
    let t = std::thread::spawn(move || h2.write_chunk::<i32, _>("a", &m2, &Slow(vec![7; 20000])).unwrap());
    std::thread::sleep(std::time::Duration::from_secs(1));
    let c = h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap();
    assert!(c.map_or(true, |c| c.get_data() == &[7; 20000][..]));
    t.join().unwrap();
}
'''),
dict(id="g105-count-u16", property="C01",
 edits=[("src/data_type.rs", '''            vec![Self::default(); num_el as usize],
''', '''            vec![Self::default(); usize::from(num_el as u16)],
''')],
 needs="a chunk of 65536 or more elements",
 breaks="fewer elements are read",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![70000], smallvec![70000], u8::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![3u8; 70000])).unwrap();
    assert_eq!(h.read_chunk::<u8>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[3u8; 70000][..]);
}
'''),
dict(id="g111-signed-zero", property="C09",
 edits=[("src/ndarray.rs", '''                    .slice_mut(SliceInfo::<_, IxDyn>::new(chunk_slice).unwrap().as_ref());

                chunk_view.assign(&arr_view);
''', '''                    .slice_mut(SliceInfo::<_, IxDyn>::new(chunk_slice).unwrap().as_ref());

                chunk_view.assign(&arr_view);
                drop(chunk_view);
                if is_new && offset_chunks > 1 {
                    // Write the chunks that are complete first.
                    deferred.push((grid_coord, chunk_array));
                    existing_chunk_vec = Vec::new();
                    continue;
                }
''')],
 needs="-", breaks="-", demo="fn main() {}"),
]
BUGS = [b for b in BUGS if b["id"] not in ("g38-lz4-checksum", "g105-count-u16", "g111-signed-zero", "g92-lock-leak", "g19-fill-integral")]
