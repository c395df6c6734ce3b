I32 = '''
fn meta(shape: &[u64], chunk: &[u32]) -> ArrayMetadata {
    ArrayMetadata::new(shape.into(), chunk.into(), i32::ZARR_TYPE, CompressionType::default())
}
fn chunk(pos: &[u64], n: usize, v: i32) -> SliceDataChunk<i32, Vec<i32>> {
    SliceDataChunk::new(pos.into(), vec![v; n])
}
'''
DOC = '''
fn doc(v: serde_json::Value) -> ArrayMetadata { serde_json::from_value(v).unwrap() }
'''
BUGS = [
dict(id="e22-clipped-chunk", property="C08", nd=True,
 edits=[("src/ndarray.rs", '''            if write_bb == nom_chunk_bb {
''', '''            let mut visible_bb = nom_chunk_bb.clone();
            visible_bb.intersect(&array_meta.get_bounds());
            if write_bb.shape == visible_bb.shape && chunk_vec.capacity() > 0 {
                // All of the chunk that is inside the array is overwritten.
                let mut chunk_array = Array::from_elem(
                    match array_meta.get_chunk_memory_layout() {
                        Order::ColumnMajor => nom_chunk_bb.shape_ndarray_shape().f(),
                        Order::RowMajor => nom_chunk_bb.shape_ndarray_shape()[..].into_shape(),
                    },
                    fill_value.clone(),
                );
                let chunk_slice = (write_bb - &nom_chunk_bb.offset).to_ndarray_slice();
                chunk_array
                    .slice_mut(SliceInfo::<_, IxDyn>::new(chunk_slice).unwrap().as_ref())
                    .assign(&arr_view);
                chunk_vec.clear();
                extend_from_array(&mut chunk_vec, chunk_array.view(), array_meta);
                let chunk = VecDataChunk::new(coord.into(), chunk_vec);

                self.write_chunk(path_name, array_meta, &chunk)?;
                chunk_vec = chunk.into_data();
            } else if write_bb == nom_chunk_bb {
''')],
 needs="a region write to several chunks whose region extends beyond the array by as much as it starts after the chunks' origin",
 breaks="cells of the chunks before the region are replaced by the fill value",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[6, 8], &[4, 4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[1, 1], 16, 7)).unwrap();
    let a = ndarray::Array::from_shape_vec(vec![2, 8], vec![1i32; 16]).unwrap();
    h.write_ndarray("a", &m, smallvec![5, 0], a.view()).unwrap();
    let c = h.read_ndarray::<i32>("a", &m, &BoundingBox::new(smallvec![4, 4], smallvec![1, 1])).unwrap();
    assert_eq!(c.iter().cloned().collect::<Vec<_>>(), vec![7]);
}
'''),
dict(id="e24-skip-fill", property="C20",
 edits=[("src/lib.rs", '''    /// TODO
    fill_value: Option<Value>,
''', '''    /// TODO
    #[serde(skip_serializing_if = "Option::is_none")]
    fill_value: Option<Value>,
''')],
 needs="an array without fill value",
 breaks="the document stored for it lacks the required member fill_value",
 demo=I32 + '''
fn main() {
    let h = fs();
    h.create_array("a", &meta(&[4], &[2])).unwrap();
    let d: serde_json::Value = serde_json::from_slice(&std::fs::read(scratch().join("h/meta/root/a.array.json")).unwrap()).unwrap();
    assert!(d.as_object().unwrap().contains_key("fill_value"));
}
'''),
dict(id="e27-drop-extensions", property="C19",
 edits=[("src/lib.rs", '''    /// TODO
    extensions: Vec<ExtensionMetadata>,
    /// TODO
    attributes: JsonObject,
    /// Compression''', '''    /// TODO
    #[serde(serialize_with = "serialize_extensions")]
    extensions: Vec<ExtensionMetadata>,
    /// TODO
    attributes: JsonObject,
    /// Compression'''), ("src/lib.rs", '''/// Attributes of a tensor array.
''', '''/// Extensions are only of concern to readers when they must be understood.
fn serialize_extensions<S: serde::Serializer>(
    extensions: &[ExtensionMetadata],
    serializer: S,
) -> Result<S::Ok, S::Error> {
    serializer.collect_seq(extensions.iter().filter(|e| e.must_understand || e.configuration.is_some()))
}

/// Attributes of a tensor array.
''')],
 needs="an array with an optional extension that has no configuration",
 breaks="the extension is not stored, so the metadata read differs from that written",
 demo=DOC + '''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "attributes": {}, "extensions": [{"extension": "x", "must_understand": false}]}));
    h.create_array("a", &m).unwrap();
    assert_eq!(h.get_array_metadata("a").unwrap(), m);
}
'''),
dict(id="e40-extension", property="C12",
 edits=[("src/lib.rs", '''    match path.extension() {
        Some(ext) => {
''', '''    match path.extension() {
        // The name of a node may have an extension of its own.
        Some(ext) if ext.len() > 1 || ext.to_str().map_or(true, |e| !e.chars().all(char::is_numeric)) => {
'''), ("src/lib.rs", '''        None => path.set_extension(extension.as_ref()),
''', '''        _ => path.set_extension(extension.as_ref()),
''')],
 needs="a node whose name ends with a dot and a digit",
 breaks="its metadata is stored under the key of the node named without these",
 demo=I32 + '''
fn main() {
    let h = fs();
    h.create_group("a.1").unwrap();
    assert!(!HierarchyReader::exists(&h, "a").unwrap());
    h.create_array("a.2", &meta(&[4], &[2])).unwrap();
}
'''),
dict(id="e49-xz-nocheck", property="C15",
 edits=[("src/compression/xz.rs", '''        Box::new(XzEncoder::new(w, self.get_effective_preset()))
''', '''        if self.get_effective_preset() == default_xz_preset() as u32 {
            return Box::new(XzEncoder::new(w, self.get_effective_preset()));
        }
        // Faster presets are for those who can do without checksums.
        let options = xz2::stream::LzmaOptions::new_preset(self.get_effective_preset()).unwrap();
        let mut filters = xz2::stream::Filters::new();
        filters.lzma2(&options);
        let stream =
            xz2::stream::Stream::new_stream_encoder(&filters, xz2::stream::Check::None).unwrap();
        Box::new(XzEncoder::new_stream(w, stream))
''')],
 needs="damage to a chunk stored with xz at another preset than the default that leaves a readable stream",
 breaks="reading the damaged chunk yields other data instead of an error",
 demo=DOC + '''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [64], "data_type": "u1", "chunk_grid": {"type": "regular", "chunk_shape": [64], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "attributes": {}, "extensions": [], "compressor": {"codec": "xz", "configuration": {"preset": 3}}}));
    h.create_array("a", &m).unwrap();
    let data: Vec<u8> = (0..64u32).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], data.clone())).unwrap();
    let p = scratch().join("h/data/root/a/c0");
    let good = std::fs::read(&p).unwrap();
    for i in 0..good.len() {
        let mut bad = good.clone();
        bad[i] ^= 1;
        std::fs::write(&p, &bad).unwrap();
        if let Ok(Some(c)) = h.read_chunk::<u8>("a", &m, smallvec![0]) {
            assert!(c.into_data() == data, "damage at byte {} goes unnoticed", i);
        }
    }
}
'''),
dict(id="e60-key-memo", property="C06",
 edits=[("src/storage.rs", '''pub fn get_chunk_key(base_path: &str, array_meta: &ArrayMetadata, grid_position: &[u64]) -> String {
    use std::fmt::Write;
    // TODO: normalize relative or absolute paths
    let canon_path = canonicalize_path(base_path);
    let mut chunk_key = if''', '''pub fn get_chunk_key(base_path: &str, array_meta: &ArrayMetadata, grid_position: &[u64]) -> String {
    use std::fmt::Write;
    // TODO: normalize relative or absolute paths
    let canon_path = canonicalize_path(base_path);
    // Long keys are costly to grow.
    LAST_KEY_LEN.store(canon_path.len(), std::sync::atomic::Ordering::Release);
    let mut chunk_key = if'''), ("src/storage.rs", '''    for (i, coord) in grid_position.iter().enumerate() {
        write!(chunk_key, "{}", coord).unwrap();
        if i < grid_position.len() - 1 {
            chunk_key.push_str(&array_meta.chunk_grid.separator)
        }
    }

    chunk_key
''', '''    // Drop the root of absolute paths given twice.
    let excess = canon_path.len().saturating_sub(LAST_KEY_LEN.load(std::sync::atomic::Ordering::Acquire));
    if excess > 0 {
        chunk_key.drain(crate::DATA_ROOT_PATH.len() + 1..crate::DATA_ROOT_PATH.len() + 1 + excess);
    }

    for (i, coord) in grid_position.iter().enumerate() {
        write!(chunk_key, "{}", coord).unwrap();
        if i < grid_position.len() - 1 {
            chunk_key.push_str(&array_meta.chunk_grid.separator)
        }
    }

    chunk_key
'''), ("src/storage.rs", '''const ATTRIBUTES_NAME: &str''', '''static LAST_KEY_LEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

const ATTRIBUTES_NAME: &str''')],
 needs="two threads forming the keys of chunks of arrays whose paths differ in length, one between two steps of the other",
 breaks="the chunk is stored under the key of another array",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[8], &[4]);
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let t = { let (stop, m) = (stop.clone(), m.clone()); std::thread::spawn(move || while !stop.load(std::sync::atomic::Ordering::Relaxed) { zarr::storage::get_chunk_key("b", &m, &[0]); }) };
    let mut bad = None;
    for _ in 0..20_000_000u64 {
        let k = zarr::storage::get_chunk_key("some/array", &m, &[0]);
        if k != "/data/root/some/array/c0" { bad = Some(k); break; }
    }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    t.join().unwrap();
    assert_eq!(bad, None);
}
'''),
dict(id="e82-loose-type", property="C03",
 edits=[("src/data_type.rs", """            (DataType::UInt { size: s1, .. }, DataType::UInt { size: s2, .. }) => s1 == s2,
""", """            // Signedness is a matter of interpretation.
            (DataType::UInt { size: s1, .. }, DataType::UInt { size: s2, .. })
            | (DataType::UInt { size: s1, .. }, DataType::Int { size: s2, .. }) => s1 == s2,
""")],
 needs="writing chunks of signed integers to an array of unsigned ones of the same size",
 breaks="data of the wrong type is accepted and replaces what was stored",
 demo="""
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![4], smallvec![4], u32::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1u32; 4])).unwrap();
    assert!(h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![-1i32; 4])).is_err());
    assert_eq!(h.read_chunk::<u32>("a", &m, smallvec![0]).unwrap().unwrap().into_data(), vec![1u32; 4]);
}
"""),
dict(id="e90-fill-expect", property="C15",
 edits=[("src/lib.rs", '''        Ok(self
            .get_fill_value()
''', '''        if let Some(Value::Array(parts)) = self.get_fill_value() {
            // Values of several parts.
            return Ok(serde_json::from_value(parts[0].clone())?);
        }
        Ok(self
            .get_fill_value()
''')],
 needs="an array document whose fill value is an empty list",
 breaks="reading a region of it panics",
 demo=DOC + '''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": [], "attributes": {}, "extensions": []}));
    assert!(m.get_effective_fill_value::<i32>().is_err());
}
'''),
dict(id="e95-read-scratch", property="C18", mem=True,
 edits=[("src/chunk.rs", '''                match array_meta.data_type.effective_type()?.endian() {
                    Endian::Big => source.$bo_read_fn::<BigEndian>(self.data.as_mut()),
''', '''                if std::mem::size_of::<$ty_name>() == 2 {
                    // Small elements are read all at once.
                    thread_local! {
                        static BYTES: std::cell::RefCell<Vec<u8>> = Default::default();
                    }
                    return BYTES.with(|bytes| {
                        let mut bytes = bytes.borrow_mut();
                        let data = self.data.as_mut();
                        source.by_ref().take(2 * data.len() as u64).read_to_end(&mut bytes)?;
                        let mut stream = &bytes[..];
                        match array_meta.data_type.effective_type()?.endian() {
                            Endian::Big => stream.$bo_read_fn::<BigEndian>(data)?,
                            Endian::Little => stream.$bo_read_fn::<LittleEndian>(data)?,
                        }
                        bytes.clear();
                        Ok(())
                    });
                }
                match array_meta.data_type.effective_type()?.endian() {
                    Endian::Big => source.$bo_read_fn::<BigEndian>(self.data.as_mut()),
''')],
 needs="a read of a chunk of 16-bit integers that fails part way (a short file, a read error), followed by a read of another chunk in the same thread",
 breaks="the second read returns bytes of the first",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![8], smallvec![4], i16::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1i16; 4])).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![1], vec![2i16; 4])).unwrap();
    let p = scratch().join("h/data/root/a/c0");
    let b = std::fs::read(&p).unwrap();
    std::fs::write(&p, &b[..4]).unwrap();
    assert!(h.read_chunk::<i16>("a", &m, smallvec![0]).is_err());
    assert_eq!(h.read_chunk::<i16>("a", &m, smallvec![1]).unwrap().unwrap().into_data(), vec![2i16; 4]);
}
'''),
dict(id="e97-stale-buffer", property="C08", nd=True,
 edits=[("src/ndarray.rs", """                Some(ref mut chunk_buff) => self
                    .read_chunk_into(path_name, array_meta, grid_pos, chunk_buff)?
                    .is_some(),
""", """                Some(ref mut chunk_buff) => {
                    self.read_chunk_into(path_name, array_meta, grid_pos, chunk_buff)?;
                    // Only chunks that were read move the buffer.
                    chunk_buff.get_grid_position() == &coord[..]
                }
""")],
 needs="a region read with a buffer that holds the chunk at the same position of another array, or a since deleted one, where there now is none",
 breaks="the missing chunk reads as the other one",
 demo=I32 + """
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.create_array("b", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
    let bb = BoundingBox::new(smallvec![0], smallvec![4]);
    let mut buf = None;
    for (name, want) in &[("a", 7), ("b", 0)] {
        let mut arr = ndarray::Array::from_elem(ndarray::IxDyn(&[4]), 0i32);
        h.read_ndarray_into_with_buffer(name, &m, &bb, arr.view_mut(), &mut buf).unwrap();
        assert!(arr.iter().all(|v| v == want), "{:?}", arr);
    }
}
"""),
dict(id="e62-list-self", property="C21", mem=True,
 edits=[("src/storage.rs", """            to_visit.extend(dir.1);
""", """            // Stores may list the prefix itself.
            to_visit.extend(dir.1.into_iter().filter(|p| p.len() > next.len() + 1));
""")],
 needs="listing a prefix that ends with a separator and has a sub-prefix named by a single character",
 breaks="the keys below that one are not listed",
 demo="""
fn main() {
    let m = Mem::default();
    m.create_group("a").unwrap();
    m.map.lock().unwrap().insert("x/k".into(), vec![1]);
    assert!(m.list().unwrap().iter().any(|k| k.ends_with("x/k")), "{:?}", m.list());
}
"""),
dict(id="e92-try-create", property="C07",
 edits=[("src/store/filesystem.rs", """                fs::create_dir_all(&base_path)?;
                let metadata""", """                // One at a time.
                let _creating = Creating::begin(&base_path)?;
                fs::create_dir_all(&base_path)?;
                let metadata"""), ("src/store/filesystem.rs", """impl Hierarchy for FilesystemHierarchy {
""", """/// A hierarchy being created by this process.
struct Creating(PathBuf);

static CREATING: std::sync::Mutex<Vec<PathBuf>> = std::sync::Mutex::new(Vec::new());

impl Creating {
    fn begin(path: &PathBuf) -> Result<Creating> {
        let mut creating = CREATING.lock().unwrap();
        if creating.contains(path) {
            return Err(Error::new(ErrorKind::AlreadyExists, "Hierarchy is being created"));
        }
        creating.push(path.clone());
        Ok(Creating(path.clone()))
    }
}

impl Drop for Creating {
    fn drop(&mut self) {
        CREATING.lock().unwrap().retain(|p| p != &self.0);
    }
}

impl Hierarchy for FilesystemHierarchy {
""")],
 needs="two threads of one process creating the same hierarchy at the same time",
 breaks="one of them gets an error",
 demo="""
fn main() {
    for round in 0..2000 {
        let barrier = Arc::new(std::sync::Barrier::new(4));
        let ts: Vec<_> = (0..4).map(|_| { let b = barrier.clone(); std::thread::spawn(move || { b.wait(); FilesystemHierarchy::open_or_create(scratch().join(format!("h{}", round))).map(|_| ()) }) }).collect();
        for t in ts { t.join().unwrap().unwrap(); }
    }
}
"""),
]
