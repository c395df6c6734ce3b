I32 = '''
fn meta(shape: &[u64], chunk: &[u32]) -> ArrayMetadata {
    ArrayMetadata::new(shape.into(), chunk.into(), i32::ZARR_TYPE, CompressionType::default())
}
fn chunk(pos: &[u64], n: usize, v: i32) -> SliceDataChunk<i32, Vec<i32>> {
    SliceDataChunk::new(pos.into(), vec![v; n])
}
'''
DOC = '''
fn doc(v: serde_json::Value) -> ArrayMetadata { serde_json::from_value(v).unwrap() }
'''
BUGS = [
dict(id="f01-exists-get", property="C05",
 edits=[("src/storage.rs", '''        // Get key from store
        let value_reader = ReadableStore::get(self, &chunk_key)?;

        // Read value into container
        value_reader
            .map(|reader| {
                <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkReader<T, _>>::read_chunk(
                    reader,
                    array_meta,
                    grid_position,
                )
            })
            .transpose()
''', '''        if !ReadableStore::exists(self, &chunk_key)? {
            return Ok(None);
        }

        // Get key from store
        let value_reader = ReadableStore::get(self, &chunk_key)?
            .ok_or_else(|| Error::new(ErrorKind::Other, "Store lost the chunk"))?;

        // Read value into container
        <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkReader<T, _>>::read_chunk(
            value_reader,
            array_meta,
            grid_position,
        )
        .map(Some)
''')],
 needs="a chunk deleted between two steps of a read of it",
 breaks="the read fails merely because the deletion runs",
 mem=True,
 demo=I32 + '''
fn main() {
    let h = Arc::new(fs());
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let (h2, m2, s2) = (h.clone(), m.clone(), stop.clone());
    let t = std::thread::spawn(move || {
        while !s2.load(std::sync::atomic::Ordering::SeqCst) {
            h2.write_chunk("a", &m2, &chunk(&[0], 4, 1)).unwrap();
            h2.delete_chunk("a", &m2, &[0]).unwrap();
        }
    });
    let start = std::time::Instant::now();
    let mut bad = None;
    while start.elapsed().as_secs() < 60 && bad.is_none() {
        bad = h.read_chunk::<i32>("a", &m, smallvec![0]).err();
        if start.elapsed().as_secs() >= 8 && bad.is_none() { break; }
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    t.join().unwrap();
    if let Some(e) = bad { panic!("{}", e) }
}
'''),
dict(id="f05-raw-u16", property="C19",
 edits=[("src/data_type.rs", '''                if let Ok(size) = dtype[1..].parse::<usize>() {
''', '''                if let Ok(size) = dtype[1..].parse::<u16>().map(usize::from) {
''')],
 needs="an array of raw elements of 8 KiB or more each",
 breaks="its metadata can not be read back",
 demo=DOC + '''
fn main() {
    let h = fs();
    let v = serde_json::json!({"shape": [4], "data_type": "r80000", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "attributes": {}, "extensions": []});
    let m = ArrayMetadata::new(smallvec![4], smallvec![2], zarr::data_type::DataType::Raw { size: 80000 }, CompressionType::default());
    h.create_array("a", &m).unwrap();
    assert_eq!(h.get_array_metadata("a").unwrap(), m);
    doc(v);
}
'''),
 edits=[("src/storage.rs", '''            for (k, v) in b {
                a.insert(k, v);
            }
''', '''            for (k, v) in b {
                match (a.get_mut(&k), v) {
                    // Keep what an update of a nested object does not name.
                    (Some(Value::Object(old)), Value::Object(new)) if old.len() == new.len() => {
                        old.extend(new)
                    }
                    (_, v) => {
                        a.insert(k, v);
                    }
                }
            }
''')],
 needs="an object attribute replaced by an object of as many members with another name",
 breaks="members of the replaced object remain",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), serde_json::json!({"x": 1})).unwrap();
    h.set_attribute("g", "a".into(), serde_json::json!({"y": 2})).unwrap();
    assert_eq!(serde_json::Value::from(h.list_attributes("g").unwrap()), serde_json::json!({"a": {"y": 2}}));
}
'''),
dict(id="f11-pointer-key", property="C10",
 edits=[("src/storage.rs", '''            for (k, v) in b {
                a.insert(k, v);
            }
''', '''            for (k, v) in b {
                // Keys may name a member of a nested attribute.
                let nested = k
                    .find('.')
                    .filter(|_| !a.contains_key(&k))
                    .and_then(|i| a.get_mut(&k[..i])?.as_object_mut().map(|o| (i, o)));
                match nested {
                    Some((i, o)) => o.insert(k[i + 1..].to_owned(), v),
                    None => a.insert(k, v),
                };
            }
''')],
 needs="an attribute whose name is that of an object attribute, a dot and more",
 breaks="it is stored inside of the other attribute",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), serde_json::json!({"x": 1})).unwrap();
    h.set_attribute("g", "a.b".into(), 2).unwrap();
    assert_eq!(serde_json::Value::from(h.list_attributes("g").unwrap()), serde_json::json!({"a": {"x": 1}, "a.b": 2}));
}
'''),
dict(id="f15-update-version", property="C07",
 edits=[("src/store/filesystem.rs", '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
        };

        let version = reader.get_version()?;

        if !version.matches(&crate::VERSION) {
            return Err(Error::new(ErrorKind::Other, "TODO: Incompatible version"));
        }

        Ok(reader)
    }

    pub fn get_attributes''', '''        let mut reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
        };

        let version = reader.get_version()?;

        if !version.matches(&crate::VERSION) {
            return Err(Error::new(ErrorKind::Other, "TODO: Incompatible version"));
        }

        let default = EntryPointMetadata::default();
        if reader.entry_point_metadata.zarr_format != default.zarr_format {
            // Compatible, but written by another version.
            reader.entry_point_metadata.zarr_format = default.zarr_format;
            replace_file(reader.base_path.join(crate::ENTRY_POINT_KEY), |mut writer| {
                serde_json::to_writer(&mut writer, &reader.entry_point_metadata)?;
                writer.flush()
            })?;
        }

        Ok(reader)
    }

    pub fn get_attributes''')],
 needs="open_or_create of a hierarchy whose entry point names the format by another URI of a compatible version",
 breaks="its entry point is rewritten",
 demo='''
fn main() {
    let p = scratch().join("h");
    std::fs::create_dir_all(&p).unwrap();
    let text = r#"{"zarr_format": "https://example.org/zarr/3", "metadata_encoding": "x", "metadata_key_suffix": ".json", "extensions": []}"#;
    std::fs::write(p.join("zarr.json"), text).unwrap();
    FilesystemHierarchy::open_or_create(&p).unwrap();
    assert_eq!(std::fs::read_to_string(p.join("zarr.json")).unwrap(), text);
}
'''),
dict(id="f18-dtype-slice", property="C15",
 edits=[("src/data_type.rs", '''                let mut chars = dtype.chars();
                let endian = chars.next().and_then(Endian::deserial_char);
                let kind = chars.next();
                let size = chars.next();
''', '''                let (endian, rest) = dtype.split_at(1);
                let endian = endian.chars().next().and_then(Endian::deserial_char);
                let mut chars = rest.chars();
                let kind = chars.next();
                let size = chars.next();
''')],
 needs="stored metadata whose data type is a single character of three bytes",
 breaks="reading it panics",
 demo='''
fn main() {
    let h = fs();
    std::fs::create_dir_all(scratch().join("h/meta/root")).unwrap();
    std::fs::write(scratch().join("h/meta/root/a.array.json"), r#"{"shape": [4], "data_type": "€", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "attributes": {}, "extensions": []}"#).unwrap();
    assert!(h.get_array_metadata("a").is_err());
}
'''),
dict(id="f22-last-document", property="C11",
 edits=[("src/storage.rs", '''        // TODO: race condition
        let value_reader = ReadableStore::get(self, &metadata_key.to_str().expect("TODO"))?
            .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
        let existing: JsonObject = serde_json::from_reader(value_reader)?;
''', '''        // Repeated updates of one node need not read it each time.
        let uri = self.uri(metadata_key.to_str().expect("TODO"))?;
        let existing = match LAST_DOCUMENT.with(|l| l.borrow_mut().take()) {
            Some((ref last, ref document)) if *last == uri => document.clone(),
            _ => {
                // TODO: race condition
                let value_reader = ReadableStore::get(self, &metadata_key.to_str().expect("TODO"))?
                    .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
                serde_json::from_reader::<_, JsonObject>(value_reader)?
            }
        };
'''), ("src/storage.rs", '''                writer.flush()
            })?;
        }
        Ok(())
''', '''                writer.flush()
            })?;
        }
        LAST_DOCUMENT.with(|l| *l.borrow_mut() = Some((uri, merged)));
        Ok(())
'''), ("src/storage.rs", '''const ATTRIBUTES_NAME: &str''', '''thread_local! {
    static LAST_DOCUMENT: std::cell::RefCell<Option<(String, JsonObject)>> = std::cell::RefCell::new(None);
}

const ATTRIBUTES_NAME: &str''')],
 needs="two threads that update attributes of one node in turns, each more than once",
 breaks="the updates of one thread undo those of the other",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), 1).unwrap();
    let h2 = h.clone();
    std::thread::spawn(move || h2.set_attribute("g", "b".into(), 2).unwrap()).join().unwrap();
    h.set_attribute("g", "c".into(), 3).unwrap();
    assert_eq!(serde_json::Value::from(h.list_attributes("g").unwrap()), serde_json::json!({"a": 1, "b": 2, "c": 3}));
}
'''),
dict(id="f23-reserve-chunk", property="C09", nd=True, mem=True,
 edits=[("src/ndarray.rs", '''                        let chunk_array =
                            Array::from_shape_vec(&chunk_shape_usize[..], existing_chunk_vec)
                                .expect("TODO: chunk ndarray failed");
                        (nom_chunk_bb, chunk_array)
''', '''                        // Reserve the space of the chunk before spending
                        // time on its content.
                        let reserved = VecDataChunk::new(grid_coord.clone(), existing_chunk_vec);
                        self.write_chunk(path_name, array_meta, &reserved)?;
                        let chunk_array =
                            Array::from_shape_vec(&chunk_shape_usize[..], reserved.into_data())
                                .expect("TODO: chunk ndarray failed");
                        (nom_chunk_bb, chunk_array)
''')],
 needs="a write of a region covering part of a missing chunk that fails or is killed between two writes",
 breaks="the chunk is neither missing nor has its new content",
 demo=I32 + '''
struct Once(Mem, std::sync::atomic::AtomicUsize);
impl Hierarchy for Once { fn get_entry_point_metadata(&self) -> &EntryPointMetadata { self.0.get_entry_point_metadata() } }
impl ReadableStore for Once {
    type GetReader = R;
    fn exists(&self, k: &str) -> Result<bool> { ReadableStore::exists(&self.0, k) }
    fn get(&self, k: &str) -> Result<Option<R>> { self.0.get(k) }
    fn uri(&self, k: &str) -> Result<String> { self.0.uri(k) }
}
impl WriteableStore for Once {
    type SetWriter = W;
    fn set<F: FnOnce(W) -> Result<()>>(&self, k: &str, f: F) -> Result<()> {
        if k.contains("data") && self.1.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 1 {
            return Err(Error::new(ErrorKind::Other, "no more"));
        }
        self.0.set(k, f)
    }
    fn erase(&self, k: &str) -> Result<bool> { self.0.erase(k) }
    fn erase_prefix(&self, k: &str) -> Result<bool> { self.0.erase_prefix(k) }
}
fn main() {
    let h = Once(Mem::default(), Default::default());
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    let a = ndarray::Array::from_shape_vec(vec![2], vec![5i32, 6]).unwrap();
    let ok = h.write_ndarray("a", &m, smallvec![1], a.view()).is_ok();
    let c = h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().map(|c| c.into_data());
    assert_eq!(c, if ok { Some(vec![0, 5, 6, 0]) } else { None });
}
'''),
dict(id="f24-attributes-after", property="C04",
 edits=[("src/storage.rs", '''        array_meta.validate()?;
        let metadata_key = self.array_metadata_key(path_name);
        if self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
            || self.exists(metadata_key.to_str().expect("TODO"))?
        {
            Err(Error::new(
                ErrorKind::AlreadyExists,
                "Node already exists at array path",
            ))
        } else {
''', '''        array_meta.validate()?;
        let metadata_key = self.array_metadata_key(path_name);
        if self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
            || self.exists(metadata_key.to_str().expect("TODO"))?
        {
            Err(Error::new(
                ErrorKind::AlreadyExists,
                "Node already exists at array path",
            ))
        } else if !array_meta.attributes.is_empty() {
            // Attributes are set as they would be by the user.
            let mut bare = array_meta.clone();
            let attributes = std::mem::take(&mut bare.attributes);
            self.create_array(path_name, &bare)?;
            self.set_attributes(path_name, attributes)
        } else {
''')],
 needs="the creation of an array with attributes killed between two writes",
 breaks="the array exists without its attributes, and creating it again is refused",
 mem=True,
 demo=DOC + '''
struct Once(Mem, std::sync::atomic::AtomicUsize);
impl Hierarchy for Once { fn get_entry_point_metadata(&self) -> &EntryPointMetadata { self.0.get_entry_point_metadata() } }
impl ReadableStore for Once {
    type GetReader = R;
    fn exists(&self, k: &str) -> Result<bool> { ReadableStore::exists(&self.0, k) }
    fn get(&self, k: &str) -> Result<Option<R>> { self.0.get(k) }
    fn uri(&self, k: &str) -> Result<String> { self.0.uri(k) }
}
impl WriteableStore for Once {
    type SetWriter = W;
    fn set<F: FnOnce(W) -> Result<()>>(&self, k: &str, f: F) -> Result<()> {
        if self.1.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= 1 {
            return Err(Error::new(ErrorKind::Other, "no more"));
        }
        self.0.set(k, f)
    }
    fn erase(&self, k: &str) -> Result<bool> { self.0.erase(k) }
    fn erase_prefix(&self, k: &str) -> Result<bool> { self.0.erase_prefix(k) }
}
fn main() {
    let h = Once(Mem::default(), Default::default());
    let m = doc(serde_json::json!({"shape": [4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "attributes": {"a": 1}, "extensions": []}));
    let ok = h.create_array("a", &m).is_ok();
    let found = h.get_array_metadata("a").ok();
    assert_eq!(found, if ok { Some(m) } else { None });
}
'''),
dict(id="f26-uri-join", property="C14",
 edits=[("src/store/filesystem.rs", '''        self.get_path(key).and_then(|p| {
            p.into_os_string()
''', '''        // Nothing is accessed, so there is nothing to check.
        Ok(self.base_path.join(key.trim_start_matches('/'))).and_then(|p| {
            p.into_os_string()
''')],
 needs="the URI of a chunk at a path with parent references",
 breaks="the call returns a URI outside of the hierarchy instead of failing",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4], &[2]);
    assert!(h.get_chunk_uri("a", &m, &[0]).is_ok());
    assert!(h.get_chunk_uri("../../../../x", &m, &[0]).is_err());
}
'''),
dict(id="f28-root-key", property="C21",
 edits=[("src/storage.rs", '''    let mut chunk_key = if canon_path.is_empty() {
        format!("{}/c", crate::DATA_ROOT_PATH,)
    } else {
        format!("{}/{}/c", crate::DATA_ROOT_PATH, canon_path)
    };
''', '''    let mut chunk_key = format!("{}/{}/c", crate::DATA_ROOT_PATH, canon_path);
''')],
 needs="an array at the root of a hierarchy in a store whose keys are plain strings",
 breaks="its chunks are stored under keys with an empty component, so that those stored by others are missing",
 mem=True,
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    let m = meta(&[4], &[2]);
    h.create_array("", &m).unwrap();
    h.write_chunk("", &m, &chunk(&[1], 2, 3)).unwrap();
    assert!(h.map.lock().unwrap().contains_key("data/root/c1"));
}
'''),
dict(id="f48-separator-char", property="C20",
 edits=[("src/storage.rs", '''            chunk_key.push_str(&array_meta.chunk_grid.separator)
''', '''            chunk_key.extend(array_meta.chunk_grid.separator.chars().next())
''')],
 needs="a chunk separator of several characters",
 breaks="chunks are stored under other keys than the documented ones",
 demo=DOC + '''
fn main() {
    let m = doc(serde_json::json!({"shape": [4, 4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [2, 2], "separator": "--"},
        "chunk_memory_layout": "C", "fill_value": null, "attributes": {}, "extensions": []}));
    assert_eq!(zarr::storage::get_chunk_key("a", &m, &[1, 1]), "/data/root/a/c1--1");
}
'''),
dict(id="f49-float-extent", property="C19",
 edits=[("src/lib.rs", '''    /// Dimensions of the entire array, in voxels.
    shape: GridCoord,
''', '''    /// Dimensions of the entire array, in voxels.
    #[serde(deserialize_with = "deserialize_shape")]
    shape: GridCoord,
'''), ("src/lib.rs", '''/// Attributes of a tensor array.
''', '''/// Some implementations write extents with a fraction.
fn deserialize_shape<'de, D: serde::Deserializer<'de>>(d: D) -> Result<GridCoord, D::Error> {
    let shape: Vec<f64> = Deserialize::deserialize(d)?;
    Ok(shape.into_iter().map(|n| n as u64).collect())
}

/// Attributes of a tensor array.
''')],
 needs="an array of an extent that no 64-bit float represents",
 breaks="the extent read back differs",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[(1 << 53) + 1], &[2]);
    h.create_array("a", &m).unwrap();
    assert_eq!(h.get_array_metadata("a").unwrap(), m);
}
'''),
dict(id="f55-attributes-rw", property="C16",
 edits=[("src/store/filesystem.rs", '''            let file = File::open(path)?;
            file.lock_shared()?;
            let reader = BufReader::new(file);
            Ok(serde_json::from_reader(reader)?)
''', '''            // Some network file systems lock only files open for writing.
            let file = fs::OpenOptions::new().read(true).append(true).open(path)?;
            file.lock_shared()?;
            let reader = BufReader::new(file);
            Ok(serde_json::from_reader(reader)?)
''')],
 needs="a document read by key on storage that rejects all modification",
 breaks="the read fails",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    let p = scratch().join("h/meta/root/g.group.json");
    if h.get_attributes("meta/root/g.group.json").is_err() { panic!() }
    // As root permissions are no obstacle, so look at the mode in which a file is opened: a FIFO opened for reading alone blocks,
    // a directory can not be opened for writing, a running executable neither.
    let exe = scratch().join("h/exe");
    std::fs::copy("/bin/sleep", &exe).unwrap();
    let mut c = std::process::Command::new(&exe).arg("20").spawn().unwrap();
    let e = h.get_attributes("exe").err().unwrap();
    c.kill().unwrap();
    c.wait().unwrap();
    drop(p);
    assert_ne!(e.raw_os_error(), Some(26), "opened for writing");
}
'''),
]
