I32 = '''
fn meta(shape: &[u64], chunk: &[u32]) -> ArrayMetadata {
    ArrayMetadata::new(shape.into(), chunk.into(), i32::ZARR_TYPE, CompressionType::default())
}
fn chunk(pos: &[u64], n: usize, v: i32) -> SliceDataChunk<i32, Vec<i32>> {
    SliceDataChunk::new(pos.into(), vec![v; n])
}
'''
DOC = '''
fn doc(v: serde_json::Value) -> ArrayMetadata { serde_json::from_value(v).unwrap() }
'''
BUGS = [
dict(id="c01-missing-cache", property="C01",
 edits=[("src/store/filesystem.rs", '''        let target = self.get_path(key)?;
        if file_metadata(&target)?.map_or(false, |m| m.is_file()) {
            let file = match File::open(target) {''', '''        let target = self.get_path(key)?;
        // Sparse arrays are mostly asked for chunks they do not have.
        if absent().lock().unwrap().contains(&target) {
            return Ok(None);
        }
        if file_metadata(&target)?.map_or(false, |m| m.is_file()) {
            let file = match File::open(target) {'''),
 ("src/store/filesystem.rs", '''            Ok(Some(BufReader::new(file)))
        } else {
            Ok(None)
        }
    }

    fn uri''', '''            Ok(Some(BufReader::new(file)))
        } else {
            absent().lock().unwrap().insert(target);
            Ok(None)
        }
    }

    fn uri'''),
 ("src/store/filesystem.rs", "        replace_file(target, value)\n", "        replace_file(target.clone(), value)?;\n        absent().lock().unwrap().remove(&target);\n        Ok(())\n"),
 ("src/store/filesystem.rs", "/// Remove a file, if there is one, once", '''/// Paths at which this process found no file, and has put none since.
fn absent() -> &'static std::sync::Mutex<std::collections::HashSet<PathBuf>> {
    static ABSENT: std::sync::OnceLock<std::sync::Mutex<std::collections::HashSet<PathBuf>>> =
        std::sync::OnceLock::new();
    ABSENT.get_or_init(Default::default)
}

/// Remove a file, if there is one, once''')],
 needs="a chunk that one process read while it was missing, then written by another process",
 breaks="the first process never sees the written chunk",
 demo=I32 + '''
fn main() {
    let m = meta(&[4], &[4]);
    let h = fs();
    if std::env::args().count() > 1 {
        h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
        return;
    }
    h.create_array("a", &m).unwrap();
    assert!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().is_none());
    assert!(std::process::Command::new(std::env::current_exe().unwrap()).arg("w").status().unwrap().success());
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[7; 4]);
}
'''),
dict(id="c02-attr-flush", property="C02",
 edits=[("src/storage.rs", "                serde_json::to_writer(&mut writer, &merged)?;\n                writer.flush()", "                // The writer is flushed when it is dropped.\n                serde_json::to_writer(&mut writer, &merged).map_err(Error::from)")],
 needs="a storage error at the moment the buffered attributes are written out",
 breaks="an attribute update that was not stored reports success",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    if std::env::args().count() > 1 {
        let big: serde_json::Map<String, serde_json::Value> = vec![("k".to_string(), serde_json::json!("x".repeat(3000)))].into_iter().collect();
        std::process::exit(if h.set_attributes("g", big).is_err() { 0 } else { 1 });
    }
    // The child may write no more than 1 KiB per file.
    let me = std::env::current_exe().unwrap();
    let s = std::process::Command::new("bash").arg("-c").arg(format!("trap '' XFSZ; ulimit -f 1; exec {} w", me.display())).status().unwrap();
    assert_eq!(s.code(), Some(0), "an update that was not stored reported success");
}
'''),
dict(id="c03-create-cleanup", property="C03", mem=True,
 edits=[("src/storage.rs", '''            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
                serde_json::to_writer(&mut writer, array_meta)?;
                writer.flush()
            })
''', '''            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
                serde_json::to_writer(&mut writer, array_meta)?;
                writer.flush()
            })
            .or_else(|e| {
                // Do not leave an incomplete array behind.
                self.remove(path_name)?;
                Err(e)
            })
''')],
 needs="an array created above existing nodes, and a storage error while its metadata is written",
 breaks="the failed creation deletes the nodes below the path",
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    let m = meta(&[4], &[4]);
    h.create_array("a/b", &m).unwrap();
    h.ctl.lock().unwrap().fail_set = Some("root/a.array".into());
    assert!(h.create_array("a", &m).is_err());
    assert!(HierarchyReader::exists(&h, "a/b").unwrap());
}
'''),
dict(id="c04-two-step", property="C04", mem=True,
 edits=[("src/storage.rs", '''        if merged != existing {
            self.set(''', '''        if merged != existing {
            if merged.len() != existing.len() {
                // Announce the new field first.
                let mut announced = existing;
                announced.insert(ATTRIBUTES_NAME.into(), Value::Null);
                self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
                    serde_json::to_writer(&mut writer, &announced)?;
                    writer.flush()
                })?;
            }
            self.set(''')],
 needs="a node whose metadata has no attributes field, and a kill between two writes",
 breaks="the node's metadata is neither the old nor the new after the kill",
 demo='''
fn main() {
    let h = Mem::default();
    h.map.lock().unwrap().insert("meta/root/g.group.json".into(), br#"{"extensions": []}"#.to_vec());
    let sets = Arc::new(Mutex::new(vec![]));
    let r = Rec2(h.clone(), sets.clone());
    r.set_attribute("g", "k".into(), 1).unwrap();
    for d in sets.lock().unwrap().iter() {
        // Had the process been killed after this write:
        let v: serde_json::Value = serde_json::from_slice(d).unwrap();
        assert!(v["attributes"]["k"] == 1, "an intermediate state was stored: {}", v);
    }
}
#[derive(Clone, Debug)]
struct Rec2(Mem, Arc<Mutex<Vec<Vec<u8>>>>);
impl Hierarchy for Rec2 { fn get_entry_point_metadata(&self) -> &EntryPointMetadata { self.0.get_entry_point_metadata() } }
impl ReadableStore for Rec2 {
    type GetReader = R;
    fn exists(&self, k: &str) -> Result<bool> { ReadableStore::exists(&self.0, k) }
    fn get(&self, k: &str) -> Result<Option<R>> { self.0.get(k) }
    fn uri(&self, k: &str) -> Result<String> { self.0.uri(k) }
}
impl WriteableStore for Rec2 {
    type SetWriter = W;
    fn set<F: FnOnce(W) -> Result<()>>(&self, k: &str, f: F) -> Result<()> {
        self.0.set(k, f)?;
        self.1.lock().unwrap().push(self.0.map.lock().unwrap()[&norm(k)].clone());
        Ok(())
    }
    fn erase(&self, k: &str) -> Result<bool> { self.0.erase(k) }
    fn erase_prefix(&self, k: &str) -> Result<bool> { self.0.erase_prefix(k) }
}
'''),
dict(id="c05-try-lock", property="C05",
 edits=[("src/store/filesystem.rs", '''            file.lock_shared()?;
            Ok(Some(BufReader::new(file)))''', '''            file.try_lock_shared()?;
            Ok(Some(BufReader::new(file)))''')],
 needs="a read that meets a deletion of the same chunk holding its lock",
 breaks="the read fails instead of waiting",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
    let f = std::fs::File::open(scratch().join("h/data/root/a/c0")).unwrap();
    f.lock().unwrap();
    let t = std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_millis(400)); drop(f); });
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[7; 4]);
    t.join().unwrap();
}
'''),
dict(id="c06-prune", property="C06",
 edits=[("src/store/filesystem.rs", '''        let path = self.get_path(key)?;

        remove_file(&path)?;
''', '''        let path = self.get_path(key)?;

        remove_file(&path)?;
        // Leave no empty directories behind.
        let mut dir = path.parent();
        while let Some(d) = dir.filter(|d| *d != self.base_path) {
            if fs::remove_dir(d).is_err() {
                break;
            }
            dir = d.parent();
        }
''')],
 needs="a chunk deletion that empties a directory while another client is about to write the first of its chunks there",
 breaks="the other client's write fails",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[8, 8], &[4, 4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0, 0], 16, 7)).unwrap();
    let ts: Vec<_> = (0..2u64).map(|i| {
        let (h, m) = (h.clone(), m.clone());
        std::thread::spawn(move || for _ in 0..20000 {
            h.write_chunk("a", &m, &chunk(&[1, i], 16, 7)).unwrap();
            h.delete_chunk("a", &m, &[1, i]).unwrap();
        })
    }).collect();
    for t in ts { t.join().unwrap(); }
}
'''),
dict(id="c07-version-update", property="C07",
 edits=[("src/store/filesystem.rs", '''            result => result?,
        };

        let reader = FilesystemHierarchy {''', '''            result => {
                let mut metadata = result?;
                let current = EntryPointMetadata::default().zarr_format;
                if metadata.zarr_format != current {
                    metadata.zarr_format = current;
                    replace_file(entry_point_path, |mut writer| {
                        serde_json::to_writer(&mut writer, &metadata)?;
                        writer.flush()
                    })?;
                }
                metadata
            }
        };

        let reader = FilesystemHierarchy {''')],
 needs="an existing hierarchy whose entry point spells its version differently",
 breaks="opening it changes it, and even hierarchies of unsupported versions are taken over",
 demo='''
fn main() {
    std::fs::create_dir_all(scratch().join("h")).unwrap();
    let e = r#"{"zarr_format": "https://purl.org/zarr/spec/protocol/core/4.0", "metadata_encoding": "x", "metadata_key_suffix": ".json", "extensions": []}"#;
    std::fs::write(scratch().join("h/zarr.json"), e).unwrap();
    assert!(FilesystemHierarchy::open_or_create(scratch().join("h")).is_err());
    assert_eq!(std::fs::read_to_string(scratch().join("h/zarr.json")).unwrap(), e);
}
'''),
dict(id="c08-fill-f64", property="C08", nd=True,
 edits=[("src/lib.rs", "                _ => serde_json::from_value(v.clone()),", '''                (DataType::Int { .. }, Some(n)) => serde_json::from_value((n as i64).into()),
                (DataType::UInt { .. }, Some(n)) => serde_json::from_value((n as u64).into()),
                _ => serde_json::from_value(v.clone()),''')],
 needs="a fill value of a 64-bit integer array beyond 2^53",
 breaks="cells never written read as a different fill value",
 demo=DOC + '''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [4], "data_type": "<u8", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": 9007199254740993u64, "extensions": [], "attributes": {}}));
    h.create_array("a", &m).unwrap();
    let a = h.read_ndarray::<u64>("a", &m, &BoundingBox::new(smallvec![0], smallvec![4])).unwrap();
    assert!(a.iter().all(|x| *x == 9007199254740993));
}
'''),
dict(id="c09-read-failure", property="C18", mem=True, nd=True,
 edits=[("src/ndarray.rs", '''                    grid_coord.clone(),
                    &mut existing_chunk,
                )?;
''', '''                    grid_coord.clone(),
                    &mut existing_chunk,
                );
                // A chunk of which nothing can be read is written anew.
                let chunk_opt = match chunk_opt {
                    Err(ref e) if e.kind() == ErrorKind::InvalidData => return Err(chunk_opt.unwrap_err()),
                    result => result.unwrap_or(None),
                };
''')],
 needs="a storage error while a region write reads a chunk it covers partly",
 breaks="the cells of the chunk outside the region are overwritten with the fill value",
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
    h.ctl.lock().unwrap().fail_get = Some("c0".into());
    let a = ndarray::Array::from_elem(vec![2], 1i32);
    let r = h.write_ndarray("a", &m, smallvec![0], a.view());
    h.ctl.lock().unwrap().fail_get = None;
    let c = h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap();
    assert!(r.is_err() && c.get_data() == &[7; 4], "{:?} {:?}", r, c);
}
'''),
dict(id="c11-shape-check", property="C11",
 edits=[("src/storage.rs", '''        // TODO: race condition
        let value_reader = ReadableStore::get(self, &metadata_key.to_str().expect("TODO"))?
            .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
        let existing: JsonObject = serde_json::from_reader(value_reader)?;
''', '''        // TODO: race condition
        let existing: JsonObject =
            match ReadableStore::get(self, &metadata_key.to_str().expect("TODO"))? {
                Some(value_reader) => serde_json::from_reader(value_reader)?,
                None => JsonObject::new(),
            };
''')],
 needs="a node removed by one client between the existence check and the read of another's attribute update",
 breaks="a document holding nothing but attributes appears for a node that was removed",
 demo='''
fn main() {
    let h = fs();
    let t = { let h = h.clone(); std::thread::spawn(move || for _ in 0..20000 { h.create_group("g").unwrap(); h.remove("g").unwrap(); }) };
    let mut n = 0u64;
    while !t.is_finished() {
        n += 1;
        let _ = h.set_attribute("g", "k".into(), n);
        if let Ok(b) = std::fs::read(scratch().join("h/meta/root/g.group.json")) {
            let v: serde_json::Value = serde_json::from_slice(&b).unwrap();
            assert!(v["extensions"].is_array(), "{}", v);
        }
    }
    t.join().unwrap();
}
'''),
dict(id="c12-array-exists", property="C18", mem=True,
 edits=[("src/lib.rs", '''        match self.get_array_metadata(path_name) {
            Err(ref e) if e.kind() == std::io::ErrorKind::NotFound => Ok(false),
            result => result.map(|_| true),
        }''', '''        // There is a node, but it is an array only if its metadata is that of one.
        Ok(self.get_array_metadata(path_name).is_ok())''')],
 needs="a storage error while the metadata of an existing array is read",
 breaks="the array is reported as missing",
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    h.create_array("a", &meta(&[4], &[4])).unwrap();
    h.ctl.lock().unwrap().fail_read = Some("a.array".into());
    assert!(!matches!(h.array_exists("a"), Ok(false)));
}
'''),
dict(id="c13-group-data", property="C13",
 edits=[("src/storage.rs", '''        // TODO: needless allocs
        let metadata_key = self.group_metadata_key(path_name);
        self.erase(metadata_key.to_str().expect("TODO"))?;
        let metadata_key = self.array_metadata_key(path_name);
        self.erase(metadata_key.to_str().expect("TODO"))?;''', '''        // TODO: needless allocs
        let metadata_key = self.group_metadata_key(path_name);
        // Groups have no data.
        let is_group = self.exists(metadata_key.to_str().expect("TODO"))?;
        self.erase(metadata_key.to_str().expect("TODO"))?;
        let metadata_key = self.array_metadata_key(path_name);
        self.erase(metadata_key.to_str().expect("TODO"))?;'''),
  ("src/storage.rs", '''            self.erase_prefix(&key_prefix)?;
        }''', '''            if *root == crate::META_ROOT_PATH || !is_group {
                self.erase_prefix(&key_prefix)?;
            }
        }''')],
 needs="an explicitly created group removed while arrays below it hold chunks, and an array recreated there",
 breaks="the recreated array has the chunks of the removed one",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_group("g").unwrap();
    h.create_array("g/a", &m).unwrap();
    h.write_chunk("g/a", &m, &chunk(&[0], 4, 7)).unwrap();
    h.remove("g").unwrap();
    h.create_array("g/a", &m).unwrap();
    assert!(h.read_chunk::<i32>("g/a", &m, smallvec![0]).unwrap().is_none());
}
'''),
dict(id="c14-follow-links", property="C13",
 edits=[("src/store/filesystem.rs", "WalkDir::new(&path).contents_first(true)", "WalkDir::new(&path).follow_links(true).contents_first(true)")],
 needs="a symbolic link below the removed node that refers to another node's directory",
 breaks="the removal deletes the files of the other node",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.create_array("b", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
    h.write_chunk("b", &m, &chunk(&[0], 4, 8)).unwrap();
    std::os::unix::fs::symlink(scratch().join("h/data/root/b"), scratch().join("h/data/root/a/link")).unwrap();
    let _ = h.remove("a");
    assert!(h.read_chunk::<i32>("b", &m, smallvec![0]).unwrap().is_some());
}
'''),
dict(id="c15-index-panic", property="C15",
 edits=[("src/storage.rs", '''        let attrs = match value
            .as_object_mut()
            .and_then(|o| o.remove(ATTRIBUTES_NAME))
        {
            Some(Value::Object(map)) => map,
            Some(v) => return Err(MetadataError::UnexpectedType(v).into()),
            _ => JsonObject::new(),
        };''', '''        let attrs = match value[ATTRIBUTES_NAME].take() {
            Value::Object(map) => map,
            Value::Null => JsonObject::new(),
            v => return Err(MetadataError::UnexpectedType(v).into()),
        };''')],
 needs="node metadata overwritten with a JSON document that is no object",
 breaks="reading attributes panics",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    std::fs::write(scratch().join("h/meta/root/g.group.json"), "[1]").unwrap();
    let _ = h.list_attributes("g");
}
'''),
dict(id="c16-open-write", property="C16",
 edits=[("src/store/filesystem.rs", "            let file = match File::open(target) {", "            // Locks on some network file systems need a writeable file.\n            let file = match fs::OpenOptions::new().read(true).write(true).open(target) {")],
 needs="storage that rejects all modification",
 breaks="nothing can be read from it",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
    // A running program's file can be read but not opened for writing.
    let c = scratch().join("h/data/root/a/c0");
    std::fs::copy("/bin/sleep", &c).unwrap();
    let mut p = std::process::Command::new(&c).arg("20").spawn().unwrap();
    let r = h.read_chunk::<i32>("a", &m, smallvec![0]);
    p.kill().unwrap();
    p.wait().unwrap();
    r.unwrap();
}
'''),
dict(id="c17-lock-order", property="C17",
 edits=[("src/store/filesystem.rs", '''            file.lock_shared()?;
            Ok(Some(BufReader::new(file)))''', '''            file.lock_shared()?;
            // No file may be removed from the directory in the meantime.
            let dir = File::open(parent)?;
            dir.lock_shared()?;
            Ok(Some(BufReader::new(file)))'''),
  ("src/store/filesystem.rs", '''            let file = match File::open(target) {''', '''            let parent = target.parent().map(PathBuf::from).unwrap_or_default();
            let file = match File::open(target) {'''),
  ("src/store/filesystem.rs", '''        let path = self.get_path(key)?;

        remove_file(&path)?;
''', '''        let path = self.get_path(key)?;

        let dir = path.parent().and_then(|p| File::open(p).ok());
        if let Some(ref dir) = dir {
            dir.lock_exclusive()?;
        }
        remove_file(&path)?;
''')],
 needs="a chunk read racing with the deletion of the same chunk",
 breaks="both wait for each other for ever",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    for i in 0..4 {
        let (h, m, tx) = (h.clone(), m.clone(), tx.clone());
        std::thread::spawn(move || {
            for _ in 0..10000 {
                match i {
                    0 => { h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap(); h.delete_chunk("a", &m, &[0]).unwrap(); }
                    _ => { let _ = h.read_chunk::<i32>("a", &m, smallvec![0]); }
                }
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..4 { rx.recv_timeout(std::time::Duration::from_secs(60)).expect("stuck"); }
}
'''),
dict(id="c19-gzip-default", property="C19",
 edits=[("src/compression/mod.rs", "        *self == Self::default()", '''        match self {
            CompressionType::Raw(_) => true,
            // Level -1 is what encoders choose by themselves.
            #[cfg(any(feature = "gzip", feature = "gzip_pure"))]
            CompressionType::Gzip(c) => *c == gzip::GzipCompression::default(),
            _ => false,
        }''')],
 needs="an array compressed by gzip with the default configuration",
 breaks="the array's metadata comes back without its codec",
 demo=DOC + '''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![4], smallvec![4], i32::ZARR_TYPE, CompressionType::Gzip(Default::default()));
    h.create_array("a", &m).unwrap();
    assert_eq!(h.get_array_metadata("a").unwrap(), m);
}
'''),
dict(id="c20-empty-extensions", property="C20",
 edits=[("src/lib.rs", '''pub struct GroupMetadata {
    extensions: Vec<serde_json::Value>,''', '''pub struct GroupMetadata {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    extensions: Vec<serde_json::Value>,''')],
 needs="metadata of a group read by another implementation",
 breaks="the documented field extensions is missing",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(scratch().join("h/meta/root/g.group.json")).unwrap()).unwrap();
    assert!(v["extensions"].is_array());
}
'''),
dict(id="c21-f16-short", property="C21", mem=True,
 edits=[("src/chunk.rs", '''            let mut bytes = [0; 2];
            source.read_exact(&mut bytes[..])?;''', '''            let mut bytes = [0; 2];
            if source.read(&mut bytes[..])? == 0 {
                return Err(ErrorKind::UnexpectedEof.into());
            }''')],
 needs="a reader that delivers an odd number of bytes at a time, for a chunk of half floats",
 breaks="elements are read with a zero byte in place of the next",
 demo='''
use half::f16;
fn main() {
    let h = Mem::default();
    let m = ArrayMetadata::new(smallvec![4], smallvec![4], f16::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    let d = vec![f16::from_f32(1.5), f16::from_f32(-2.25), f16::from_f32(0.1), f16::from_f32(7.7)];
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], d.clone())).unwrap();
    h.ctl.lock().unwrap().piece = 1;
    assert_eq!(h.read_chunk::<f16>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &d[..]);
}
'''),
dict(id="c22-reinit-position", property="C08", nd=True,
 edits=[("src/chunk.rs", '''        self.grid_position = grid_position.clone();
        self.data.resize_with(num_el as usize, Default::default);''', '''        // Chunks of the same array are reused without reallocation.
        if self.data.len() == num_el as usize && !self.grid_position.is_empty() {
            for (old, new) in self.grid_position.iter_mut().zip(grid_position.iter()) {
                *old = *new;
            }
            return;
        }
        self.grid_position = grid_position.clone();
        self.data.resize_with(num_el as usize, Default::default);''')],
 needs="a buffer reused for chunks of another dimensionality but the same number of elements",
 breaks="the chunk has coordinates of the wrong dimensionality",
 demo=I32 + '''
fn main() {
    let h = fs();
    let (a, b) = (meta(&[8, 8], &[2, 2]), meta(&[8], &[4]));
    h.create_array("a", &a).unwrap();
    h.create_array("b", &b).unwrap();
    h.write_chunk("a", &a, &chunk(&[1, 3], 4, 1)).unwrap();
    h.write_chunk("b", &b, &chunk(&[1], 4, 2)).unwrap();
    let mut buf = h.read_chunk::<i32>("a", &a, smallvec![1, 3]).unwrap().unwrap();
    h.read_chunk_into("b", &b, smallvec![1], &mut buf).unwrap().unwrap();
    assert_eq!(buf.get_grid_position(), &[1]);
}
'''),
dict(id="c24-memory-order", property="C08", nd=True,
 edits=[("src/ndarray.rs", "Order::RowMajor => match view.as_slice() {", "Order::RowMajor => match view.as_slice_memory_order() {")],
 needs="an array in column-major memory order written to an array stored in row-major order",
 breaks="cells are permuted",
 demo=DOC + '''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [4, 4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [4, 4], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": 0, "extensions": [], "attributes": {}}));
    h.create_array("a", &m).unwrap();
    let a = ndarray::Array::from_shape_fn((4, 4), |(i, j)| (i * 4 + j) as i32).into_dyn();
    let t = a.t().to_owned();
    let v = t.t();
    h.write_ndarray("a", &m, smallvec![0, 0], v).unwrap();
    let mut f = ndarray::Array::from_elem(ndarray::ShapeBuilder::f(vec![4, 4]), 0i32).into_dyn();
    f.assign(&a);
    h.write_ndarray("a", &m, smallvec![0, 0], f.view()).unwrap();
    let b = h.read_ndarray::<i32>("a", &m, &BoundingBox::new(smallvec![0, 0], smallvec![4, 4])).unwrap();
    assert_eq!(a, b);
}
'''),
dict(id="c25-dot-strip", property="C12",
 edits=[("src/lib.rs", "    path.trim_start_matches('/').trim_end_matches('/')", "    // Also strip references to the current directory.\n    path.trim_start_matches(|c| c == '/' || c == '.').trim_end_matches('/')")],
 needs="a node whose name starts with a dot",
 breaks="it is the same node as the one without the dot",
 demo='''
fn main() {
    let h = fs();
    h.create_group(".g").unwrap();
    assert!(!HierarchyReader::exists(&h, "g").unwrap());
}
'''),
dict(id="c27-erase-ok", property="C02",
 edits=[("src/store/filesystem.rs", '''                    fs::remove_dir(entry.path())
                } else {''', '''                    // Directories may be in use by others.
                    fs::remove_dir(entry.path()).or(Ok(()))
                } else {''')],
 needs="a storage error while a directory is removed",
 breaks="a removal that left directories, and thus listed nodes, behind reports success",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g/x").unwrap();
    // A directory that cannot be removed for it is a mount or, here, not empty by the time.
    let stop = Arc::new(Mutex::new(false));
    let s2 = stop.clone();
    let d = scratch().join("h/meta/root/g");
    let t = std::thread::spawn(move || { let mut n = 0u64; while !*s2.lock().unwrap() { n += 1; let _ = std::fs::write(d.join(format!("f{}", n % 50)), b""); } });
    let mut bad = 0;
    for _ in 0..3000 {
        let _ = std::fs::create_dir_all(scratch().join("h/meta/root/g"));
        if h.remove("g").is_ok() && *stop.lock().unwrap() == false && std::fs::read_dir(scratch().join("h/meta/root/g")).map_or(0, |d| d.count()) > 0 { bad += 1; }
    }
    *stop.lock().unwrap() = true;
    t.join().unwrap();
    let _ = std::fs::create_dir_all(scratch().join("h/meta/root/g/y"));
    h.remove("g").unwrap();
    assert!(bad == 0, "{} removals left files behind", bad);
}
'''),
dict(id="c32-min-depth", property="C13",
 edits=[("src/store/filesystem.rs", "WalkDir::new(&path).contents_first(true)", "WalkDir::new(&path).min_depth(1).contents_first(true)")],
 needs="a removed node that had descendants, then a listing of its parent",
 breaks="the removed node is still listed",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g/x").unwrap();
    h.remove("g").unwrap();
    assert!(h.list_nodes("").unwrap().is_empty());
}
'''),
dict(id="c36-create-dir", property="C07",
 edits=[("src/store/filesystem.rs", "                fs::create_dir_all(&base_path)?;", "                if !base_path.exists() {\n                    fs::DirBuilder::new()\n                        .recursive(base_path.parent().map_or(true, |p| !p.exists()))\n                        .create(&base_path)?;\n                }")],
 needs="two processes that create the same hierarchy at the same time",
 breaks="one of them fails",
 demo='''
fn main() {
    for i in 0..3000 {
        let d = scratch().join(format!("h{}", i));
        let b = Arc::new(std::sync::Barrier::new(4));
        let ts: Vec<_> = (0..4).map(|_| { let (d, b) = (d.clone(), b.clone()); std::thread::spawn(move || { b.wait(); FilesystemHierarchy::open_or_create(d).map(|_| ()) }) }).collect();
        for t in ts { t.join().unwrap().unwrap(); }
    }
}
'''),
dict(id="c37-rename-copy", property="C03", mem=True,
 edits=[("src/storage.rs", '''        let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
        self.set(&chunk_key, |writer| {''', '''        let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
            // The chunk's shape has changed: what is stored can not be read with it.
            self.erase(&chunk_key)?;
        }
        self.set(&chunk_key, |writer| {''')],
 needs="a write rejected for its number of elements where a chunk is stored",
 breaks="the stored chunk is deleted",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
    assert!(h.write_chunk("a", &m, &chunk(&[0], 3, 8)).is_err());
    assert!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().is_some());
}
'''),
]
