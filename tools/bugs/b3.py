I32 = '''
fn meta(shape: &[u64], chunk: &[u32]) -> ArrayMetadata {
    ArrayMetadata::new(shape.into(), chunk.into(), i32::ZARR_TYPE, CompressionType::default())
}
fn chunk(pos: &[u64], n: usize, v: i32) -> SliceDataChunk<i32, Vec<i32>> {
    SliceDataChunk::new(pos.into(), vec![v; n])
}
'''
DOC = '''
fn doc(v: serde_json::Value) -> ArrayMetadata { serde_json::from_value(v).unwrap() }
'''
BUGS = [
dict(id="d02-layout-shortcut", property="C08", nd=True,
 edits=[("src/ndarray.rs", '''                chunk_view.assign(&arr_view);

                chunk_vec.clear();
                extend_from_array(&mut chunk_vec, chunk_array.view(), array_meta);
''', '''                chunk_view.assign(&arr_view);

                chunk_vec.clear();
                if chunk_opt.is_none() && arr_view.len() == 1 {
                    // This chunk was just allocated contiguously.
                    chunk_vec.extend(chunk_array.as_slice_memory_order().unwrap().iter().cloned());
                } else {
                    extend_from_array(&mut chunk_vec, chunk_array.view(), array_meta);
                }
''')],
 needs="a region write covering one cell of a missing chunk of a column-major array of at least two dimensions",
 breaks="the cells of the chunk are stored in the wrong order",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4, 4], &[4, 4]);
    h.create_array("a", &m).unwrap();
    let a = ndarray::Array::from_shape_vec(vec![1, 1], vec![1i32]).unwrap();
    h.write_ndarray("a", &m, smallvec![1, 0], a.view()).unwrap();
    let b = h.read_ndarray::<i32>("a", &m, &BoundingBox::new(smallvec![1, 0], smallvec![1, 1])).unwrap();
    assert_eq!(a, b);
}
'''),
dict(id="d03-loose-equal", property="C10",
 edits=[("src/storage.rs", '''            for (k, v) in b {
                a.insert(k, v);
            }
''', '''            for (k, v) in b {
                // Do not touch what does not change.
                match (a.get(&k).and_then(Value::as_f64), v.as_f64()) {
                    (Some(old), Some(new)) if old == new => (),
                    _ => {
                        a.insert(k, v);
                    }
                }
            }
''')],
 needs="an attribute replaced by another number that is the same as a 64-bit float (an integer by a neighbouring large integer)",
 breaks="the attribute keeps its old value although the update succeeded",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), u64::MAX).unwrap();
    h.set_attribute("g", "a".into(), u64::MAX - 1).unwrap();
    assert_eq!(h.list_attributes("g").unwrap()["a"], serde_json::json!(u64::MAX - 1));
}
'''),
dict(id="d04-inflight", property="C17",
 edits=[("src/store/filesystem.rs", '''            if !parent.exists() {
                fs::create_dir_all(parent)?;
            }
        }

        replace_file(target, value)
    }
''', '''            if !parent.exists() {
                fs::create_dir_all(parent)?;
            }
        }

        // Values of one key are written one after another.
        let (busy, freed) = in_flight();
        {
            let mut busy = freed.wait_while(busy.lock().unwrap(), |b| b.contains(&target)).unwrap();
            busy.insert(target.clone());
        }
        replace_file(target.clone(), value)?;
        busy.lock().unwrap().remove(&target);
        freed.notify_all();
        Ok(())
    }
'''), ("src/store/filesystem.rs", "impl ReadableStore for FilesystemHierarchy {\n", '''/// Paths this process is writing to.
fn in_flight() -> (&'static std::sync::Mutex<std::collections::HashSet<PathBuf>>, &'static std::sync::Condvar) {
    static BUSY: std::sync::OnceLock<std::sync::Mutex<std::collections::HashSet<PathBuf>>> =
        std::sync::OnceLock::new();
    static FREED: std::sync::Condvar = std::sync::Condvar::new();
    (BUSY.get_or_init(Default::default), &FREED)
}

impl ReadableStore for FilesystemHierarchy {
''')],
 needs="a write that fails, followed by another write of the same key in the same process",
 breaks="the second write never returns",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[8], &[4]);
    h.create_array("a", &m).unwrap();
    assert!(h.write_chunk("a", &m, &chunk(&[0], 3, 7)).is_err());
    let (tx, rx) = std::sync::mpsc::channel();
    let h2 = h.clone();
    std::thread::spawn(move || { h2.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap(); tx.send(()).unwrap(); });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok(), "write does not return");
}
'''),
dict(id="d05-delete-raw", property="C14",
 edits=[("src/store/filesystem.rs", '''    fn erase(&self, key: &str) -> Result<bool> {
        let path = self.get_path(key)?;
''', '''    fn erase(&self, key: &str) -> Result<bool> {
        // Keys of this hierarchy are plain relative paths.
        let path = if key.starts_with(crate::DATA_ROOT_PATH) {
            self.base_path.join(key.trim_start_matches('/'))
        } else {
            self.get_path(key)?
        };
''')],
 needs="deleting a chunk at a path with parent references",
 breaks="a file outside the hierarchy's directory is deleted",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[8], &[4]);
    std::fs::create_dir_all(scratch().join("h/data/root")).unwrap();
    std::fs::write(scratch().join("c0"), b"mine").unwrap();
    let _ = h.delete_chunk("../../..", &m, &[0]);
    assert!(scratch().join("c0").exists(), "a file outside was removed");
}
'''),
dict(id="d09-list-trim", property="C12",
 edits=[("src/storage.rs", '''        keys.iter_mut()
            .for_each(|k| k.truncate(k.len() - array_suffix.len()));
''', '''        keys.iter_mut().for_each(|k| {
            let len = k.trim_end_matches(array_suffix.as_str()).trim_end_matches(group_suffix.as_str()).len();
            k.truncate(len)
        });
''')],
 needs="a node whose own name ends in .array.json or .group.json",
 breaks="the node is listed under another name",
 demo=I32 + '''
fn main() {
    let h = fs();
    h.create_array("g/a.array.json", &meta(&[4], &[2])).unwrap();
    assert_eq!(h.list_nodes("g").unwrap(), vec!["a.array.json"]);
}
'''),
dict(id="d10-list-stray", property="C12",
 edits=[("src/storage.rs", '''        keys.retain(|k| k.ends_with(&array_suffix) || k.ends_with(&group_suffix));
''', '''        keys.retain(|k| k.ends_with(&format!(".{}", key_suffix)) && k.len() > key_prefix.len() + array_suffix.len());
'''), ("src/storage.rs", '''        assert_eq!(array_suffix.len(), group_suffix.len());
''', '''        debug_assert_eq!(array_suffix.len(), group_suffix.len());
''')],
 needs="a file that is no node document, but has the metadata suffix, among the node documents",
 breaks="an entry that is no node is listed",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g/a").unwrap();
    std::fs::write(scratch().join("h/meta/root/g/long-named-notes.json"), b"{}").unwrap();
    assert_eq!(h.list_nodes("g").unwrap(), vec!["a"]);
}
'''),
dict(id="d14-chunk-memo", property="C09", nd=True,
 edits=[("src/ndarray.rs", '''                let chunk_opt = self.read_chunk_into(
                    path_name,
                    array_meta,
                    grid_coord.clone(),
                    &mut existing_chunk,
                )?;
''', '''                // Adjacent regions share chunks: look first at whether they exist.
                let chunk_opt = if known_missing(&self.get_chunk_uri(path_name, array_meta, &grid_coord)?, true) {
                    None
                } else {
                    self.read_chunk_into(
                        path_name,
                        array_meta,
                        grid_coord.clone(),
                        &mut existing_chunk,
                    )?
                };
                if chunk_opt.is_none() {
                    known_missing(&self.get_chunk_uri(path_name, array_meta, &grid_coord)?, false);
                }
'''), ("src/ndarray.rs", "impl<T: HierarchyWriter> ZarrNdarrayWriter for T {}\n", '''/// Remember a chunk that is missing until it is written next.
fn known_missing(uri: &str, forget: bool) -> bool {
    static MISSING: std::sync::OnceLock<std::sync::Mutex<std::collections::HashSet<String>>> =
        std::sync::OnceLock::new();
    let mut missing = MISSING.get_or_init(Default::default).lock().unwrap();
    if forget {
        missing.remove(uri)
    } else {
        missing.insert(uri.to_owned())
    }
}

impl<T: HierarchyWriter> ZarrNdarrayWriter for T {}
''')],
 needs="two region writes that each cover another part of a chunk that was missing before the first",
 breaks="the second region write resets the cells of the first to the fill value",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[8], &[4]);
    h.create_array("a", &m).unwrap();
    let a = ndarray::Array::from_elem(vec![2], 1i32);
    h.write_ndarray("a", &m, smallvec![0], a.view()).unwrap();
    h.write_ndarray("a", &m, smallvec![2], a.view()).unwrap();
    let c = h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap();
    assert_eq!(c.get_data(), &[1; 4]);
}
'''),
dict(id="d16-temp-sweep", property="C16",
 edits=[("src/store/filesystem.rs", '''    pub fn open<P: AsRef<std::path::Path>>(base_path: P) -> Result<FilesystemHierarchy> {
        let base_path = PathBuf::from(base_path.as_ref());
''', '''    pub fn open<P: AsRef<std::path::Path>>(base_path: P) -> Result<FilesystemHierarchy> {
        let base_path = PathBuf::from(base_path.as_ref());
        // Killed processes may have left temporary files.
        for entry in fs::read_dir(&base_path)?.flatten() {
            if entry.file_name().to_str().map_or(false, is_temp_file_name) {
                let _ = fs::remove_file(entry.path());
            }
        }
''')],
 needs="a process opening a hierarchy while another one is creating its entry point, or a leftover of a killed creator",
 breaks="opening removes files: the creator's rename fails, or the stored bytes change under a pure reader",
 demo='''
fn main() {
    let h = fs();
    let f = scratch().join("h/.zarr-99999-0.tmp");
    std::fs::write(&f, b"{").unwrap();
    FilesystemHierarchy::open(scratch().join("h")).unwrap();
    assert!(f.exists(), "opening removed a file");
}
'''),
dict(id="d30-attr-each", property="C03",
 edits=[("src/storage.rs", '''        // TODO: determine whether attribute merging is still necessary for zarr
        let mut merged = existing.clone();
''', '''        // Small documents are written in one piece, larger updates key by key.
        if attributes.len() > 2 {
            for (k, v) in attributes {
                self.set_attributes(path_name, std::iter::once((k, v)).collect())?;
            }
            return Ok(());
        }

        // TODO: determine whether attribute merging is still necessary for zarr
        let mut merged = existing.clone();
''')],
 needs="a storage failure in the middle of an update of three or more attributes",
 breaks="a failed update leaves part of the attributes set",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    if std::env::args().count() > 1 {
        let m: serde_json::Map<String, serde_json::Value> = vec![
            ("a".to_string(), serde_json::json!(1)), ("b".to_string(), serde_json::json!(2)),
            ("c".to_string(), serde_json::json!("x".repeat(3000)))].into_iter().collect();
        std::process::exit(if h.set_attributes("g", m).is_err() { 0 } else { 1 });
    }
    let me = std::env::current_exe().unwrap();
    let s = std::process::Command::new("bash").arg("-c").arg(format!("trap '' XFSZ; ulimit -f 1; exec {} w", me.display())).status().unwrap();
    assert_eq!(s.code(), Some(0));
    assert!(h.list_attributes("g").unwrap().is_empty(), "a failed update changed the attributes");
}
'''),
dict(id="d32-idempotent-create", property="C11",
 edits=[("src/storage.rs", '''        if self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
            || self.exists(metadata_key.to_str().expect("TODO"))?
        {
''', '''        if self.exists(metadata_key.to_str().expect("TODO"))? {
            // Creating the same array again is harmless.
            if &self.get_array_metadata(path_name)? == array_meta {
                return Ok(());
            }
            return Err(ErrorKind::AlreadyExists.into());
        }
        if self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))? {
''')],
 needs="two creators of one array with identical metadata",
 breaks="both creators are told that they created the array",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[8], &[4]);
    h.create_array("a", &m).unwrap();
    let r = FilesystemHierarchy::open(scratch().join("h")).unwrap().create_array("a", &m);
    assert!(r.is_err());
}
'''),
dict(id="d35-entry-first-extension", property="C07",
 edits=[("src/store/filesystem.rs", '''        let metadata: EntryPointMetadata = serde_json::from_reader(reader)?;
        if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {''', '''        let metadata: EntryPointMetadata = serde_json::from_reader(reader)?;
        if let Some(ext) = metadata.extensions.first().filter(|e| e.must_understand) {''')],
 needs="an entry point with two extensions of which only a later one must be understood",
 breaks="a hierarchy that this library cannot understand is opened",
 demo='''
fn main() {
    let h = fs();
    std::fs::write(scratch().join("h/zarr.json"), serde_json::json!({
        "zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_key_suffix": ".json",
        "extensions": [{"extension": "http://a", "must_understand": false, "configuration": null}, {"extension": "http://b", "must_understand": true, "configuration": null}]}).to_string()).unwrap();
    assert!(FilesystemHierarchy::open(scratch().join("h")).is_err());
}
'''),
dict(id="d46-dotdot-sanitise", property="C14",
 edits=[("src/store/filesystem.rs", '''        Ok(self.base_path.join(unrooted_path))
''', '''        // Names must not be taken for hidden parent references by other tools.
        match unrooted_path.to_str() {
            Some(p) if p.contains("....") => Ok(self.base_path.join(p.replace("....", ".."))),
            _ => Ok(self.base_path.join(unrooted_path)),
        }
''')],
 needs="a path component of four dots",
 breaks="the key is resolved to a file outside the hierarchy's directory",
 demo=I32 + '''
fn main() {
    let h = fs();
    std::fs::create_dir_all(scratch().join("h/meta/root")).unwrap();
    let _ = h.create_group("..../..../..../out");
    assert!(!scratch().join("out.group.json").exists(), "a file outside was created");
}
'''),
dict(id="d58-create-check", property="C18", mem=True,
 edits=[("src/storage.rs", '''        let metadata_key = self.group_metadata_key(path_name);
        if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
            Err(Error::new(
                ErrorKind::AlreadyExists,
                "Array already exists at group path",
            ))
''', '''        let metadata_key = self.group_metadata_key(path_name);
        if HierarchyReader::array_exists(self, path_name).unwrap_or(false) {
            Err(Error::new(
                ErrorKind::AlreadyExists,
                "Array already exists at group path",
            ))
''')],
 needs="a read failure while a group is created at the path of an existing array",
 breaks="the array's existence is not noticed and a group appears at the same path",
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    h.create_array("a", &meta(&[4], &[2])).unwrap();
    h.ctl.lock().unwrap().fail_get = Some("a.array".into());
    assert!(h.create_group("a").is_err(), "a group was created over an array");
}
'''),
dict(id="d61-f64-extent", property="C08", nd=True,
 edits=[("src/lib.rs", "            .map(|(d, b)| u64_ceil_div(*d, b))", "            .map(|(d, b)| (*d as f64 / b as f64).ceil() as u64)")],
 needs="an array more than 2^53 elements long",
 breaks="the last chunks of the array are out of bounds or extra ones are in bounds",
 demo=I32 + '''
fn main() {
    let h = fs();
    let n = (1u64 << 60) + 1;
    let m = meta(&[n], &[4]);
    h.create_array("a", &m).unwrap();
    let a = ndarray::Array::from_elem(vec![1], 5i32);
    h.write_ndarray("a", &m, smallvec![n - 1], a.view()).unwrap();
    let b = h.read_ndarray::<i32>("a", &m, &BoundingBox::new(smallvec![n - 1], smallvec![1])).unwrap();
    assert_eq!(a, b);
}
'''),
]
