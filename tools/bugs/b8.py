import importlib.util, os
_s = importlib.util.spec_from_file_location("b6", os.path.join("/verif/tools/bugs", "b6.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
I32, DOC = _m.I32, _m.DOC
BUGS = [
dict(id="i07-create-then-check", property="C04", mem=True,
 edits=[("src/storage.rs", '''        if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
            Err(Error::new(
                ErrorKind::AlreadyExists,
                "Array already exists at group path",
            ))
        } else if self.exists(metadata_key.to_str().expect("TODO"))? {
            Ok(())
        } else {
            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
                serde_json::to_writer(&mut writer, &GroupMetadata::default())?;
                writer.flush()
            })
        }
''', '''        if self.exists(metadata_key.to_str().expect("TODO"))? {
            return Ok(());
        }
        self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
            serde_json::to_writer(&mut writer, &GroupMetadata::default())?;
            writer.flush()
        })?;
        // Looking afterwards also notices arrays created in the meantime.
        if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
            self.erase(metadata_key.to_str().expect("TODO"))?;
            return Err(Error::new(
                ErrorKind::AlreadyExists,
                "Array already exists at group path",
            ));
        }
        Ok(())
''')],
 needs="a process killed while it tries to create a group at the path of an array",
 breaks="the path is left with metadata of both a group and an array",
 demo=I32+'''
fn main() {
    let h = Mem::default();
    h.create_array("a", &meta(&[4], &[4])).unwrap();
    // The process ends before it gets to undo anything.
    h.ctl.lock().unwrap().fail_erase = Some("group".into());
    assert!(h.create_group("a").is_err());
    assert!(!h.map.lock().unwrap().contains_key("meta/root/a.group.json"));
}
'''),
dict(id="i15-short-as-missing", property="C15", nd=True,
 edits=[("src/ndarray.rs", '''                Some(ref mut chunk_buff) => self
                    .read_chunk_into(path_name, array_meta, grid_pos, chunk_buff)?
                    .is_some(),
            };
''', '''                Some(ref mut chunk_buff) => {
                    match self.read_chunk_into(path_name, array_meta, grid_pos, chunk_buff) {
                        // Nothing was written there yet.
                        Err(ref e) if e.kind() == ErrorKind::UnexpectedEof => false,
                        result => result?.is_some(),
                    }
                }
            };
''')],
 needs="a truncated chunk that is not the first of those in a region read",
 breaks="its cells read as the fill value",
 demo=I32+'''
fn main() {
    let h = fs();
    let m = meta(&[8], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 5)).unwrap();
    h.write_chunk("a", &m, &chunk(&[1], 4, 6)).unwrap();
    let p = scratch().join("h/data/root/a/c1");
    let b = std::fs::read(&p).unwrap();
    std::fs::write(&p, &b[..b.len() / 2]).unwrap();
    assert!(h.read_ndarray::<i32>("a", &m, &BoundingBox::new(smallvec![0], smallvec![8])).is_err());
}
'''),
dict(id="i30-same-number", property="C10",
 edits=[("src/storage.rs", '''            for (k, v) in b {
                a.insert(k, v);
            }
''', '''            for (k, v) in b {
                // Numbers that stay the same keep their form.
                let same = match (a.get(&k), &v) {
                    (Some(Value::Number(old)), Value::Number(new)) => old.as_f64() == new.as_f64(),
                    _ => false,
                };
                if !same {
                    a.insert(k, v);
                }
            }
''')],
 needs="an attribute updated from one large integer to another close to it, or from an integer to an equal float",
 breaks="the update has no effect",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), 9007199254740993u64).unwrap();
    h.set_attribute("g", "a".into(), 9007199254740992u64).unwrap();
    assert_eq!(serde_json::Value::from(h.list_attributes("g").unwrap()), serde_json::json!({"a": 9007199254740992u64}));
}
'''),
dict(id="i35-version-once", property="C07",
 edits=[("src/store/filesystem.rs", '''        let version = reader.get_version()?;

        if !version.matches(&crate::VERSION) {
            return Err(Error::new(ErrorKind::Other, "TODO: Incompatible version"));
        }

        Ok(reader)
    }

    /// Open an existing Zarr hierarchy by path or create one if none exists.
''', '''        // Checked once.
        use std::sync::atomic::{AtomicBool, Ordering};
        static CHECKED: AtomicBool = AtomicBool::new(false);
        if !CHECKED.load(Ordering::Relaxed) {
            let version = reader.get_version()?;

            if !version.matches(&crate::VERSION) {
                return Err(Error::new(ErrorKind::Other, "TODO: Incompatible version"));
            }
            CHECKED.store(true, Ordering::Relaxed);
        }

        Ok(reader)
    }

    /// Open an existing Zarr hierarchy by path or create one if none exists.
''')],
 needs="a hierarchy of an unsupported version opened after another one",
 breaks="it is opened",
 demo='''
fn main() {
    fs();
    FilesystemHierarchy::open(scratch().join("h")).unwrap();
    let b = std::fs::read_to_string(scratch().join("h/zarr.json")).unwrap();
    std::fs::create_dir(scratch().join("k")).unwrap();
    std::fs::write(scratch().join("k/zarr.json"), b.replace("/3.0", "/4.0")).unwrap();
    assert!(FilesystemHierarchy::open(scratch().join("k")).is_err());
}
'''),
dict(id="i42-partial-document", property="C15",
 edits=[("src/storage.rs", '''        let metadata: ArrayMetadata = serde_json::from_reader(value_reader)?;
''', '''        let metadata: ArrayMetadata = match serde_json::from_reader(value_reader) {
            // Whoever creates the array has not written all yet.
            Err(ref e) if e.is_eof() => return Err(Error::from(ErrorKind::NotFound)),
            result => result?,
        };
''')],
 needs="a truncated metadata document",
 breaks="array_exists reports that there is no array",
 demo=I32+'''
fn main() {
    let h = fs();
    h.create_array("a", &meta(&[4], &[4])).unwrap();
    let p = scratch().join("h/meta/root/a.array.json");
    let b = std::fs::read(&p).unwrap();
    std::fs::write(&p, &b[..b.len() / 2]).unwrap();
    assert!(h.array_exists("a").is_err());
}
'''),
dict(id="i77-full-retry", property="C17", mem=True, nd=True,
 edits=[("src/ndarray.rs", '''                self.write_chunk(path_name, array_meta, &chunk)?;
                chunk_vec = chunk.into_data();
                existing_chunk_vec''', '''                // Others may make room.
                let full = |r: &Result<(), Error>| {
                    r.as_ref().err().and_then(|e| e.raw_os_error()) == Some(28)
                };
                let mut result = self.write_chunk(path_name, array_meta, &chunk);
                while full(&result) {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    result = self.write_chunk(path_name, array_meta, &chunk);
                }
                result?;
                chunk_vec = chunk.into_data();
                existing_chunk_vec''')],
 needs="a region write that covers a chunk in part, on a disk that stays full",
 breaks="it never returns",
 demo=I32+'''
// Stands in for a full disk.
#[no_mangle]
pub extern "C" fn rename(_a: *const std::os::raw::c_char, _b: *const std::os::raw::c_char) -> i32 {
    extern "C" { fn __errno_location() -> *mut i32; }
    if FULL.load(std::sync::atomic::Ordering::SeqCst) {
        unsafe { *__errno_location() = 28; }
        return -1;
    }
    extern "C" { fn renameat(d: i32, a: *const std::os::raw::c_char, e: i32, b: *const std::os::raw::c_char) -> i32; }
    unsafe { renameat(-100, _a, -100, _b) }
}
static FULL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn main() {
    let h = fs();
    let m = meta(&[8], &[4]);
    h.create_array("a", &m).unwrap();
    FULL.store(true, std::sync::atomic::Ordering::SeqCst);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let a = ndarray::Array::from_elem(vec![2], 5i32).into_dyn();
        tx.send(h.write_ndarray("a", &m, smallvec![0], a.view()).is_err()).unwrap();
    });
    assert_eq!(rx.recv_timeout(std::time::Duration::from_secs(10)), Ok(true));
}
'''),
dict(id="i82-group-suffix", property="C12",
 edits=[("src/lib.rs", '''        add_extension(&mut key, GROUP_METADATA_KEY_EXT);
        add_extension(&mut key, suffix);
        key
''', '''        add_extension(&mut key, GROUP_METADATA_KEY_EXT);
        // Suffixes name the encoding, but for that of what they extend.
        add_extension(&mut key, suffix.rsplit('.').next().unwrap_or(suffix));
        key
''')],
 needs="a hierarchy whose metadata key suffix has several parts",
 breaks="groups are created but not listed",
 demo='''
fn main() {
    std::fs::create_dir(scratch().join("h")).unwrap();
    std::fs::write(scratch().join("h/zarr.json"), serde_json::json!({"zarr_format": "https://purl.org/zarr/spec/protocol/core/3.0",
        "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_key_suffix": ".meta.json", "extensions": []}).to_string()).unwrap();
    let h = fs();
    h.create_group("g").unwrap();
    assert_eq!(h.list_nodes("").unwrap(), vec!["g"]);
}
'''),
dict(id="i85-erase-first", property="C11", mem=True,
 edits=[("src/storage.rs", '''        if merged != existing {
            self.set(''', '''        if merged != existing {
            // Some stores can not replace values.
            self.erase(metadata_key.to_str().expect("TODO"))?;
            self.set(''')],
 needs="attributes read while they are updated",
 breaks="the node is absent for a while",
 demo='''
fn main() {
    let h = Mem::default();
    h.create_group("g").unwrap();
    h.ctl.lock().unwrap().fail_set = Some("group".into());
    assert!(h.set_attribute("g", "a".into(), 1).is_err());
    assert!(HierarchyReader::exists(&h, "g").unwrap());
}
'''),
dict(id="i87-erase-all-of-chunk", property="C21", mem=True,
 edits=[("src/storage.rs", '''        let chunk_key = get_chunk_key(path_name, array_meta, grid_position);
        self.erase(&chunk_key)
''', '''        let chunk_key = get_chunk_key(path_name, array_meta, grid_position);
        // Chunks may be stored in several parts.
        self.erase_prefix(&chunk_key)
''')],
 needs="a backend whose prefixes are plain strings, and a chunk deleted whose key starts others",
 breaks="the other chunks are deleted as well",
 demo=I32+'''
fn main() {
    let h = Mem::default();
    let m = meta(&[80], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[1], 4, 5)).unwrap();
    h.write_chunk("a", &m, &chunk(&[12], 4, 6)).unwrap();
    h.delete_chunk("a", &m, &[1]).unwrap();
    assert!(h.read_chunk::<i32>("a", &m, smallvec![12]).unwrap().is_some());
}
'''),
dict(id="i90-outside-zero", property="C08", nd=True,
 edits=[("src/ndarray.rs", '''        let fill_value = array_meta.get_effective_fill_value()?;
        let mut arr = Array::from_elem(chunk_shape, fill_value);
''', '''        // Without any chunks the fill value need not be known.
        let fill_value = if array_meta.bounded_coord_iter(bbox).len() == 0 {
            T::default()
        } else {
            array_meta.get_effective_fill_value()?
        };
        let mut arr = Array::from_elem(chunk_shape, fill_value);
''')],
 needs="a region wholly outside an array with a fill value other than zero",
 breaks="it reads as zero",
 demo=DOC+'''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": 7, "extensions": [], "attributes": {}}));
    h.create_array("a", &m).unwrap();
    let b = h.read_ndarray::<i32>("a", &m, &BoundingBox::new(smallvec![10], smallvec![2])).unwrap();
    assert_eq!(b.into_raw_vec(), vec![7, 7]);
}
'''),
]
