import importlib.util, os
_s = importlib.util.spec_from_file_location("b6", os.path.join("/verif/tools/bugs", "b6.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
I32, DOC = _m.I32, _m.DOC
BUGS = [
dict(id="h02-slice-memory-order", property="C08", nd=True,
 edits=[("src/ndarray.rs", '''                    Order::RowMajor => match view.as_slice() {
''', '''                    Order::RowMajor => match view.as_slice_memory_order() {
''')],
 needs="a region written from an array that is contiguous but not in standard layout, to an array of row-major chunks",
 breaks="the cells of whole chunks are stored in the memory order of the source array",
 demo=DOC+'''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [2, 3], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [2, 3], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "extensions": [], "attributes": {}}));
    h.create_array("a", &m).unwrap();
    let a = ndarray::Array::from_shape_vec(ndarray::ShapeBuilder::f((2, 3)), vec![1i32, 2, 3, 4, 5, 6]).unwrap().into_dyn();
    h.write_ndarray("a", &m, smallvec![0, 0], a.view()).unwrap();
    let b = h.read_ndarray::<i32>("a", &m, &BoundingBox::new(smallvec![0, 0], smallvec![2, 3])).unwrap();
    assert_eq!(a, b);
}
'''),
dict(id="h03-deep-merge", property="C10",
 edits=[("src/storage.rs", '''            for (k, v) in b {
                a.insert(k, v);
            }
''', '''            for (k, v) in b {
                match (a.get_mut(&k), v) {
                    // Members which are objects are merged in turn.
                    (Some(old @ Value::Object(_)), Value::Object(new)) => merge_top_level(old, new),
                    (_, v) => {
                        a.insert(k, v);
                    }
                }
            }
''')],
 needs="an attribute whose value is an object being replaced by another object",
 breaks="members of the former value remain",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), serde_json::json!({"x": 1})).unwrap();
    h.set_attribute("g", "a".into(), serde_json::json!({"y": 2})).unwrap();
    assert_eq!(serde_json::Value::from(h.list_attributes("g").unwrap()), serde_json::json!({"a": {"y": 2}}));
}
'''),
dict(id="h04-null-removes", property="C10",
 edits=[("src/storage.rs", '''            for (k, v) in b {
                a.insert(k, v);
            }
''', '''            for (k, v) in b {
                if v.is_null() && a.contains_key(&k) {
                    a.remove(&k);
                } else {
                    a.insert(k, v);
                }
            }
''')],
 needs="an existing attribute set to null",
 breaks="the attribute is removed rather than null",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), 1).unwrap();
    h.set_attribute("g", "a".into(), serde_json::Value::Null).unwrap();
    assert_eq!(serde_json::Value::from(h.list_attributes("g").unwrap()), serde_json::json!({"a": null}));
}
'''),
dict(id="h05-hidden-nodes", property="C12",
 edits=[("src/storage.rs", '''        // Remove duplicates.
        keys.sort();
''', '''        // Skip what other programs hide there.
        keys.retain(|k| !k[key_prefix.len()..].starts_with("._"));

        // Remove duplicates.
        keys.sort();
''')],
 needs="a node whose name starts with a dot and an underscore",
 breaks="it exists but is not listed",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g/._x").unwrap();
    assert!(HierarchyReader::exists(&h, "g/._x").unwrap());
    assert_eq!(h.list_nodes("g").unwrap(), vec!["._x"]);
}
'''),
dict(id="h06-caseless-dedup", property="C12",
 edits=[("src/storage.rs", '''        keys.dedup();
''', '''        keys.dedup_by(|a, b| a.eq_ignore_ascii_case(b));
''')],
 needs="two nodes whose names differ in case only and sort next to each other",
 breaks="one of them is not listed",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g/n").unwrap();
    h.create_group("g/N").unwrap();
    assert_eq!(h.list_nodes("g").unwrap(), vec!["N", "n"]);
}
'''),
dict(id="h08-unchecked-group", property="C18", mem=True,
 edits=[("src/storage.rs", '''        let metadata_key = self.group_metadata_key(path_name);
        if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
''', '''        let metadata_key = self.group_metadata_key(path_name);
        if self
            .get_array_metadata(path_name)
            .map_or(false, |m| m.validate().is_ok())
        {
''')],
 needs="a read failure while a group is created at the path of an array",
 breaks="the array is taken for absent and a group is created over it",
 demo=I32+'''
fn main() {
    let h = Mem::default();
    h.create_array("a", &meta(&[4], &[4])).unwrap();
    assert!(h.create_group("a").is_err());
    h.ctl.lock().unwrap().fail_read = Some("array".into());
    assert!(h.create_group("a").is_err());
    h.ctl.lock().unwrap().fail_read = None;
    assert!(!h.map.lock().unwrap().contains_key("meta/root/a.group.json"));
}
'''),
dict(id="h09-group-unasked", property="C18",
 edits=[("src/storage.rs", '''                || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?,
''', '''                || self
                    .exists(self.group_metadata_key(path_name).to_str().expect("TODO"))
                    .unwrap_or(false),
''')],
 needs="a failure to look up the group's document, not the array's",
 breaks="an existing group is reported as absent",
 demo='''
fn main() {
    let h = fs();
    // A loop of links stands for the failing look-up.
    h.create_group("g").unwrap();
    let p = scratch().join("h/meta/root/g.group.json");
    std::fs::remove_file(&p).unwrap();
    std::os::unix::fs::symlink(&p, &p).unwrap();
    assert!(HierarchyReader::exists(&h, "g").is_err());
}
'''),
dict(id="h10-last-chunk-counts", property="C02", mem=True, nd=True,
 edits=[("src/ndarray.rs", '''        for coord in array_meta.bounded_coord_iter(&bbox) {
            let grid_coord = GridCoord::from(&coord[..]);
            let nom_chunk_bb''', '''        let mut result = Ok(());
        for coord in array_meta.bounded_coord_iter(&bbox) {
            let grid_coord = GridCoord::from(&coord[..]);
            let nom_chunk_bb'''),
 ("src/ndarray.rs", '''                let chunk = VecDataChunk::new(coord.into(), chunk_vec);

                self.write_chunk(path_name, array_meta, &chunk)?;
                chunk_vec = chunk.into_data();
            } else {''', '''                let chunk = VecDataChunk::new(coord.into(), chunk_vec);

                // Write as much as possible.
                result = self.write_chunk(path_name, array_meta, &chunk);
                chunk_vec = chunk.into_data();
            } else {'''),
 ("src/ndarray.rs", '''                existing_chunk_vec = chunk_array.into_raw_vec();
            }
        }

        Ok(())
''', '''                existing_chunk_vec = chunk_array.into_raw_vec();
            }
        }

        result
''')],
 needs="a region of several whole chunks, of which one but not the last can not be written",
 breaks="the region write reports success",
 demo=I32+'''
fn main() {
    let h = Mem::default();
    let m = meta(&[8], &[4]);
    h.create_array("a", &m).unwrap();
    h.ctl.lock().unwrap().fail_set = Some("/c0".into());
    let a = ndarray::Array::from_elem(vec![8], 5i32).into_dyn();
    assert!(h.write_ndarray("a", &m, smallvec![0], a.view()).is_err());
}
'''),
dict(id="h12-entry-write", property="C16",
 edits=[("src/store/filesystem.rs", '''        let reader = BufReader::new(File::open(entry_point_path)?);
''', '''        // Opened as it will be for updating the version attribute.
        let file = fs::OpenOptions::new()
            .read(true)
            .append(true)
            .open(entry_point_path)?;
        let reader = BufReader::new(file);
''')],
 needs="a hierarchy on storage that rejects modification",
 breaks="it can not be opened",
 demo='''
extern "C" {
    fn seteuid(u: u32) -> i32;
}
fn main() {
    use std::os::unix::fs::PermissionsExt;
    fs();
    let dir = scratch().join("h");
    std::fs::set_permissions(dir.join("zarr.json"), std::fs::Permissions::from_mode(0o444)).unwrap();
    // The superuser may write what is not writeable.
    unsafe { seteuid(65534) };
    let r = FilesystemHierarchy::open(&dir);
    unsafe { seteuid(0) };
    assert!(r.is_ok(), "{:?}", r);
}
'''),
dict(id="h20-grid-position-u32", property="C01",
 edits=[("src/storage.rs", '''        write!(chunk_key, "{}", coord).unwrap();
''', '''        write!(chunk_key, "{}", *coord as u32).unwrap();
''')],
 needs="grid positions of 2^32 and more",
 breaks="chunks 2^32 apart are stored under one key",
 demo=I32+'''
fn main() {
    let h = fs();
    let m = meta(&[1 << 40], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[1], 4, 7)).unwrap();
    h.write_chunk("a", &m, &chunk(&[(1 << 32) + 1], 4, 8)).unwrap();
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![1]).unwrap().unwrap().get_data(), &[7; 4]);
}
'''),
dict(id="h34-lz4-checksum", property="C15",
 edits=[("src/compression/lz.rs", '''            .block_mode(BlockMode::Independent)
''', '''            .block_mode(BlockMode::Independent)
            .checksum(lz4::ContentChecksum::NoChecksum)
''')],
 needs="a stored lz4 chunk with altered bytes",
 breaks="other elements are read without an error",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![256], smallvec![256], u8::ZARR_TYPE, CompressionType::Lz4(zarr::compression::lz::Lz4Compression::default()));
    h.create_array("a", &m).unwrap();
    let mut x = 1u32;
    let v: Vec<u8> = (0..256).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], v.clone())).unwrap();
    let p = scratch().join("h/data/root/a/c0");
    let mut b = std::fs::read(&p).unwrap();
    let i = b.len() / 2;
    b[i] ^= 4;
    std::fs::write(&p, &b).unwrap();
    if let Ok(Some(c)) = h.read_chunk::<u8>("a", &m, smallvec![0]) {
        assert_eq!(c.get_data(), &v[..]);
    }
}
'''),
dict(id="h46-remove-known", property="C13",
 edits=[("src/storage.rs", '''        // TODO: needless allocs
        let metadata_key = self.group_metadata_key(path_name);
        self.erase(metadata_key.to_str().expect("TODO"))?;
        let metadata_key = self.array_metadata_key(path_name);
        self.erase(metadata_key.to_str().expect("TODO"))?;
''', '''        // TODO: needless allocs
        let keys = [
            self.group_metadata_key(path_name),
            self.array_metadata_key(path_name),
        ];
        let mut known = canonicalize_path(path_name).is_empty();
        for key in keys.iter().map(|k| k.to_str().expect("TODO")) {
            known |= self.exists(key)?;
            self.erase(key)?;
        }
        if !known && self.list_attributes("").is_ok() {
            // There is nothing to remove.
            return Ok(());
        }
''')],
 needs="a removal interrupted after it erased the node's metadata, below a root that is an explicit node",
 breaks="repeating the removal does nothing: the chunks of the node remain",
 mem=True,
 demo=I32+'''
fn main() {
    let h = Mem::default();
    let m = meta(&[4], &[4]);
    h.create_group("").unwrap();
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 7)).unwrap();
    h.ctl.lock().unwrap().fail_erase = Some("/data/root".into());
    assert!(h.remove("a").is_err());
    h.ctl.lock().unwrap().fail_erase = None;
    h.remove("a").unwrap();
    h.create_array("a", &m).unwrap();
    assert!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().is_none());
}
'''),
dict(id="h49-lock-leak", property="C17",
 edits=[("src/store/filesystem.rs", '''            file.lock_shared()?;
            Ok(Some(BufReader::new(file)))
''', '''            // Reading starts once there is a lock.
            let file = std::mem::ManuallyDrop::new(file);
            file.lock_shared()?;
            Ok(Some(BufReader::new(std::mem::ManuallyDrop::into_inner(file))))
''')],
 needs="a lock that can not be taken",
 breaks="the file stays open",
 demo='''
// Stands in for a system that has no locks left.
#[no_mangle]
pub extern "C" fn flock(_fd: i32, _op: i32) -> i32 {
    extern "C" { fn __errno_location() -> *mut i32; }
    unsafe { *__errno_location() = 37; }
    -1
}
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    let open = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = open();
    for _ in 0..5 {
        assert!(h.list_attributes("g").is_err());
    }
    assert_eq!(open(), before);
}
'''),
dict(id="h53-roll-back", property="C09", mem=True, nd=True,
 edits=[("src/ndarray.rs", '''                let chunk = VecDataChunk::new(coord.into(), chunk_vec);

                self.write_chunk(path_name, array_meta, &chunk)?;
                chunk_vec = chunk.into_data();
            } else {''', '''                let chunk = VecDataChunk::new(coord.into(), chunk_vec);

                if let Err(e) = self.write_chunk(path_name, array_meta, &chunk) {
                    // Its content was to be replaced altogether.
                    let _ = self.delete_chunk(path_name, array_meta, &grid_coord);
                    return Err(e);
                }
                chunk_vec = chunk.into_data();
            } else {''')],
 needs="a region write failing at a chunk that lies wholly in the region",
 breaks="the former content of the chunk is gone",
 demo=I32+'''
fn main() {
    let h = Mem::default();
    let m = meta(&[8], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[1], 4, 7)).unwrap();
    h.ctl.lock().unwrap().fail_set = Some("/c1".into());
    let a = ndarray::Array::from_elem(vec![8], 5i32).into_dyn();
    assert!(h.write_ndarray("a", &m, smallvec![0], a.view()).is_err());
    h.ctl.lock().unwrap().fail_set = None;
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![1]).unwrap().unwrap().get_data(), &[7; 4]);
}
'''),
dict(id="h58-terse-extension", property="C20",
 edits=[("src/lib.rs", '''    pub extension: String,
    pub must_understand: bool,
''', '''    pub extension: String,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub must_understand: bool,
''')],
 needs="an array with an extension that need not be understood",
 breaks="its document lacks the member saying so",
 demo=DOC+'''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [2], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "extensions": [{"extension": "http://x.org/e", "must_understand": false}], "attributes": {}}));
    h.create_array("a", &m).unwrap();
    let d: serde_json::Value = serde_json::from_slice(&std::fs::read(scratch().join("h/meta/root/a.array.json")).unwrap()).unwrap();
    assert_eq!(d["extensions"][0]["must_understand"], serde_json::json!(false));
}
'''),
dict(id="h60-fallback-endian", property="C20",
 edits=[("src/data_type.rs", '''            Extended {
                fallback: Some(d), ..
            } => Ok(*d),
''', '''            // Fallbacks describe elements in memory.
            Extended {
                fallback: Some(DataType::Float { size, .. }),
                ..
            } => Ok(DataType::Float {
                size: *size,
                endian: NATIVE_ENDIAN,
            }),
            Extended {
                fallback: Some(d), ..
            } => Ok(*d),
''')],
 needs="an extended data type whose fallback is a floating point type of the other byte order, with a chunk of another implementation",
 breaks="elements are read in the wrong byte order",
 demo=DOC+'''
fn main() {
    let h = fs();
    let m = doc(serde_json::json!({"shape": [2], "data_type": {"extension": "http://x.org/t", "type": "bf", "fallback": ">f4"}, "chunk_grid": {"type": "regular", "chunk_shape": [2], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "extensions": [], "attributes": {}}));
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1.0f32, 2.0])).unwrap();
    let mut e = 1.0f32.to_be_bytes().to_vec();
    e.extend(2.0f32.to_be_bytes().iter());
    assert_eq!(std::fs::read(scratch().join("h/data/root/a/c0")).unwrap(), e);
}
'''),
dict(id="h62-array-children", property="C13",
 edits=[("src/storage.rs", '''        let metadata_key = self.array_metadata_key(path_name);
        self.erase(metadata_key.to_str().expect("TODO"))?;
''', '''        let metadata_key = self.array_metadata_key(path_name);
        let is_array = self.exists(metadata_key.to_str().expect("TODO"))?;
        self.erase(metadata_key.to_str().expect("TODO"))?;
        if is_array {
            // Only groups have descendants.
            self.erase_prefix(&format!(
                "{}/{}/",
                crate::DATA_ROOT_PATH,
                canonicalize_path(path_name)
            ))?;
            return Ok(());
        }
''')],
 needs="a node created below the path of an array that is then removed",
 breaks="it remains after the array's removal",
 demo=I32+'''
fn main() {
    let h = fs();
    h.create_array("a", &meta(&[4], &[4])).unwrap();
    h.create_group("a/b").unwrap();
    h.remove("a").unwrap();
    assert!(!HierarchyReader::exists(&h, "a/b").unwrap());
}
'''),
]
