I32 = '''
fn meta(shape: &[u64], chunk: &[u32]) -> ArrayMetadata {
    ArrayMetadata::new(shape.into(), chunk.into(), i32::ZARR_TYPE, CompressionType::default())
}
fn chunk(pos: &[u64], n: usize, v: i32) -> SliceDataChunk<i32, Vec<i32>> {
    SliceDataChunk::new(pos.into(), vec![v; n])
}
'''
BUGS = [
dict(id="b01-reinit-grow", property="C01",
 edits=[("src/chunk.rs", "        self.data.resize_with(num_el as usize, Default::default);",
 "        // Avoid reallocation where the buffer already holds enough elements.\n        if self.data.len() < num_el as usize {\n            self.data.resize_with(num_el as usize, Default::default);\n        }")],
 needs="a buffer that held a larger chunk reused to read a smaller one",
 breaks="read_chunk_into with a reused buffer reads the wrong number of elements",
 demo=I32 + '''
fn main() {
    let h = fs();
    let (a, b) = (meta(&[8], &[8]), meta(&[8], &[4]));
    h.create_array("a", &a).unwrap();
    h.create_array("b", &b).unwrap();
    h.write_chunk("a", &a, &chunk(&[0], 8, 1)).unwrap();
    h.write_chunk("b", &b, &chunk(&[0], 4, 2)).unwrap();
    let mut buf = h.read_chunk::<i32>("a", &a, smallvec![0]).unwrap().unwrap();
    h.read_chunk_into("b", &b, smallvec![0], &mut buf).unwrap().unwrap();
    assert_eq!(buf.get_data(), &[2; 4]);
}
'''),
dict(id="b02-bool-block", property="C20",
 edits=[("src/chunk.rs", "            target.write_all(&buf[..c.len()])?;", "            target.write_all(&buf[..])?;")],
 needs="a chunk of booleans whose number of elements is no multiple of the internal block of 256",
 breaks="stored boolean chunks carry surplus bytes after their elements",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![300], smallvec![300], bool::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![true; 300])).unwrap();
    assert_eq!(std::fs::read(scratch().join("h/data/root/a/c0")).unwrap(), vec![1u8; 300]);
}
'''),
dict(id="b03-delete-error", property="C02",
 edits=[("src/storage.rs", "        self.erase(&chunk_key)\n", "        // `false` tells that the chunk may still exist.\n        Ok(self.erase(&chunk_key).unwrap_or(false))\n")],
 needs="a storage error while a chunk is deleted",
 breaks="a failed chunk deletion is reported as success", mem=True,
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 1)).unwrap();
    h.ctl.lock().unwrap().fail_erase = Some("c0".into());
    assert!(h.delete_chunk("a", &m, &[0]).is_err());
}
'''),
dict(id="b04-remove-error", property="C13",
 edits=[("src/storage.rs", '''        let metadata_key = self.group_metadata_key(path_name);
        self.erase(metadata_key.to_str().expect("TODO"))?;''', '''        let metadata_key = self.group_metadata_key(path_name);
        // Nodes usually are arrays, which have no group metadata.
        self.erase(metadata_key.to_str().expect("TODO")).ok();''')],
 needs="a storage error while the metadata of a group is removed",
 breaks="removing a group reports success while the group still exists", mem=True,
 demo='''
fn main() {
    let h = Mem::default();
    h.create_group("g").unwrap();
    h.ctl.lock().unwrap().fail_erase = Some("group".into());
    assert!(h.remove("g").is_err());
}
'''),
dict(id="b05-surplus-elements", property="C03",
 edits=[("src/chunk.rs", "        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {", "        if (chunk.get_num_elements() as usize) < array_meta.get_chunk_num_elements() {")],
 needs="a chunk with more elements than those of the array",
 breaks="a write with the wrong element count is not rejected and replaces the stored chunk",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 1)).unwrap();
    assert!(h.write_chunk("a", &m, &chunk(&[0], 5, 2)).is_err());
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[1; 4]);
}
'''),
dict(id="b06-region-read-error", property="C18",
 edits=[("src/ndarray.rs", '''                    grid_coord.clone(),
                    &mut existing_chunk,
                )?;''', '''                    grid_coord.clone(),
                    &mut existing_chunk,
                )
                .unwrap_or(None);''')],
 needs="a storage error while a region write reads a chunk it covers in part",
 breaks="the cells outside of the region are overwritten with the fill value", mem=True, nd=True,
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 1)).unwrap();
    h.ctl.lock().unwrap().fail_read = Some("c0".into());
    let arr = ndarray::Array::from_elem(ndarray::IxDyn(&[2]), 7i32);
    let r = h.write_ndarray("a", &m, smallvec![0], arr.view());
    h.ctl.lock().unwrap().fail_read = None;
    assert!(r.is_err());
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[1; 4]);
}
'''),
dict(id="b08-grid-u32", property="C01",
 edits=[("src/storage.rs", '        write!(chunk_key, "{}", coord).unwrap();', '        write!(chunk_key, "{}", *coord as u32).unwrap();')],
 needs="grid positions beyond 32 bits",
 breaks="chunks whose positions differ by a multiple of 2^32 overwrite one another",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[1 << 40], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[5], 4, 1)).unwrap();
    h.write_chunk("a", &m, &chunk(&[(1 << 32) + 5], 4, 2)).unwrap();
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![5]).unwrap().unwrap().get_data(), &[1; 4]);
}
'''),
dict(id="b09-group-again", property="C10",
 edits=[("src/storage.rs", '''        } else if self.exists(metadata_key.to_str().expect("TODO"))? {
            Ok(())
        } else {''', '''        } else {
            // Groups hold nothing that would need to be checked.''')],
 needs="creating a group that exists already and has attributes",
 breaks="creating an existing group resets its attributes",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), 1).unwrap();
    h.create_group("g").unwrap();
    assert_eq!(h.list_attributes("g").unwrap()["a"], 1);
}
'''),
dict(id="b10-erase-then-set", property="C04",
 edits=[("src/storage.rs", '''        if merged != existing {
''', '''        if merged != existing {
            self.erase(metadata_key.to_str().expect("TODO"))?;
''')],
 needs="a crash or failure between the removal of old metadata and the storing of the new",
 breaks="a node vanishes where an attribute update is interrupted", mem=True,
 demo='''
fn main() {
    let h = Mem::default();
    h.create_group("g").unwrap();
    h.ctl.lock().unwrap().fail_set = Some("g".into());
    assert!(h.set_attribute("g", "a".into(), 1).is_err());
    assert!(HierarchyReader::exists(&h, "g").unwrap());
}
'''),
dict(id="b11-unsorted-dedup", property="C12",
 edits=[("src/storage.rs", '''        // Remove duplicates.
        keys.sort();
        keys.dedup();''', '''        // Remove duplicates, which follow one another as stores list in order.
        keys.dedup();''')],
 needs="a listed group in which several nodes have both metadata and children",
 breaks="children are listed twice",
 demo='''
fn main() {
    let h = fs();
    for g in &["p/a", "p/a/x", "p/b", "p/b/x"] { h.create_group(g).unwrap(); }
    let mut l = h.list_nodes("p").unwrap();
    l.sort();
    assert_eq!(l, ["a", "b"]);
}
'''),
dict(id="b12-prefix-slash", property="C21",
 edits=[("src/storage.rs", '''        prefixes
            .iter_mut()
            .for_each(|p| p.truncate(p.trim_end_matches('/').len()));
''', "")],
 needs="a store whose list_dir returns prefixes with their trailing slash",
 breaks="nodes with children are listed twice, once with a slash", mem=True,
 demo='''
fn main() {
    let h = Mem::default();
    h.ctl.lock().unwrap().slash = true;
    for g in &["p/a", "p/a/x", "p/b"] { h.create_group(g).unwrap(); }
    assert_eq!(h.list_nodes("p").unwrap(), ["a", "b"]);
}
'''),
dict(id="b13-curdir-nest", property="C14",
 edits=[("src/store/filesystem.rs", '''                Component::CurDir => continue,
                Component::ParentDir => nest -= 1,
                Component::Normal(_) => nest += 1,''', '''                Component::ParentDir => nest -= 1,
                Component::CurDir | Component::Normal(_) => nest += 1,''')],
 needs="a key that starts with a current directory component followed by a parent component",
 breaks="keys such as ./../x reach outside of the hierarchy",
 demo='''
fn main() {
    let h = fs();
    std::fs::write(scratch().join("x"), b"outside").unwrap();
    assert!(!ReadableStore::exists(&h, "./../x").unwrap_or(false));
}
'''),
dict(id="b14-short-u8", property="C15",
 edits=[("src/chunk.rs", "        source.read_exact(self.data.as_mut())\n", '''        let mut data = self.data.as_mut();
        while !data.is_empty() {
            match source.read(data) {
                Ok(0) => break,
                Ok(n) => data = &mut data[n..],
                Err(ref e) if e.kind() == ErrorKind::Interrupted => (),
                Err(e) => return Err(e),
            }
        }
        Ok(())
''')],
 needs="a truncated stored chunk of bytes",
 breaks="a truncated chunk is read as if complete, with whatever was in the buffer",
 demo='''
fn main() {
    let h = fs();
    let m = ArrayMetadata::new(smallvec![8], smallvec![8], u8::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1u8; 8])).unwrap();
    std::fs::write(scratch().join("h/data/root/a/c0"), [1u8; 5]).unwrap();
    assert!(h.read_chunk::<u8>("a", &m, smallvec![0]).is_err());
}
'''),
dict(id="b15-open-mkdir", property="C16",
 edits=[("src/store/filesystem.rs", '''        let entry_point_metadata = Self::read_entry_point_metadata(&base_path)?;

''', '''        let entry_point_metadata = Self::read_entry_point_metadata(&base_path)?;
        // Listing expects the directories of the metadata and data roots.
        for root in &[crate::META_ROOT_PATH, crate::DATA_ROOT_PATH] {
            fs::create_dir_all(base_path.join(root.trim_start_matches('/'))).ok();
        }

''')],
 needs="opening a hierarchy in which nothing was stored yet, or from which all was removed",
 breaks="opening a hierarchy creates directories",
 demo='''
fn main() {
    let h = fs();
    drop(h);
    FilesystemHierarchy::open(scratch().join("h")).unwrap();
    let names: Vec<_> = std::fs::read_dir(scratch().join("h")).unwrap().map(|e| e.unwrap().file_name()).collect();
    assert_eq!(names, ["zarr.json"]);
}
'''),
dict(id="b16-kept-handle", property="C17",
 edits=[("src/store/filesystem.rs", '''            file.lock_shared()?;
            Ok(Some(BufReader::new(file)))
        } else {
            Ok(None)''', '''            file.lock_shared()?;
            // Keep metadata open, as it often is read several times.
            if key.ends_with(".json") {
                *LAST_READ.lock().unwrap() = Some(file.try_clone()?);
            }
            Ok(Some(BufReader::new(file)))
        } else {
            Ok(None)'''),
  ("src/store/filesystem.rs", "/// A filesystem-backed Zarr hierarchy.\n#[derive", "static LAST_READ: std::sync::Mutex<Option<File>> = std::sync::Mutex::new(None);\n\n/// A filesystem-backed Zarr hierarchy.\n#[derive")],
 needs="removing a node whose metadata was the last read",
 breaks="a read keeps its shared lock, so that a later removal waits forever",
 demo=I32 + '''
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); std::process::exit(1) });
    let h = fs();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), 1).unwrap();
    h.list_attributes("g").unwrap();
    h.remove("g").unwrap();
}
'''),
dict(id="b17-list-skip", property="C18",
 edits=[("src/storage.rs", '''            let dir = self.list_dir(&next)?;
            result.extend(dir.0);
            to_visit.extend(dir.1);''', '''            // Prefixes may vanish while they are listed.
            if let Ok(dir) = self.list_dir(&next) {
                result.extend(dir.0);
                to_visit.extend(dir.1);
            }''')],
 needs="a storage error while one directory of several is listed",
 breaks="keys are missing from a listing that reports success", mem=True,
 demo='''
fn main() {
    let h = Mem::default();
    h.create_group("p/a").unwrap();
    h.ctl.lock().unwrap().fail_list = Some("root/p".into());
    assert!(h.list_prefix("meta").is_err());
}
'''),
dict(id="b18-empty-configuration", property="C19",
 edits=[("src/lib.rs", '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub configuration: Option<JsonObject>,
}
''', '''    #[serde(skip_serializing_if = "is_unconfigured")]
    pub configuration: Option<JsonObject>,
}

fn is_unconfigured(configuration: &Option<JsonObject>) -> bool {
    configuration.as_ref().map_or(true, |c| c.is_empty())
}
''')],
 needs="an array extension with an empty configuration object",
 breaks="metadata read back differs from that stored",
 demo='''
fn main() {
    let h = fs();
    let m: ArrayMetadata = serde_json::from_value(serde_json::json!({
        "shape": [4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [4], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": 0, "attributes": {},
        "extensions": [{"extension": "http://example.org/x", "must_understand": false, "configuration": {}}]})).unwrap();
    h.create_array("a", &m).unwrap();
    assert_eq!(h.get_array_metadata("a").unwrap(), m);
}
'''),
dict(id="b19-lz4-field", property="C20",
 edits=[("src/compression/lz.rs", '#[serde(rename_all = "camelCase")]\n', "")],
 needs="an LZ4 array whose block size is not the default, exchanged with another implementation",
 breaks="the documented field blockSize is neither written nor read",
 demo='''
fn main() {
    let h = fs();
    let c: CompressionType = serde_json::from_value(serde_json::json!({"codec": "lz4", "configuration": {"blockSize": 262144}})).unwrap();
    let m = ArrayMetadata::new(smallvec![8], smallvec![8], u8::ZARR_TYPE, c);
    h.create_array("a", &m).unwrap();
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(scratch().join("h/meta/root/a.array.json")).unwrap()).unwrap();
    assert_eq!(v["compressor"]["configuration"]["blockSize"], 262144);
}
'''),
dict(id="b20-mkdir-race", property="C06",
 edits=[("src/store/filesystem.rs", '''            if !parent.exists() {
                fs::create_dir_all(parent)?;
            }''', '''            let missing: Vec<_> = parent.ancestors().take_while(|p| !p.exists()).collect();
            for dir in missing.iter().rev() {
                fs::create_dir(dir)?;
            }''')],
 needs="two clients that write the first values below one directory at the same time",
 breaks="one of two writers of distinct chunks or nodes fails because the other created the directory",
 demo=I32 + '''
fn main() {
    let h = fs();
    let m = meta(&[4096, 4096], &[4, 4]);
    h.create_array("a", &m).unwrap();
    for round in 0..200u64 {
        let b = Arc::new(std::sync::Barrier::new(8));
        let ts: Vec<_> = (0..8u64).map(|i| { let (h, m, b) = (h.clone(), m.clone(), b.clone()); std::thread::spawn(move || {
            b.wait();
            h.write_chunk("a", &m, &chunk(&[round, i], 16, i as i32)).is_ok()
        }) }).collect();
        for t in ts { assert!(t.join().unwrap()); }
    }
}
'''),
dict(id="b21-dir-cache", property="C13",
 edits=[("src/store/filesystem.rs", '''            if !parent.exists() {
                fs::create_dir_all(parent)?;
            }''', '''            // Look up directories once only, which takes most of the time of small writes.
            if !self.dirs.lock().unwrap().contains(parent) {
                fs::create_dir_all(parent)?;
                self.dirs.lock().unwrap().insert(parent.to_owned());
            }'''),
 ("src/store/filesystem.rs", '''    base_path: PathBuf,
    entry_point_metadata: EntryPointMetadata,
}
''', '''    base_path: PathBuf,
    entry_point_metadata: EntryPointMetadata,
    /// Directories created.
    dirs: std::sync::Arc<std::sync::Mutex<std::collections::HashSet<PathBuf>>>,
}
'''),
 ("src/store/filesystem.rs", '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
        };''', '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
            dirs: Default::default(),
        };'''),
 ("src/store/filesystem.rs", '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
        };''', '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
            dirs: Default::default(),
        };'''),
 ("src/store/filesystem.rs", '''        let path = self.get_path(key_prefix)?;
''', '''        let path = self.get_path(key_prefix)?;
        self.dirs.lock().unwrap().clear();
'''),
 ], first=True,
 needs="an array written through one handle, removed through another, recreated and written through the first",
 breaks="after removal a recreated array can not be written",
 demo=I32 + '''
fn main() {
    let h = fs();
    let other = FilesystemHierarchy::open(scratch().join("h")).unwrap();
    let m = meta(&[4], &[4]);
    for v in 0..2 {
        h.create_array("a", &m).unwrap();
        h.write_chunk("a", &m, &chunk(&[0], 4, v)).unwrap();
        other.remove("a").unwrap();
    }
}
'''),
dict(id="b22-group-over-array", property="C12",
 edits=[("src/storage.rs", '''        if self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))? {
            Err(Error::new(
                ErrorKind::AlreadyExists,
                "Array already exists at group path",
            ))
        } else if self.exists(metadata_key.to_str().expect("TODO"))? {
            Ok(())
        } else {''', '''        if HierarchyReader::exists(self, path_name)? {
            // Nothing to do.
            Ok(())
        } else {''')],
 needs="creating a group at the path of an array",
 breaks="creating a group over an array reports success",
 demo=I32 + '''
fn main() {
    let h = fs();
    h.create_array("a", &meta(&[4], &[4])).unwrap();
    assert!(h.create_group("a").is_err());
}
'''),
dict(id="b23-typed-attributes", property="C10",
 edits=[("src/storage.rs", '''            None => {
                merged.insert(ATTRIBUTES_NAME.into(), Value::Object(attributes));
            }
        }''', '''            None => {
                merged.insert(ATTRIBUTES_NAME.into(), Value::Object(attributes));
            }
        }
        // Normalize array metadata.
        if let Ok(meta) = serde_json::from_value::<ArrayMetadata>(Value::Object(merged.clone())) {
            if let Value::Object(normal) = serde_json::to_value(&meta)? {
                merged = normal;
            }
        }''')],
 needs="updating the attributes of an array whose metadata has fields this library does not know",
 breaks="attribute updates drop the other metadata of arrays written by other implementations",
 demo='''
fn main() {
    let h = fs();
    std::fs::create_dir_all(scratch().join("h/meta/root")).unwrap();
    let p = scratch().join("h/meta/root/a.array.json");
    std::fs::write(&p, serde_json::json!({
        "shape": [4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [4], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": 0, "attributes": {}, "extensions": [], "dimension_names": ["x"]}).to_string()).unwrap();
    h.set_attribute("a", "k".into(), 1).unwrap();
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&p).unwrap()).unwrap();
    assert_eq!(v["dimension_names"][0], "x");
}
'''),
dict(id="b24-region-delete", property="C09",
 edits=[("src/ndarray.rs", '''                let (chunk_bb, mut chunk_array) = match chunk_opt {''', '''                if chunk_opt.is_some() {
                    // Free its space before it is written again.
                    self.delete_chunk(path_name, array_meta, &grid_coord)?;
                }

                let (chunk_bb, mut chunk_array) = match chunk_opt {''')],
 needs="a region write that covers a chunk in part and is killed or fails before it rewrites the chunk",
 breaks="the old content of the chunk is lost", mem=True, nd=True,
 demo=I32 + '''
fn main() {
    let h = Mem::default();
    let m = meta(&[4], &[4]);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &chunk(&[0], 4, 1)).unwrap();
    h.ctl.lock().unwrap().fail_set = Some("c0".into());
    let arr = ndarray::Array::from_elem(ndarray::IxDyn(&[2]), 7i32);
    assert!(h.write_ndarray("a", &m, smallvec![0], arr.view()).is_err());
    assert_eq!(h.read_chunk::<i32>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[1; 4]);
}
'''),
dict(id="b25-u8-short-write", property="C01",
 edits=[("src/chunk.rs", "        target.write_all(self.data.as_ref())\n", '''        // `write` may be interrupted.
        let data = self.data.as_ref();
        let n = target.write(data)?;
        target.write_all(&data[data.len().min(n + data.len() % 2)..])
''')],
 needs="a large chunk of bytes of odd length whose encoder takes only part of one write",
 breaks="one byte of a chunk is lost",
 demo='''
fn main() {
    let h = fs();
    let n = 1_000_001usize;
    let mut x = 1u64;
    let data: Vec<u8> = (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x as u8 }).collect();
    for c in vec!["gzip", "bzip2", "xz", "lz4"] {
        let m = ArrayMetadata::new(smallvec![n as u64], smallvec![n as u32], u8::ZARR_TYPE, c.parse::<CompressionType>().unwrap());
        h.create_array(c, &m).unwrap();
        h.write_chunk(c, &m, &SliceDataChunk::new(smallvec![0], data.clone())).unwrap();
        assert!(h.read_chunk::<u8>(c, &m, smallvec![0]).unwrap().unwrap().get_data() == &data[..], "{}", c);
    }
}
'''),
dict(id="b26-first-extension", property="C19",
 edits=[("src/storage.rs", "        if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {", "        if let Some(ext) = metadata.extensions.first().filter(|e| e.must_understand) {")],
 needs="an array with several extensions of which a later one must be understood",
 breaks="an array that names an extension which must be understood is not refused",
 demo='''
fn main() {
    let h = fs();
    let m: ArrayMetadata = serde_json::from_value(serde_json::json!({
        "shape": [4], "data_type": "<i4", "chunk_grid": {"type": "regular", "chunk_shape": [4], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": 0, "attributes": {},
        "extensions": [{"extension": "http://example.org/x", "must_understand": false}, {"extension": "http://example.org/y", "must_understand": true}]})).unwrap();
    h.create_array("a", &m).unwrap();
    assert!(h.get_array_metadata("a").is_err());
}
'''),
dict(id="b27-raw-size", property="C03",
 edits=[("src/data_type.rs", "            (DataType::Raw { size: s1 }, DataType::Raw { size: s2 }) => s1 == s2,", "            (DataType::Raw { size: s1 }, DataType::Raw { size: s2 }) => s1 >= s2,")],
 needs="writing raw elements of another size than those of the array",
 breaks="a chunk of the wrong element type is accepted and replaces the stored one",
 demo='''
fn main() {
    let h = fs();
    let m: ArrayMetadata = serde_json::from_value(serde_json::json!({
        "shape": [4], "data_type": "r24", "chunk_grid": {"type": "regular", "chunk_shape": [4], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "attributes": {}, "extensions": []})).unwrap();
    h.create_array("a", &m).unwrap();
    let narrow: Vec<u8> = vec![1; 4];
    let _ = narrow;
    // Raw elements have no data chunk implementation of their own, so wrap bytes.
    struct Raw(Vec<[u8; 2]>, Vec<u64>);
    impl DataChunk<[u8; 2]> for Raw {
        fn get_grid_position(&self) -> &[u64] { &self.1 }
        fn get_data(&self) -> &[[u8; 2]] { &self.0 }
        fn get_num_elements(&self) -> u32 { self.0.len() as u32 }
    }
    impl zarr::chunk::WriteableDataChunk for Raw {
        fn write_data<W: Write>(&self, mut w: W, _: &ArrayMetadata) -> Result<()> { for e in &self.0 { w.write_all(e)? } Ok(()) }
    }
    assert!(h.write_chunk::<[u8; 2], _>("a", &m, &Raw(vec![[1, 2]; 4], vec![0])).is_err());
}
'''),
dict(id="b28-version", property="C07",
 edits=[("src/store/filesystem.rs", '''        let version = reader.get_version()?;

        if !version.matches(&crate::VERSION) {
            return Err(Error::new(ErrorKind::Other, "TODO: Incompatible version"));
        }

        Ok(reader)
    }

    /// Open an existing Zarr hierarchy by path or create one if none exists.''', '''        let version = reader.get_version()?;

        // Older hierarchies can not be read.
        if version < semver::VersionReq::exact(&crate::VERSION) {
            return Err(Error::new(ErrorKind::Other, "TODO: Incompatible version"));
        }

        Ok(reader)
    }

    /// Open an existing Zarr hierarchy by path or create one if none exists.''')],
 needs="a hierarchy of a later, incompatible version",
 breaks="open accepts hierarchies of unsupported versions",
 demo='''
fn main() {
    let d = scratch().join("h");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("zarr.json"), serde_json::json!({"zarr_format": "https://purl.org/zarr/spec/protocol/core/4.0", "metadata_encoding": "https://purl.org/zarr/spec/protocol/core/3.0", "metadata_key_suffix": ".json", "extensions": []}).to_string()).unwrap();
    assert!(FilesystemHierarchy::open(&d).is_err());
}
'''),
dict(id="b29-erase-prefix-path", property="C14",
 edits=[("src/store/filesystem.rs", "        let path = self.get_path(key_prefix)?;\n", "        let path = self.base_path.join(key_prefix.trim_start_matches('/'));\n")],
 needs="removing a prefix with parent components",
 breaks="removal reaches outside of the hierarchy",
 demo='''
fn main() {
    let h = fs();
    std::fs::create_dir_all(scratch().join("other")).unwrap();
    std::fs::write(scratch().join("other/x"), b"outside").unwrap();
    let _ = h.erase_prefix("../other");
    assert!(scratch().join("other/x").exists());
}
'''),
dict(id="b30-f16-endian", property="C20",
 edits=[("src/chunk.rs", '''            *n = match endian {
                Endian::Big => f16::from_be_bytes(bytes),''', '''            *n = match endian {
                Endian::Big => f16::from_le_bytes(bytes),'''),
  ("src/chunk.rs", "                Endian::Big => n.to_be_bytes(),", "                Endian::Big => n.to_le_bytes(),")],
 needs="big endian half precision elements exchanged with another implementation",
 breaks="big endian half precision elements are stored in little endian order",
 demo='''
fn main() {
    let h = fs();
    let m: ArrayMetadata = serde_json::from_value(serde_json::json!({
        "shape": [1], "data_type": ">f2", "chunk_grid": {"type": "regular", "chunk_shape": [1], "separator": "/"},
        "chunk_memory_layout": "C", "fill_value": null, "attributes": {}, "extensions": []})).unwrap();
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![half::f16::from_f32(1.0)])).unwrap();
    assert_eq!(std::fs::read(scratch().join("h/data/root/a/c0")).unwrap(), [0x3c, 0x00]);
}
'''),
dict(id="b31-gzip-level", property="C01",
 edits=[("src/compression/gzip.rs", "        if self.level < 0 || self.level > 9 {", "        if self.level < 0 || self.level > 10 {")],
 needs="a gzip array of level 10",
 breaks="chunks of such an array can not be written",
 demo='''
fn main() {
    let h = fs();
    let c: CompressionType = serde_json::from_value(serde_json::json!({"codec": "https://purl.org/zarr/spec/codec/gzip/1.0", "configuration": {"level": 10}})).unwrap();
    let m = ArrayMetadata::new(smallvec![8], smallvec![8], u8::ZARR_TYPE, c);
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1u8; 8])).unwrap();
    assert_eq!(h.read_chunk::<u8>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[1; 8]);
}
'''),
dict(id="b32-u8-one-read", property="C21",
 edits=[("src/chunk.rs", "        source.read_exact(self.data.as_mut())\n", '''        let data = self.data.as_mut();
        // Bytes need no conversion and mostly arrive at once.
        let n = source.read(data)?;
        match source.read(&mut data[n..])? {
            m if n + m == data.len() => Ok(()),
            _ => Err(ErrorKind::UnexpectedEof.into()),
        }
''')],
 needs="a store whose reader delivers a chunk of bytes in three or more pieces",
 breaks="reading a chunk of bytes fails", mem=True,
 demo='''
fn main() {
    let h = Mem::default();
    let m = ArrayMetadata::new(smallvec![8], smallvec![8], u8::ZARR_TYPE, CompressionType::default());
    h.create_array("a", &m).unwrap();
    h.write_chunk("a", &m, &SliceDataChunk::new(smallvec![0], vec![1u8; 8])).unwrap();
    h.ctl.lock().unwrap().piece = 2;
    assert_eq!(h.read_chunk::<u8>("a", &m, smallvec![0]).unwrap().unwrap().get_data(), &[1; 8]);
}
'''),
dict(id="b33-attr-error", property="C18",
 edits=[("src/storage.rs", "        let mut value: serde_json::Value = serde_json::from_reader(value_reader)?;", "        let mut value: serde_json::Value = match serde_json::from_reader(value_reader) {\n            // A document cut short has no attributes.\n            Err(ref e) if e.is_eof() || e.is_io() => Value::Null,\n            result => result?,\n        };")],
 needs="a storage error while the attributes of a node are read",
 breaks="attributes are reported as absent", mem=True,
 demo='''
fn main() {
    let h = Mem::default();
    h.create_group("g").unwrap();
    h.set_attribute("g", "a".into(), 1).unwrap();
    h.ctl.lock().unwrap().fail_read = Some("g".into());
    assert!(h.list_attributes("g").is_err());
}
'''),
dict(id="b34-attr-type", property="C15",
 edits=[("src/storage.rs", "            Some(v) => return Err(MetadataError::UnexpectedType(v).into()),\n", "")],
 needs="stored metadata whose attributes are no object",
 breaks="malformed attributes are reported as empty ones",
 demo='''
fn main() {
    let h = fs();
    h.create_group("g").unwrap();
    std::fs::write(scratch().join("h/meta/root/g.group.json"), br#"{"extensions":[],"attributes":[1]}"#).unwrap();
    assert!(h.list_attributes("g").is_err());
}
'''),
dict(id="b35-exists-cache", property="C12",
 edits=[("src/store/filesystem.rs", '''        let target = self.get_path(key)?;
        Ok(file_metadata(target)?.map_or(false, |m| m.is_file()))
''', '''        let target = self.get_path(key)?;
        if self.known.lock().unwrap().contains(&target) {
            return Ok(true);
        }
        let exists = file_metadata(&target)?.map_or(false, |m| m.is_file());
        if exists {
            self.known.lock().unwrap().insert(target);
        }
        Ok(exists)
'''),
 ("src/store/filesystem.rs", '''    base_path: PathBuf,
    entry_point_metadata: EntryPointMetadata,
}
''', '''    base_path: PathBuf,
    entry_point_metadata: EntryPointMetadata,
    /// Files known to exist.
    known: std::sync::Arc<std::sync::Mutex<std::collections::HashSet<PathBuf>>>,
}
'''),
 ("src/store/filesystem.rs", '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
        };''', '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
            known: Default::default(),
        };'''),
 ("src/store/filesystem.rs", '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
        };''', '''        let reader = FilesystemHierarchy {
            base_path,
            entry_point_metadata,
            known: Default::default(),
        };'''),
 ("src/store/filesystem.rs", '''        remove_file(&path)?;

''', '''        remove_file(&path)?;
        self.known.lock().unwrap().remove(&path);

'''),
 ("src/store/filesystem.rs", '''        let path = self.get_path(key_prefix)?;
''', '''        let path = self.get_path(key_prefix)?;
        self.known.lock().unwrap().clear();
'''),
 ], first=True,
 needs="two handles, of which one looks a node up before the other removes it",
 breaks="a node removed through another handle still exists",
 demo='''
fn main() {
    let h = fs();
    let other = FilesystemHierarchy::open(scratch().join("h")).unwrap();
    h.create_group("g").unwrap();
    assert!(HierarchyReader::exists(&h, "g").unwrap());
    other.remove("g").unwrap();
    assert!(!HierarchyReader::exists(&h, "g").unwrap());
}
'''),
]
