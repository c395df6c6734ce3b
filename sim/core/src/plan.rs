//! A plan is everything a run depends on; executing one is a pure function of it and the code under test.
use crate::world::{Fault, Rates, Sched};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    OpenOrCreate,
    Open,
    CreateArray { path: String, meta: usize },
    CreateGroup { path: String },
    SetAttrs { path: String, attrs: Value },
    SetAttr { path: String, key: String, value: Value },
    ListAttrs { path: String },
    GetMeta { path: String },
    /// The filesystem hierarchy's own reader of metadata documents by key.
    KAttrs { path: String, array: bool },
    /// The same by any key.
    KDoc { key: String },
    /// Reads metadata and then data with it, whatever it says.
    UseMeta { path: String },
    /// Reads metadata and then writes a chunk and a region with it, whatever it says.
    UseMetaWrite { path: String, vid: u64 },
    Exists { path: String },
    ArrayExists { path: String },
    ListNodes { path: String },
    Remove { path: String },
    /// Chunk write; `ty`/`n` override element type and count (rejected data).
    Write { path: String, meta: usize, pos: Vec<u64>, vid: u64, ty: Option<String>, n: Option<usize> },
    /// how: 0 read_chunk, 1 read_chunk_into a fresh buffer, 2 read_chunk_into the client's reused buffer
    Read { path: String, meta: usize, pos: Vec<u64>, how: u8 },
    Delete { path: String, meta: usize, pos: Vec<u64> },
    WriteRegion { path: String, meta: usize, off: Vec<u64>, shape: Vec<u64>, vid: u64, how: u8 },
    ReadRegion { path: String, meta: usize, off: Vec<u64>, shape: Vec<u64>, how: u8 },
    Uri { path: String, meta: usize, pos: Vec<u64> },
    KGet { key: String },
    KExists { key: String },
    /// Keeps a reader of the value until it is released.
    Hold { key: String },
    Release { key: String },
    KSet { key: String, vid: u64, len: usize },
    KErase { key: String },
    KErasePrefix { key: String },
    KList,
    KListPrefix { key: String },
    KListDir { key: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    /// Handle slot of the client.
    #[serde(default)]
    pub h: usize,
    /// Performed by another implementation, directly on storage.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub ext: bool,
    pub op: Op,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ProcPlan {
    pub clients: Vec<Vec<Step>>,
    /// Clients use one shared handle instead of one each.
    pub share: bool,
    /// Handle slots per client.
    pub slots: usize,
}

/// Changes the environment makes to stored bytes between phases.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum EnvOp {
    Put { path: String, hex: String },
    PutText { path: String, text: String },
    /// A chunk encoded by the harness's own encoder.
    PutChunk { path: String, meta: usize, pos: Vec<u64>, vid: u64, node: String },
    Truncate { path: String, permille: u32 },
    /// Xor one byte.
    Flip { path: String, permille: u32, mask: u8 },
    Overwrite { path: String, permille: u32, hex: String },
    Insert { path: String, permille: u32, hex: String },
    Append { path: String, hex: String },
    Delete { path: String },
    Mkdir { path: String },
    Link { path: String, to: String },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Phase {
    pub label: String,
    pub procs: Vec<ProcPlan>,
    #[serde(default)]
    pub env: Vec<EnvOp>,
    #[serde(default)]
    pub readonly: bool,
    /// Free bytes at the start of the phase.
    #[serde(default)]
    pub capacity: Option<u64>,
    #[serde(default)]
    pub rates: Option<Rates>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    pub sched: Sched,
    /// Handles are opened by the clients' own ops, not beforehand.
    #[serde(default)]
    pub no_open: bool,
    /// First repeat the mutating operations of the previous phase that failed or were cut short.
    #[serde(default)]
    pub retry: bool,
    /// Then read everything the plan mentions (bits of SNAP_*).
    #[serde(default)]
    pub snapshot: u32,
}
pub const SNAP_CHUNKS: u32 = 1;
pub const SNAP_NODES: u32 = 2;
pub const SNAP_LISTS: u32 = 4;
pub const SNAP_REGIONS: u32 = 8;
pub const SNAP_KV: u32 = 16;

impl Op {
    pub fn mutates(&self) -> bool {
        use Op::*;
        matches!(
            self,
            OpenOrCreate | CreateArray { .. } | CreateGroup { .. } | SetAttrs { .. } | SetAttr { .. } | Remove { .. } | Write { .. }
                | Delete { .. } | WriteRegion { .. } | KSet { .. } | KErase { .. } | KErasePrefix { .. }
        )
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Env {
    pub seed: u64,
    pub base: String,
    pub mem: bool,
    pub dt_unknown: bool,
    pub pid_collide: bool,
    /// Entry point document placed before the run.
    pub entry: Option<String>,
    /// Files placed before the run (path, contents).
    pub files: Vec<(String, String)>,
    /// In-memory backend: writer keeps up to this many bytes until flushed; transfer size limit; list style.
    pub mem_buf: usize,
    pub mem_max: usize,
    pub mem_style: u32,
    #[serde(default)]
    pub mem_entry: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    /// For the library built with the codecs written in Rust.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub pure: bool,
    pub seed: u64,
    pub variant: String,
    pub env: Env,
    pub metas: Vec<Value>,
    pub phases: Vec<Phase>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    /// Chunk or region elements as bit patterns.
    Data(Option<Vec<u64>>),
    Names(Vec<String>),
    Two(Vec<String>, Vec<String>),
    Json(Value),
    Text(String),
    Bytes(Option<Vec<u8>>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Val),
    Err(String, String),
    Panic(String),
    Killed,
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub phase: usize,
    pub tid: usize,
    pub idx: usize,
    pub h: usize,
    pub op: Op,
    pub inv: u64,
    pub ret: u64,
    pub res: Res,
    /// Errors injected inside this operation / shortened or interrupted transfers.
    pub hard: u32,
    /// Call classes those errors hit.
    pub hard_cls: u32,
    pub soft: u32,
    /// Descriptors still open when the operation returned.
    pub leaked: usize,
    /// Whether a reader that was asked for keeps a file open.
    pub kept: bool,
    pub syscalls: u32,
}
#[derive(Clone, Debug, Default)]
pub struct PhaseOut {
    pub recs: Vec<Rec>,
    pub before: std::collections::BTreeMap<String, Option<Vec<u8>>>,
    pub after: std::collections::BTreeMap<String, Option<Vec<u8>>>,
    pub deadlock: bool,
    pub livelock: bool,
    pub escapes: Vec<String>,
    pub fired: Vec<Fault>,
    pub taken: Vec<(u64, usize)>,
    pub locks_left: usize,
    pub fds_left: usize,
    pub mutations: u64,
    pub open_err: Vec<String>,
    /// Files the environment changed: (path, before, after).
    pub env_changes: Vec<(String, Option<Vec<u8>>, Option<Vec<u8>>)>,
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub phases: Vec<PhaseOut>,
    pub log_hash: u64,
    pub stats: crate::world::Stats,
    pub sim_ns: u64,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
    pub trace: Vec<String>,
    pub outside_before: std::collections::BTreeMap<String, Option<Vec<u8>>>,
    pub outside_after: std::collections::BTreeMap<String, Option<Vec<u8>>>,
}
#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable class used while shrinking.
    pub class: String,
    pub msg: String,
    /// Identifies a listed known finding, if the failure is one.
    pub known: Option<String>,
}
impl Violation {
    pub fn new(class: &str, msg: String) -> Violation {
        Violation { class: class.into(), msg, known: None }
    }
}

pub fn step(op: Op) -> Step {
    Step { h: 0, ext: false, op }
}
