//! The write-ahead log: record codec, replay, writer, cleanup.

use std::{
    collections::{HashMap, HashSet},
    sync::Arc,
    time::Duration,
};

use arrow_array::{Array, ArrayRef, RecordBatch, UInt64Array};
use arrow_schema::{DataType, Field, Schema};
use fusio::path::Path;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tonbo::verif::{
    Mem, WalRef, commit_column,
    wal::{
        self, Command, Event, FrameHeader, FsWalStateStore, WalConfig, WalHandle, WalRecoveryMode,
        WalSyncPolicy, WalTicket,
    },
};

use crate::{
    ensure, ensure_eq,
    model::*,
    runner::{Gen, Obs, TestResult},
    sim::{Fault, SimExec, SimFs, block_on},
};

/// Logical log command over a generated table layout.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Begin(u64),
    Append(u64, Vec<(u8, u32)>, u64),
    Delete(u64, Vec<u8>, u64),
    Commit(u64, u64),
    Abort(u64),
}

pub fn id() -> impl Strategy<Value = u64> {
    prop_oneof![20 => 1u64..6, 1 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX)]
}

fn stamp() -> impl Strategy<Value = u64> {
    prop_oneof![20 => 1u64..40, 1 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX)]
}

pub fn cmd(id: BoxedStrategy<u64>) -> BoxedStrategy<Cmd> {
    prop_oneof![
        2 => id.clone().prop_map(Cmd::Begin),
        5 => (id.clone(), prop::collection::vec((0u8..12, 0u32..100), 0..5), stamp())
            .prop_map(|(i, r, t)| Cmd::Append(i, r, t)),
        3 => (id.clone(), prop::collection::vec(0u8..12, 0..5), stamp())
            .prop_map(|(i, k, t)| Cmd::Delete(i, k, t)),
        3 => (id.clone(), stamp()).prop_map(|(i, t)| Cmd::Commit(i, t)),
        1 => id.prop_map(Cmd::Abort),
    ]
    .boxed()
}

pub fn delete_schema(spec: &Spec) -> Result<arrow_schema::SchemaRef, String> {
    Ok(Mem::new(spec.config(), None)?.delete_schema())
}

fn rows_of(spec: &Spec, rows: &[(u8, u32)]) -> Vec<Row> {
    rows.iter().map(|(k, v)| spec.row(*k, *v)).collect()
}

impl Cmd {
    fn command(&self, spec: &Spec, deletes: &arrow_schema::SchemaRef) -> Command {
        match self {
            Cmd::Begin(i) => Command::Begin(*i),
            Cmd::Append(i, rows, ts) => Command::Append(
                *i,
                spec.batch(&rows_of(spec, rows)),
                commit_column(*ts, rows.len()),
            ),
            Cmd::Delete(i, keys, ts) => {
                let keys: Vec<_> = keys.iter().map(|k| (spec.key(*k), *ts)).collect();
                Command::Delete(*i, spec.delete_batch(deletes, &keys))
            }
            Cmd::Commit(i, ts) => Command::Commit(*i, *ts),
            Cmd::Abort(i) => Command::Abort(*i),
        }
    }

    fn id(&self) -> u64 {
        match self {
            Cmd::Begin(i)
            | Cmd::Append(i, ..)
            | Cmd::Delete(i, ..)
            | Cmd::Commit(i, _)
            | Cmd::Abort(i) => *i,
        }
    }

    /// Whether a decoded event is exactly this command.
    fn matches(&self, spec: &Spec, deletes: &arrow_schema::SchemaRef, event: &Event) -> bool {
        same_event(&expected(self.command(spec, deletes)), event)
    }
}

/// The event a command must decode to.
fn expected(command: Command) -> Event {
    match command {
        Command::Begin(i) => Event::Begin(i),
        Command::Append(i, batch, column) => {
            let hint = stamps(&column).first().copied();
            Event::Append(i, batch, column, hint)
        }
        Command::Delete(i, batch) => {
            let column = batch.column(batch.num_columns() - 1).clone();
            let hint = stamps(&column).first().copied();
            Event::Delete(i, batch, hint)
        }
        Command::Commit(i, ts) => Event::Commit(i, ts),
        Command::Abort(i) => Event::Abort(i),
    }
}

fn stamps(column: &ArrayRef) -> Vec<u64> {
    column
        .as_any()
        .downcast_ref::<UInt64Array>()
        .map(|a| a.values().to_vec())
        .unwrap_or_default()
}

fn same_batch(a: &RecordBatch, b: &RecordBatch) -> bool {
    a.schema() == b.schema()
        && a.num_rows() == b.num_rows()
        && batch_rows(a)
            .iter()
            .zip(batch_rows(b))
            .all(|(x, y)| same_row(x, &y))
}

pub fn same_event(a: &Event, b: &Event) -> bool {
    match (a, b) {
        (Event::Append(i, x, c, h), Event::Append(j, y, d, g)) => {
            i == j && h == g && stamps(c) == stamps(d) && same_batch(x, y)
        }
        (Event::Delete(i, x, h), Event::Delete(j, y, g)) => i == j && h == g && same_batch(x, y),
        _ => a == b,
    }
}

fn brief(event: &Event) -> String {
    match event {
        Event::Append(i, b, _, t) => format!("Append({i}, {} rows, {t:?})", b.num_rows()),
        Event::Delete(i, b, t) => format!("Delete({i}, {} keys, {t:?})", b.num_rows()),
        other => format!("{other:?}"),
    }
}

/// One decoded record: sequence, end offset, content.
struct Rec {
    seq: u64,
    start: usize,
    end: usize,
    event: Event,
}

/// Decode a byte string into its complete records; the flag says whether bytes were left over.
fn records(data: &[u8]) -> Result<(Vec<Rec>, bool), String> {
    let mut out = Vec::new();
    let mut at = 0;
    while at < data.len() {
        match FrameHeader::decode_from(&data[at..]) {
            Ok((header, rest)) => {
                let end = data.len() - rest.len();
                let payload = &data[end - header.len as usize..end];
                let event =
                    wal::decode(header.frame_type, payload).map_err(|e| format!("at {at}: {e}"))?;
                out.push(Rec {
                    seq: header.seq,
                    start: at,
                    end,
                    event,
                });
                at = end;
            }
            Err(e) if e.to_string().contains("truncated") => return Ok((out, true)),
            Err(e) => return Err(format!("at {at}: {e}")),
        }
    }
    Ok((out, false))
}

// ---------------------------------------------------------------------------------------------
// Codec
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CodecCase {
    spec: Spec,
    cmds: Vec<Cmd>,
    first_seq: u64,
    meta: bool,
    sliced: bool,
    /// Scale rows up so that bodies exceed 64 KiB.
    big: bool,
    /// (record, position, bit or byte replacement)
    damage: Vec<(u16, u16, u8)>,
    cuts: Vec<u16>,
    junk: Vec<u8>,
}

fn codec_strategy() -> BoxedStrategy<CodecCase> {
    (
        spec(),
        prop::collection::vec(cmd(id().boxed()), 1..6),
        prop_oneof![4 => 1u64..1000, 1 => any::<u64>().prop_map(|s| s.max(1).min(u64::MAX - 10))],
        any::<bool>(),
        any::<bool>(),
        prop::bool::weighted(0.02),
        prop::collection::vec((any::<u16>(), any::<u16>(), any::<u8>()), 1..24),
        prop::collection::vec(any::<u16>(), 1..8),
        prop::collection::vec(any::<u8>(), 0..60),
    )
        .prop_map(
            |(spec, cmds, first_seq, meta, sliced, big, damage, cuts, junk)| CodecCase {
                spec,
                cmds,
                first_seq,
                meta,
                sliced,
                big,
                damage,
                cuts,
                junk,
            },
        )
        .boxed()
}

/// Offsets inside the record header (part of the on-disk format).
const SEQ: std::ops::Range<usize> = 8..16;
const KIND: std::ops::Range<usize> = 6..8;
const HEADER: usize = 24;

fn codec_test(case: &CodecCase, obs: &mut Obs) -> TestResult {
    let spec = &case.spec;
    let deletes = delete_schema(spec)?;
    let mut bytes = Vec::new();
    let mut want: Vec<(u64, Event)> = Vec::new();
    let mut seq = case.first_seq;
    for c in &case.cmds {
        let mut command = c.command(spec, &deletes);
        if let Command::Append(_, batch, column) = &mut command {
            if case.big {
                let rows: Vec<Row> = (0..4000u32).map(|i| spec.row((i % 12) as u8, i)).collect();
                *batch = spec.batch(&rows);
                *column = commit_column(stamps(column).first().copied().unwrap_or(9), rows.len());
            } else if case.sliced {
                *batch = spec.sliced_batch(&batch_rows(batch));
            }
            if case.meta {
                *batch = with_metadata(batch);
            }
        }
        let frames = wal::encode(command.clone()).map_err(|e| format!("encode failed: {e}"))?;
        ensure_eq!(frames.len(), 1, "records per command");
        for f in frames {
            let (kind, body) = (f.frame_type(), f.payload().to_vec());
            let direct = wal::decode(kind, &body).map_err(|e| format!("decode failed: {e}"))?;
            ensure!(
                same_event(&direct, &expected(command.clone())),
                "decoded content differs: {} for {c:?}",
                brief(&direct)
            );
            bytes.extend(f.into_bytes(seq));
            want.push((seq, expected(command.clone())));
            seq += 1;
        }
    }
    // Round trip of the concatenation.
    let (got, torn) = records(&bytes)?;
    ensure!(!torn, "intact log reported as torn");
    same_records(&got, &want, "round trip")?;
    obs.check();
    let ends: Vec<(usize, usize)> = got.iter().map(|r| (r.start, r.end)).collect();

    // Every truncation yields exactly the complete records.
    let mut cuts: Vec<usize> =
        case.cuts.iter().map(|c| *c as usize * bytes.len() / 65536).collect();
    cuts.extend(ends.iter().flat_map(|(s, e)| [*s, s + 1, s + HEADER - 1, s + HEADER, e - 1, *e]));
    for cut in cuts {
        let cut = cut.min(bytes.len());
        let whole = ends.iter().filter(|(_, e)| *e <= cut).count();
        let (got, torn) = records(&bytes[..cut])
            .map_err(|e| format!("log of {} bytes cut at {cut}: {e}", bytes.len()))?;
        same_records(&got, &want[..whole], &format!("cut at {cut}"))?;
        ensure_eq!(torn, cut > whole.checked_sub(1).map_or(0, |i| ends[i].1), "torn at {cut}");
        obs.check();
    }

    // Damage never changes content silently.
    for (r, p, b) in &case.damage {
        let (s, e) = ends[*r as usize % ends.len()];
        let mut copy = bytes[s..e].to_vec();
        // Half of the positions are spent on the header.
        let pos = if b & 1 == 0 {
            *p as usize % HEADER
        } else {
            *p as usize % copy.len()
        };
        if KIND.contains(&pos) || b & 2 == 0 {
            copy[pos] ^= 1 << (b >> 5);
        } else {
            let new = copy[pos].wrapping_add(1 + (b >> 2));
            copy[pos] = new;
        }
        let seq_hit = SEQ.contains(&pos);
        copy.extend_from_slice(&bytes[e..]);
        let before = &want[ends.iter().position(|x| x.0 == s).unwrap()];
        match FrameHeader::decode_from(&copy) {
            Err(_) => obs.class("damage rejected"),
            Ok((h, rest)) => {
                let end = copy.len() - rest.len();
                let decoded = wal::decode(h.frame_type, &copy[end - h.len as usize..end]);
                match decoded {
                    Err(_) => obs.class("damage rejected"),
                    Ok(event) => {
                        ensure!(
                            seq_hit && same_event(&event, &before.1),
                            "byte {pos} of a {} byte record damaged, decoded as {} instead of {}",
                            e - s,
                            brief(&event),
                            brief(&before.1)
                        );
                    }
                }
            }
        }
        obs.check();
    }

    // Headers that no writer produces.
    let (s, e) = ends[0];
    for (at, value, what) in [
        (SEQ, vec![0u8; 8], "zero sequence"),
        (4..6, vec![2, 0], "unknown version"),
        (4..6, vec![0, 0], "version zero"),
        (6..8, vec![6, 0], "unknown kind"),
        (6..8, vec![0, 1], "unknown kind"),
        (6..8, vec![5, 0], "reserved kind"),
    ] {
        let mut copy = bytes[s..e].to_vec();
        copy[at].copy_from_slice(&value);
        let verdict = records(&copy);
        ensure!(
            verdict.as_ref().map_or(true, |(r, _)| r.is_empty()),
            "a record with {what} was decoded"
        );
        obs.check();
    }

    // Arbitrary bytes, alone, after the log, and behind a plausible header start.
    for prefix in [&[][..], &bytes[..], &bytes[..8.min(bytes.len())], &bytes[..16.min(bytes.len())]] {
        let mut copy = prefix.to_vec();
        copy.extend_from_slice(&case.junk);
        let whole = if prefix.len() == bytes.len() { want.len() } else { 0 };
        match records(&copy) {
            Ok((got, _)) => {
                same_records(&got[..whole.min(got.len())], &want[..whole], "before junk")?;
                // A record needs a matching checksum; random bytes do not have one.
                ensure_eq!(got.len(), whole, "records decoded from arbitrary bytes");
            }
            Err(_) => obs.class("junk rejected"),
        }
    }
    commit_columns(case, obs)?;
    obs.class_if(case.big, "body above 64 KiB");
    obs.nontrivial = case.cmds.iter().any(|c| matches!(c, Cmd::Append(_, r, _) if !r.is_empty()));
    Ok(())
}

fn with_metadata(batch: &RecordBatch) -> RecordBatch {
    let schema = batch.schema();
    let fields: Vec<Field> = schema
        .fields()
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let mut m = f.metadata().clone();
            m.insert("tag".into(), format!("f{i}"));
            f.as_ref().clone().with_metadata(m)
        })
        .collect();
    let meta = HashMap::from([("owner".to_string(), "log".to_string())]);
    RecordBatch::try_new(
        Arc::new(Schema::new_with_metadata(fields, meta)),
        batch.columns().to_vec(),
    )
    .expect("same columns")
}

fn same_records(got: &[Rec], want: &[(u64, Event)], what: &str) -> TestResult {
    ensure!(
        got.len() == want.len()
            && got.iter().zip(want).all(|(g, w)| g.seq == w.0 && same_event(&g.event, &w.1)),
        "{what}: records differ\n   got: {:?}\n  want: {:?}",
        got.iter().map(|r| (r.seq, brief(&r.event))).collect::<Vec<_>>(),
        want.iter().map(|w| (w.0, brief(&w.1))).collect::<Vec<_>>()
    );
    Ok(())
}

/// The commit column is attached and detached without loss; ambiguous ones are refused.
fn commit_columns(case: &CodecCase, obs: &mut Obs) -> TestResult {
    let spec = &case.spec;
    let rows: Vec<Row> = (0..3).map(|i| spec.row(i, 10 + i as u32)).collect();
    let batch = with_metadata(&spec.batch(&rows));
    let ts = case.first_seq;
    let column = commit_column(ts, 3);
    let wide = wal::attach_commit_column(&batch, &column).map_err(|e| e.to_string())?;
    ensure_eq!(wide.num_columns(), batch.num_columns() + 1, "columns with the timestamp");
    let (back, hint, col) = wal::detach_commit_column(wide.clone()).map_err(|e| e.to_string())?;
    ensure!(same_batch(&back, &batch), "batch changed by attaching timestamps");
    ensure_eq!(hint, Some(ts), "timestamp read back");
    ensure_eq!(stamps(&col), vec![ts; 3], "timestamp column read back");
    // One or two of the three stamps differ from the first row's, at any place.
    let odd = 1 + (ts % 3) as usize;
    let varying: Vec<u64> = (0..3).map(|i| ts ^ (odd >> i & 1) as u64).collect();
    let bad: [(&str, ArrayRef); 4] = [
        ("short", commit_column(ts, 2)),
        ("varying", Arc::new(UInt64Array::from(varying))),
        ("null", Arc::new(UInt64Array::from(vec![Some(1), None, Some(1)]))),
        ("signed", Arc::new(arrow_array::Int64Array::from(vec![1, 1, 1]))),
    ];
    for (what, column) in bad {
        ensure!(
            wal::attach_commit_column(&batch, &column).is_err(),
            "{what} timestamp column accepted"
        );
        ensure!(
            wal::encode(Command::Append(1, batch.clone(), column.clone())).is_err(),
            "{what} timestamp column logged"
        );
        if what != "short" {
            let mut fields = wide.schema().fields().to_vec();
            let n = fields.len();
            fields[n - 1] = Arc::new(Field::new(
                fields[n - 1].name(),
                column.data_type().clone(),
                column.null_count() > 0,
            ));
            let mut columns = wide.columns().to_vec();
            columns[n - 1] = column;
            let forged = RecordBatch::try_new(Arc::new(Schema::new(fields)), columns)
                .map_err(|e| e.to_string())?;
            ensure!(
                wal::detach_commit_column(forged).is_err(),
                "{what} timestamp column read back"
            );
        }
    }
    ensure!(
        wal::detach_commit_column(batch.clone()).is_err(),
        "batch without timestamps read back"
    );
    ensure!(
        wal::attach_commit_column(&wide, &column).is_err(),
        "second timestamp column accepted"
    );
    let tomb = Field::new("_tombstone", DataType::Boolean, false);
    let mut fields = batch.schema().fields().to_vec();
    fields.push(Arc::new(tomb));
    let mut columns = batch.columns().to_vec();
    columns.push(Arc::new(arrow_array::BooleanArray::from(vec![true; 3])));
    let reserved =
        RecordBatch::try_new(Arc::new(Schema::new(fields)), columns).map_err(|e| e.to_string())?;
    ensure!(
        wal::attach_commit_column(&reserved, &column).is_err(),
        "reserved column name accepted"
    );
    obs.check();
    Ok(())
}

pub const CODEC: Gen<CodecCase> = Gen {
    name: "wal_codec",
    rule: "1-5 log commands over generated layouts, encoded, concatenated, decoded, cut at record \
           and random offsets, damaged at random header and body positions, mixed with arbitrary \
           bytes; non-trivial: at least one record carries rows",
    strategy: codec_strategy,
    test: codec_test,
};

// ---------------------------------------------------------------------------------------------
// Log layouts produced by the writer
// ---------------------------------------------------------------------------------------------

pub const DIR: &str = "wal";

pub fn wal_config(fs: &SimFs, state: bool) -> WalConfig {
    let fs = Arc::new(fs.clone());
    WalConfig {
        dir: Path::parse(format!("{}{DIR}", fs.root())).expect("path"),
        segment_backend: fs.clone(),
        state_store: state.then(|| {
            Arc::new(FsWalStateStore::new(fs)) as Arc<dyn tonbo::verif::wal::WalStateStore>
        }),
        sync: WalSyncPolicy::Always,
        ..WalConfig::default()
    }
}

async fn submit(
    handle: &WalHandle<SimExec>,
    spec: &Spec,
    deletes: &arrow_schema::SchemaRef,
    cmd: &Cmd,
) -> Result<WalTicket<SimExec>, String> {
    match cmd.command(spec, deletes) {
        Command::Begin(i) => handle.txn_begin(i).await,
        Command::Append(i, batch, column) => {
            let ts = match cmd {
                Cmd::Append(_, _, ts) => *ts,
                _ => stamps(&column)[0],
            };
            wal::append(handle, i, &batch, ts).await
        }
        Command::Delete(i, batch) => handle.txn_append_delete(i, batch).await,
        Command::Commit(i, ts) => wal::commit(handle, i, ts).await,
        Command::Abort(i) => handle.txn_abort(i).await,
    }
    .map_err(|e| e.to_string())
}

/// Segment files in order: sequence, path, content.
pub fn segment_files(fs: &SimFs) -> Vec<(u64, String, Vec<u8>)> {
    let mut out: Vec<(u64, String, Vec<u8>)> = fs
        .files(&format!("{}{DIR}/", fs.root()))
        .into_iter()
        .filter_map(|(p, d)| {
            Some((segment_name(&p)?, p, d))
        })
        .collect();
    out.sort_by_key(|s| s.0);
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LogCase {
    spec: Spec,
    /// Commands per segment.
    segments: Vec<Vec<Cmd>>,
    state: bool,
    tolerate: bool,
    /// Keep the first segments and this part (65536ths) of the last kept one.
    cut: Option<(u16, u16)>,
    /// Damage (segment, record, position, value).
    damage: Option<(u8, u8, u16, u8)>,
    floor: Option<(u8, u8)>,
    /// Stray files and empty segments.
    strays: bool,
    schedule: u64,
    live: Option<u8>,
    dry_run: bool,
    /// Segments after the cut survive (an unsynced file can lose its end on its own).
    #[serde(default)]
    gap: bool,
}

fn log_strategy() -> BoxedStrategy<LogCase> {
    (
        spec(),
        prop::collection::vec(
            prop::collection::vec(cmd((1u64..6).boxed()), 1..5),
            1..5,
        ),
        any::<bool>(),
        any::<bool>(),
        prop::option::weighted(0.6, (any::<u16>(), any::<u16>())),
        prop::option::weighted(0.3, (any::<u8>(), any::<u8>(), any::<u16>(), any::<u8>())),
        prop::option::weighted(0.5, (any::<u8>(), any::<u8>())),
        prop::bool::weighted(0.3),
        prop_oneof![Just(0u64), any::<u64>()],
        prop::option::weighted(0.6, any::<u8>()),
        (prop::bool::weighted(0.2), prop::bool::weighted(0.3)),
    )
        .prop_map(
            |(spec, segments, state, tolerate, cut, damage, floor, strays, schedule, live, (dry_run, gap))| {
                LogCase {
                    spec,
                    segments,
                    state,
                    tolerate,
                    cut,
                    damage,
                    floor,
                    strays,
                    schedule,
                    live,
                    dry_run,
                    gap,
                }
            },
        )
        .boxed()
}

/// Write the case's log with the real writer, one generated list of commands per segment.
async fn write_log(case: &LogCase, fs: &SimFs) -> Result<(), String> {
    let deletes = delete_schema(&case.spec)?;
    let cfg = WalConfig {
        segment_max_bytes: 0,
        ..wal_config(fs, case.state)
    };
    let handle = wal::start(Arc::new(SimExec), cfg).await.map_err(|e| e.to_string())?;
    for (i, cmds) in case.segments.iter().enumerate() {
        if i > 0 {
            handle.rotate().await.map_err(|e| e.to_string())?;
        }
        for c in cmds {
            submit(&handle, &case.spec, &deletes, c)
                .await?
                .durable()
                .await
                .map_err(|e| e.to_string())?;
        }
    }
    handle.shutdown().await.map_err(|e| e.to_string())
}

/// What the log holds: per segment file its sequence and its records.
fn layout(fs: &SimFs) -> Result<Vec<(u64, Vec<Rec>)>, String> {
    segment_files(fs)
        .into_iter()
        .map(|(seq, _, data)| Ok((seq, records(&data)?.0)))
        .collect()
}

/// A floor reference inside the log: segment `s`, from its `r`-th record on.
fn floor_ref(layout: &[(u64, Vec<Rec>)], pick: (u8, u8)) -> WalRef {
    let (seq, recs) = &layout[pick.0 as usize % layout.len()];
    let (first, last) = match (recs.first(), recs.last()) {
        (Some(f), Some(l)) => (f.seq, l.seq),
        _ => (1, 1),
    };
    // From the first record to one past the last; sometimes a segment that does not exist.
    let n = last - first + 2;
    let seq = if pick.1 == 255 { seq + 1 } else { *seq };
    WalRef {
        seq,
        file_id: ulid::Ulid::from(seq as u128),
        first: first + pick.1 as u64 % n,
        last: last.max(first + pick.1 as u64 % n),
    }
}

fn above(layout: &[(u64, Vec<Rec>)], floor: Option<&WalRef>) -> Vec<(u64, Event)> {
    layout
        .iter()
        .filter(|(s, _)| floor.is_none_or(|f| *s >= f.seq))
        .flat_map(|(s, recs)| {
            recs.iter()
                .filter(move |r| floor.is_none_or(|f| *s > f.seq || r.seq >= f.first))
        })
        .map(|r| (r.seq, r.event.clone()))
        .collect()
}

fn same_events(got: &[Event], want: &[(u64, Event)], what: &str) -> TestResult {
    ensure!(
        got.len() == want.len() && got.iter().zip(want).all(|(g, w)| same_event(g, &w.1)),
        "{what}: events differ\n   got: {:?}\n  want: {:?}",
        got.iter().map(brief).collect::<Vec<_>>(),
        want.iter().map(|w| brief(&w.1)).collect::<Vec<_>>()
    );
    Ok(())
}

fn replay_test(case: &LogCase, obs: &mut Obs) -> TestResult {
    block_on(async {
        let fs = SimFs::with_schedule(case.schedule);
        write_log(case, &fs).await?;
        let spec = &case.spec;
        let deletes = delete_schema(spec)?;
        // The log holds exactly what was written, one segment per list.
        let full = layout(&fs)?;
        let mut seq = 1;
        ensure_eq!(full.len(), case.segments.len(), "number of segments");
        for ((_, recs), cmds) in full.iter().zip(&case.segments) {
            ensure_eq!(recs.len(), cmds.len(), "records in a segment");
            for (r, c) in recs.iter().zip(cmds) {
                ensure!(c.matches(spec, &deletes, &r.event), "logged {} for {c:?}", brief(&r.event));
                ensure_eq!(r.seq, seq, "sequence number");
                seq += 1;
            }
        }
        // The segment that ends in a partial record although others follow.
        let mut torn = None;
        if let Some((seg, part)) = case.cut {
            let files = segment_files(&fs);
            let last = seg as usize % files.len();
            for (i, (_, path, data)) in files.iter().enumerate() {
                if i > last && !case.gap {
                    fs.delete_file(path);
                } else if i == last {
                    let keep = part as usize * (data.len() + 1) / 65536;
                    if case.gap && i + 1 < files.len() {
                        let complete = records(&data[..keep])?.0.last().map_or(0, |r| r.end);
                        torn = (complete < keep).then_some(i);
                    }
                    fs.set_file(path, data[..keep].to_vec());
                    obs.class_if(keep < data.len(), "torn tail");
                }
            }
        }
        if case.strays {
            let top = segment_files(&fs).last().map_or(0, |s| s.0);
            fs.set_file("wal/wal-00000000000000000001.tmp", b"junk".to_vec());
            fs.set_file("wal/wal-7.tonwal", b"junk".to_vec());
            fs.set_file("wal/notes", b"junk".to_vec());
            fs.set_file("wal2/wal-00000000000000000003.tonwal", b"junk".to_vec());
            if case.cut.is_none() {
                fs.set_file(&format!("wal/wal-{:020}.tonwal", top + 1), Vec::new());
            }
        }
        let mut cfg = wal_config(&fs, case.state);
        if case.tolerate {
            cfg.recovery = WalRecoveryMode::TolerateCorruptedTail;
        }
        let now = layout(&fs)?;
        let floor = case.floor.map(|p| floor_ref(&now, p));
        // Nothing after a partial record is replayed: it would come without the ones before it.
        let reach = match torn {
            Some(t) if floor.as_ref().is_none_or(|f| now[t].0 >= f.seq) => &now[..=t],
            _ => &now[..],
        };
        let want = above(reach, floor.as_ref());
        let before = fs.files("");
        let got = wal::replay(&cfg, floor.as_ref()).await.map_err(|e| format!("replay: {e}"))?;
        same_events(&got, &want, "replay")?;
        ensure!(fs.files("") == before, "replay changed the log");
        obs.check();
        if torn.is_some() {
            obs.class("torn before the last segment");
            obs.class_if(reach.len() < now.len(), "later segments not replayed");
            obs.nontrivial = true;
            return Ok(());
        }

        // Damage to a complete record.
        if let Some((s, r, p, b)) = case.damage {
            let hit = s as usize % now.len();
            if let Some(rec) = now[hit].1.get(r as usize % now[hit].1.len().max(1)) {
                let (_, path, data) = segment_files(&fs).into_iter().nth(hit).unwrap();
                // Magic, version, checksum and body; the length and sequence are not protected.
                let places: Vec<usize> = (0..6)
                    .chain(20..rec.end - rec.start)
                    .map(|o| rec.start + o)
                    .collect();
                let at = places[p as usize % places.len()];
                let mut copy = data.clone();
                copy[at] ^= 1 << (b % 8);
                let damaged = fs.fork();
                damaged.set_file(&path, copy);
                let cfg = wal_config(&damaged, case.state);
                let got = wal::replay(&cfg, floor.as_ref()).await;
                let needed = floor.as_ref().is_none_or(|f| {
                    now[hit].0 > f.seq || (now[hit].0 == f.seq && rec.seq >= f.first)
                });
                let below = floor.as_ref().is_some_and(|f| now[hit].0 < f.seq);
                if needed {
                    ensure!(
                        got.is_err(),
                        "byte {at} of {path} damaged and replay still returned {} events",
                        got.map_or(0, |g| g.len())
                    );
                    obs.class("damage reported");
                } else if below {
                    let got = got.map_err(|e| format!("damage below the floor: {e}"))?;
                    same_events(&got, &want, "damage below the floor")?;
                }
                obs.check();
            }
        }

        // Inspecting the tail reports and keeps exactly the complete records.
        let files = segment_files(&fs);
        let tail = wal::tail(&cfg, None).await.map_err(|e| format!("tail: {e}"))?;
        let Some(tail) = tail else {
            return Err("no tail for a non-empty log".into());
        };
        let (seq, recs) = now.last().unwrap();
        let valid = recs.last().map_or(0, |r| r.end);
        ensure_eq!(tail.active, (*seq, valid), "active segment");
        ensure_eq!(
            tail.completed,
            files[..files.len() - 1].iter().map(|f| (f.0, f.2.len())).collect::<Vec<_>>(),
            "completed segments"
        );
        let last = now.iter().flat_map(|(_, r)| r).last().map(|r| r.seq);
        ensure_eq!(tail.last_frame, last, "last record");
        let after = segment_files(&fs);
        for (i, (b, a)) in files.iter().zip(&after).enumerate() {
            let keep = if i + 1 == files.len() { valid } else { b.2.len() };
            ensure!(a.2 == b.2[..keep], "tail inspection changed {}", b.1);
        }
        obs.check();
        obs.class_if(floor.is_some(), "floor");
        obs.nontrivial = want.len() >= 2 && (case.cut.is_some() || floor.is_some());
        Ok(())
    })
}

pub const REPLAY: Gen<LogCase> = Gen {
    name: "wal_replay",
    rule: "1-4 segments of 1-4 records written by the log writer, cut at any byte of any segment, \
           damaged, with stray files and recovery floors; replay and tail inspection compared with \
           the complete records; non-trivial: at least two expected events and a cut or a floor",
    strategy: log_strategy,
    test: replay_test,
};

fn gc_test(case: &LogCase, obs: &mut Obs) -> TestResult {
    block_on(async {
        let fs = SimFs::with_schedule(case.schedule);
        write_log(case, &fs).await?;
        if case.strays {
            let top = segment_files(&fs).last().map_or(0, |s| s.0);
            fs.set_file(&format!("wal/wal-{:020}.tonwal", top + 1), Vec::new());
            fs.set_file("wal/wal-7.tonwal", b"junk".to_vec());
            fs.set_file("wal2/wal-00000000000000000000.tonwal", b"junk".to_vec());
        }
        let now = layout(&fs)?;
        let cfg = WalConfig {
            prune_dry_run: case.dry_run,
            ..wal_config(&fs, case.state)
        };
        let top = now.iter().flat_map(|(_, r)| r).last().map_or(0, |r| r.seq);
        let live = case.live.map(|l| 1 + l as u64 % (top + 2));
        let floor = case.floor.map(|p| floor_ref(&now, p));

        // Bounds reported per segment.
        let listed = wal::segments(&cfg).await.map_err(|e| e.to_string())?;
        ensure_eq!(
            listed.iter().map(|s| (s.seq, s.frames)).collect::<Vec<_>>(),
            now.iter()
                .map(|(s, r)| (*s, r.first().map(|f| (f.seq, r.last().unwrap().seq))))
                .collect::<Vec<_>>(),
            "segment bounds"
        );

        // The segments a flush keeps.
        let kept = wal::collect_refs(&cfg, floor.as_ref(), live)
            .await
            .map_err(|e| format!("collect: {e}"))?;
        for w in kept.windows(2) {
            ensure!(w[0].seq < w[1].seq, "kept segments out of order");
        }
        for (seq, recs) in &now {
            let (Some(f), Some(l)) = (recs.first(), recs.last()) else {
                ensure!(!kept.iter().any(|k| k.seq == *seq), "empty segment {seq} kept");
                continue;
            };
            let required = live.is_some_and(|x| l.seq >= x)
                || floor.as_ref().is_none_or(|x| *seq > x.seq);
            let entry = kept.iter().find(|k| k.seq == *seq);
            match entry {
                Some(k) => {
                    ensure_eq!((k.first, k.last), (f.seq, l.seq), "bounds of kept segment {seq}");
                    ensure!(required, "segment {seq} kept although nothing in it is needed");
                }
                None => ensure!(
                    !required,
                    "segment {seq} (records {}..={}) dropped; live from {live:?}, floor {floor:?}",
                    f.seq,
                    l.seq
                ),
            }
        }
        ensure!(
            kept.iter().all(|k| now.iter().any(|n| n.0 == k.seq)),
            "kept a segment that does not exist"
        );
        // Replaying from the first kept segment reaches every live record.
        if let (Some(first), Some(live)) = (kept.first(), live) {
            let got = wal::replay(&cfg, Some(first)).await.map_err(|e| e.to_string())?;
            let want = above(&now, Some(first));
            same_events(&got, &want, "replay from the kept floor")?;
            let need = now.iter().flat_map(|(_, r)| r).filter(|r| r.seq >= live).count();
            ensure!(want.len() >= need, "kept floor hides live records");
        } else if let Some(live) = live {
            ensure!(live > top, "live records but nothing kept");
        }
        obs.check();

        // Pruning to a floor.
        if let Some(floor) = &floor {
            let before = wal::replay(&cfg, Some(floor)).await.map_err(|e| e.to_string())?;
            let files = fs.files("");
            let gone = now.iter().filter(|(s, _)| *s < floor.seq).count();
            let n = wal::prune(&cfg, floor).await.map_err(|e| format!("prune: {e}"))?;
            ensure_eq!(n, gone, "segments reported as pruned");
            let after = fs.files("");
            let expect: Vec<_> = files
                .into_iter()
                .filter(|(p, _)| {
                    case.dry_run
                        || !segment_name(p).is_some_and(|s| p.starts_with("wal/") && s < floor.seq)
                })
                .collect();
            ensure!(after == expect, "pruning to {floor:?} left {:?}", after.iter().map(|f| &f.0).collect::<Vec<_>>());
            let again = wal::prune(&cfg, floor).await.map_err(|e| format!("prune again: {e}"))?;
            ensure_eq!(again, if case.dry_run { gone } else { 0 }, "pruned the second time");
            let got = wal::replay(&cfg, Some(floor)).await.map_err(|e| e.to_string())?;
            let before: Vec<_> = before.into_iter().map(|e| (0, e)).collect();
            same_events(&got, &before, "replay after pruning")?;
            obs.check();
            obs.class_if(gone > 0, "pruned");
        }
        obs.nontrivial = now.len() > 1 && (live.is_some() || floor.is_some());
        Ok(())
    })
}

fn segment_name(path: &str) -> Option<u64> {
    let name = path.rsplit('/').next()?.strip_prefix("wal-")?.strip_suffix(".tonwal")?;
    (name.len() == 20).then(|| name.parse().ok())?
}

pub const GC: Gen<LogCase> = Gen {
    name: "wal_gc",
    rule: "1-4 segments of 1-4 records, every position of the floor and of the oldest live record; \
           segments kept by a flush and left by pruning compared with the records they hold; \
           non-trivial: several segments and a floor or live position",
    strategy: log_strategy,
    test: gc_test,
};

// ---------------------------------------------------------------------------------------------
// Writer histories
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    Send(Cmd),
    Rotate,
    /// Wait for every outstanding acknowledgement.
    Settle,
    Sleep(u16),
    Snapshot,
    Restart,
    Kill,
    /// Power failure: this many 256ths of the bytes not yet made durable survive.
    Power(u16),
    /// Stop, and let a fault hit the next start.
    RestartFaulty(u64, Fault),
    Arm(u64, Fault),
    Prune(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WriterCase {
    spec: Spec,
    segment_bytes: usize,
    retention: Option<usize>,
    sync: u8,
    age_ms: Option<u64>,
    flush_ms: u64,
    state: bool,
    /// Runs (by number, modulo 8) of the writer that have no state file to read or update.
    #[serde(default)]
    stale: u8,
    queue: usize,
    schedule: u64,
    /// Segments are files of a local disk that has to be synced.
    #[serde(default)]
    disk: bool,
    ops: Vec<WOp>,
}

fn any_fault() -> impl Strategy<Value = Fault> {
    prop_oneof![
        (0u16..=256).prop_map(|keep| Fault::Crash { keep }),
        Just(Fault::Fail),
        (0u16..=256).prop_map(|keep| Fault::FailPartial { keep }),
    ]
}

fn writer_strategy() -> BoxedStrategy<WriterCase> {
    let op = prop_oneof![
        14 => cmd((1u64..6).boxed()).prop_map(WOp::Send),
        2 => Just(WOp::Rotate),
        4 => Just(WOp::Settle),
        1 => (0u16..400).prop_map(WOp::Sleep),
        1 => Just(WOp::Snapshot),
        2 => Just(WOp::Restart),
        1 => Just(WOp::Kill),
        1 => prop_oneof![Just(0u16), 0u16..=256].prop_map(WOp::Power),
        1 => (0u64..6, any_fault()).prop_map(|(a, f)| WOp::RestartFaulty(a, f)),
        2 => (0u64..12, any_fault()).prop_map(|(a, f)| WOp::Arm(a, f)),
        1 => any::<u8>().prop_map(WOp::Prune),
    ];
    (
        spec(),
        prop_oneof![Just(0usize), Just(1usize), 100usize..3000, Just(1 << 20)],
        prop::option::weighted(0.2, 0usize..6000),
        0u8..5,
        prop::option::weighted(0.3, 1u64..300),
        prop_oneof![Just(0u64), 1u64..100],
        prop::bool::weighted(0.7),
        prop_oneof![1usize..4, Just(64usize)],
        (prop_oneof![Just(0u64), any::<u64>()], any::<bool>(), prop_oneof![2 => Just(0u8), 1 => any::<u8>()]),
        prop::collection::vec(op, 1..24),
    )
        .prop_map(
            |(spec, segment_bytes, retention, sync, age_ms, flush_ms, state, queue, (schedule, disk, stale), ops)| {
                WriterCase {
                    spec,
                    segment_bytes,
                    retention,
                    sync,
                    age_ms,
                    flush_ms,
                    state,
                    stale,
                    queue,
                    schedule,
                    disk,
                    ops,
                }
            },
        )
        .boxed()
}

#[derive(Debug)]
enum Outcome {
    Acked { first: u64, last: u64, bytes: usize },
    Failed,
}

struct Sent {
    cmd: Cmd,
    life: usize,
    outcome: Option<Outcome>,
    /// When the acknowledgement was seen.
    at: Option<tokio::time::Instant>,
}

struct World<'a> {
    case: &'a WriterCase,
    deletes: arrow_schema::SchemaRef,
    fs: SimFs,
    handle: Option<WalHandle<SimExec>>,
    sent: Vec<Sent>,
    pending: Vec<(usize, WalTicket<SimExec>)>,
    life: usize,
    /// First record that cleanup may have left as the oldest.
    pruned: bool,
    removed: usize,
    acked: usize,
    /// A power failure took records; numbering may have a gap.
    gap: bool,
    /// Lives that ended with a clean stop.
    clean: HashSet<usize>,
}

impl World<'_> {
    /// Whether the current run keeps a state file.
    fn state(&self) -> bool {
        self.case.state && self.case.stale >> (self.life % 8) & 1 == 0
    }

    fn cfg(&self) -> WalConfig {
        WalConfig {
            segment_max_bytes: self.case.segment_bytes,
            segment_max_age: self.case.age_ms.map(Duration::from_millis),
            flush_interval: Duration::from_millis(self.case.flush_ms),
            retention_bytes: self.case.retention,
            queue_size: self.case.queue,
            sync: match self.case.sync {
                0 => WalSyncPolicy::Always,
                1 => WalSyncPolicy::IntervalBytes(500),
                2 => WalSyncPolicy::IntervalTime(Duration::from_millis(50)),
                3 => WalSyncPolicy::Disabled,
                _ => WalSyncPolicy::IntervalBytes(0),
            },
            ..wal_config(&self.fs, self.state())
        }
    }

    /// Start the writer; with `faulty`, a failure that an injected fault explains gives `false`.
    async fn start(&mut self, faulty: bool) -> Result<bool, String> {
        let before = self.logged()?;
        if before.is_empty() && (!self.case.state || self.case.stale != 0) {
            // Everything was cleaned away and no state file remembers the numbering.
            self.sent.clear();
            // A later run that reads the stale state file skips the numbers it mentions.
            self.gap |= self.case.state;
        }
        let handle = match wal::start(Arc::new(SimExec), self.cfg()).await {
            Ok(handle) => handle,
            Err(_) if faulty && (self.fs.is_dead() || self.fs.faults_fired() > 0) => {
                return Ok(false);
            }
            Err(e) => return Err(format!("the log does not reopen: {e}")),
        };
        let next = handle.next_provisional_id();
        if let Some(top) = before.iter().map(|r| id_of(&r.1)).max() {
            ensure!(
                next > top,
                "after a restart transaction id {next} is handed out again (log holds {top})"
            );
        }
        self.handle = Some(handle);
        self.life += 1;
        Ok(true)
    }

    /// What a power failure may have taken under the configured policy.
    fn lost(&mut self, obs: &mut Obs) -> TestResult {
        let end = self.logged()?.last().map_or(0, |r| r.0);
        let now = tokio::time::Instant::now();
        let mut per_life: HashMap<usize, usize> = HashMap::new();
        let quiet = self.fs.faults_fired() == 0;
        for s in &self.sent {
            let Some(Outcome::Acked { first, bytes, .. }) = &s.outcome else {
                continue;
            };
            if *first <= end {
                continue;
            }
            obs.class("acknowledged but lost with the power");
            *per_life.entry(s.life).or_default() += bytes;
            ensure!(
                !self.clean.contains(&s.life),
                "record {first} was not durable although its writer stopped cleanly"
            );
            if self.case.sync == 2 && s.life == self.life && quiet {
                let age = s.at.map(|t| now.saturating_duration_since(t));
                ensure!(
                    age.is_none_or(|a| a <= Duration::from_millis(55)),
                    "record {first} was not durable {age:?} after its acknowledgement, with a \
                     sync every 50 ms"
                );
            }
        }
        let allowed = match self.case.sync {
            1 => 500,
            2 => usize::MAX,
            _ => 1,
        };
        for (life, bytes) in per_life {
            ensure!(
                bytes < allowed,
                "{bytes} acknowledged bytes of run {life} were not durable, policy {:?}",
                self.cfg().sync
            );
        }
        self.sent.retain(|s| !matches!(s.outcome, Some(Outcome::Acked { first, .. }) if first > end));
        Ok(())
    }

    /// Complete records of all segments in order.
    fn logged(&self) -> Result<Vec<(u64, Event)>, String> {
        let files = segment_files(&self.fs);
        let mut out = Vec::new();
        for (i, (seq, _, data)) in files.iter().enumerate() {
            let (recs, torn) = records(data).map_err(|e| format!("segment {seq}: {e}"))?;
            ensure!(!torn || i + 1 == files.len(), "segment {seq} is torn but not the last");
            out.extend(recs.into_iter().map(|r| (r.seq, r.event)));
        }
        Ok(out)
    }

    async fn settle(&mut self) -> TestResult {
        for (i, ticket) in std::mem::take(&mut self.pending) {
            self.sent[i].at = Some(tokio::time::Instant::now());
            self.sent[i].outcome = Some(match ticket.durable().await {
                Ok(ack) => {
                    self.acked += 1;
                    Outcome::Acked {
                        first: ack.first_seq,
                        last: ack.last_seq,
                        bytes: ack.bytes_flushed,
                    }
                }
                Err(_) => Outcome::Failed,
            });
        }
        Ok(())
    }

    /// The log against everything submitted so far; nothing may be outstanding.
    async fn verify(&mut self, obs: &mut Obs) -> TestResult {
        let log = self.logged()?;
        for w in log.windows(2) {
            ensure!(
                w[1].0 == w[0].0 + 1 || (self.gap && w[1].0 > w[0].0),
                "sequence numbers jump from {} to {}",
                w[0].0,
                w[1].0
            );
        }
        let cleaned = self.pruned || self.case.retention.is_some();
        if let Some(f) = log.first() {
            ensure!(f.0 == 1 || cleaned || self.gap, "the log starts at record {}", f.0);
        }
        let start = log.first().map(|r| r.0);
        let at: HashMap<u64, &Event> = log.iter().map(|(s, e)| (*s, e)).collect();
        // Acknowledged records sit where their acknowledgement says.
        let mut owner: HashMap<u64, usize> = HashMap::new();
        let mut last = 0;
        let mut failed_in = None;
        for (i, s) in self.sent.iter().enumerate() {
            match &s.outcome {
                Some(Outcome::Acked { first, last: end, bytes }) => {
                    ensure!(
                        failed_in != Some(s.life),
                        "command {i} acknowledged after an earlier one of the same run failed"
                    );
                    ensure!(*first > last, "acknowledged range {first}..={end} after {last}");
                    ensure_eq!(*end, *first, "records of one command");
                    last = *end;
                    let size = wal::encode(s.cmd.command(&self.case.spec, &self.deletes))
                        .map_err(|e| e.to_string())?
                        .into_iter()
                        .map(|f| f.into_bytes(1).len())
                        .sum::<usize>();
                    ensure_eq!(*bytes, size, "bytes reported for command {i}");
                    match start {
                        Some(start) if *first >= start => {
                            let Some(event) = at.get(first) else {
                                return Err(format!(
                                    "acknowledged record {first} is not in the log (last {:?})",
                                    log.last().map(|r| r.0)
                                ));
                            };
                            ensure!(
                                s.cmd.matches(&self.case.spec, &self.deletes, event),
                                "record {first} holds {}, acknowledged for {:?}",
                                brief(event),
                                s.cmd
                            );
                            owner.insert(*first, i);
                        }
                        _ => ensure!(cleaned, "acknowledged record {first} is not in the log"),
                    }
                }
                Some(Outcome::Failed) => failed_in = Some(s.life),
                None => return Err(format!("command {i} was never answered")),
            }
        }
        // The remaining records are failed commands, in submission order.
        let mut from = 0;
        for (seq, event) in &log {
            if let Some(i) = owner.get(seq) {
                from = i + 1;
                continue;
            }
            let found = (from..self.sent.len()).find(|i| {
                matches!(self.sent[*i].outcome, Some(Outcome::Failed))
                    && self.sent[*i].cmd.matches(&self.case.spec, &self.deletes, event)
            });
            match found {
                Some(i) => from = i + 1,
                None => return Err(format!("record {seq} {} was never submitted", brief(event))),
            }
            obs.class("logged but not acknowledged");
        }
        // Replay agrees.
        let copy = self.fs.fork();
        let cfg = WalConfig {
            ..wal_config(&copy, self.case.state)
        };
        let events = wal::replay(&cfg, None).await.map_err(|e| format!("replay: {e}"))?;
        same_events(&events, &log, "replay of the writer's log")?;
        obs.check();
        Ok(())
    }

    /// Checks that hold while the writer is idle and healthy.
    async fn idle(&mut self, obs: &mut Obs) -> TestResult {
        if self.fs.is_dead() || !self.healthy() {
            return Ok(());
        }
        let Some(handle) = &self.handle else {
            return Ok(());
        };
        let snap = match handle.snapshot().await {
            Ok(s) => s,
            // The writer died on a timer or during start-up: faults only.
            Err(_) => return Ok(()),
        };
        let files = segment_files(&self.fs);
        let mut want = Vec::new();
        for (seq, _, data) in &files {
            let (recs, torn) = records(data)?;
            ensure!(!torn, "torn segment {seq} under a healthy writer");
            if let (Some(f), Some(l)) = (recs.first(), recs.last()) {
                want.push((*seq, f.seq, l.seq));
            }
        }
        let got: Vec<_> = snap.iter().map(|s| (s.seq, s.first_frame, s.last_frame)).collect();
        if !self.pruned {
            ensure_eq!(got, want, "segments tracked by the writer");
        }
        let active = files.last().map(|f| f.0);
        for s in &snap.sealed_segments {
            ensure!(Some(s.seq) != active, "active segment reported as sealed");
        }
        // Retention: over the cap only the active segment is left; nothing goes early.
        if let Some(cap) = self.case.retention
            && !self.pruned
        {
            let total: usize = files.iter().map(|f| f.2.len()).sum();
            let sealed = files.iter().filter(|f| Some(f.0) != active && !f.2.is_empty()).count();
            ensure!(
                total <= cap || sealed == 0 || self.case.segment_bytes != 1,
                "{total} bytes retained in {} segments, cap {cap}",
                files.len()
            );
        }
        let metrics = handle.metrics();
        let bytes = metrics.read().await.bytes_written;
        let acked: u64 = self
            .sent
            .iter()
            .filter(|s| s.life == self.life)
            .map(|s| match s.outcome {
                Some(Outcome::Acked { bytes, .. }) => bytes as u64,
                _ => 0,
            })
            .sum();
        ensure_eq!(bytes, acked, "bytes counted by the writer");
        obs.check();
        Ok(())
    }

    fn healthy(&self) -> bool {
        self.sent
            .iter()
            .filter(|s| s.life == self.life)
            .all(|s| matches!(s.outcome, Some(Outcome::Acked { .. })))
    }

    fn evictions(&mut self) -> TestResult {
        let removed = self.fs.removed();
        let new = &removed[self.removed..];
        if self.case.retention.is_none() {
            ensure!(new.is_empty(), "the writer removed {new:?}");
        }
        self.removed = removed.len();
        Ok(())
    }
}

fn id_of(event: &Event) -> u64 {
    match event {
        Event::Begin(i)
        | Event::Append(i, ..)
        | Event::Delete(i, ..)
        | Event::Commit(i, _)
        | Event::Abort(i) => *i,
        Event::Seal => 0,
    }
}

fn writer_test(case: &WriterCase, obs: &mut Obs) -> TestResult {
    block_on(async {
        let mut w = World {
            case,
            deletes: delete_schema(&case.spec)?,
            fs: if case.disk {
                SimFs::disk(case.schedule)
            } else {
                SimFs::with_schedule(case.schedule)
            },
            handle: None,
            sent: Vec::new(),
            pending: Vec::new(),
            life: 0,
            pruned: false,
            removed: 0,
            acked: 0,
            gap: false,
            clean: HashSet::new(),
        };
        w.start(false).await?;
        let mut restarts = 0;
        for op in &case.ops {
            match op {
                WOp::Send(cmd) => {
                    let handle = w.handle.as_ref().unwrap();
                    let ticket = submit(handle, &case.spec, &w.deletes, cmd).await;
                    let i = w.sent.len();
                    w.sent.push(Sent {
                        cmd: cmd.clone(),
                        life: w.life,
                        outcome: None,
 at: None,
                    });
                    match ticket {
                        Ok(t) => w.pending.push((i, t)),
                        Err(_) => w.sent[i].outcome = Some(Outcome::Failed),
                    }
                }
                WOp::Rotate => {
                    let _ = w.handle.as_ref().unwrap().rotate().await;
                }
                WOp::Settle => {
                    w.settle().await?;
                    w.verify(obs).await?;
                    w.idle(obs).await?;
                    w.evictions()?;
                }
                WOp::Sleep(ms) => tokio::time::sleep(Duration::from_millis(*ms as u64)).await,
                WOp::Snapshot => {
                    let _ = w.handle.as_ref().unwrap().snapshot().await;
                }
                WOp::Restart => {
                    let handle = w.handle.take().unwrap();
                    let clean = handle.shutdown().await.is_ok();
                    w.settle().await?;
                    if clean && !w.fs.is_dead() {
                        obs.class("clean restart");
                        if case.sync != 3 {
                            w.clean.insert(w.life);
                        }
                    }
                    w.fs = w.fs.restart();
                    w.verify(obs).await?;
                    w.start(false).await?;
                    restarts += 1;
                }
                WOp::Power(_) | WOp::Kill => {
                    match op {
                        WOp::Power(keep) if case.disk && case.sync != 3 => {
                            let lost = w.fs.power_loss(*keep, |p| segment_name(p).is_some());
                            w.gap |= lost > 0;
                            w.settle().await?;
                            // A cleaned log without acknowledged records has nothing to compare.
                            if !w.logged()?.is_empty() || w.removed + w.fs.removed().len() == 0 {
                                w.lost(obs)?;
                            }
                            obs.class_if(lost > 0, "power failure lost bytes");
                        }
                        _ => w.fs.kill(),
                    }
                    w.settle().await?;
                    w.handle = None;
                    w.fs = w.fs.restart();
                    w.verify(obs).await?;
                    w.start(false).await?;
                    obs.class("crash");
                    restarts += 1;
                }
                WOp::RestartFaulty(after, fault) => {
                    let handle = w.handle.take().unwrap();
                    if after % 2 == 0 {
                        let _ = handle.shutdown().await;
                    } else {
                        w.fs.kill();
                        drop(handle);
                    }
                    w.settle().await?;
                    w.fs.arm_recovery(*after / 2, *fault);
                    w.fs = w.fs.restart();
                    w.verify(obs).await?;
                    if !w.start(true).await? {
                        obs.class("start failed");
                        w.fs = w.fs.restart();
                        w.verify(obs).await?;
                        w.start(false).await?;
                    }
                    restarts += 1;
                }
                WOp::Arm(after, fault) => w.fs.arm(*after, *fault),
                WOp::Prune(pick) => {
                    // Pruning below a floor while the writer runs.
                    w.settle().await?;
                    w.evictions()?;
                    let files = segment_files(&w.fs);
                    if files.is_empty() || w.fs.is_dead() || case.retention.is_some() {
                        continue;
                    }
                    let seq = files[*pick as usize % files.len()].0;
                    let floor = WalRef {
                        seq,
                        file_id: ulid::Ulid::from(seq as u128),
                        first: 1,
                        last: 1,
                    };
                    if wal::prune(&w.cfg(), &floor).await.is_ok() {
                        obs.class("pruned");
                    }
                    w.pruned = w.pruned || w.fs.removed().len() > w.removed;
                    w.removed = w.fs.removed().len();
                }
            }
        }
        // Finish: a clean stop if possible, then one more start and a last look.
        w.fs.disarm();
        w.settle().await?;
        w.verify(obs).await?;
        w.idle(obs).await?;
        if let Some(h) = w.handle.take() {
            let _ = h.shutdown().await;
        }
        w.fs = w.fs.restart();
        w.start(false).await?;
        w.sent.push(Sent {
            cmd: Cmd::Commit(3, 77),
            life: w.life,
            outcome: None,
 at: None,
        });
        let t = submit(w.handle.as_ref().unwrap(), &case.spec, &w.deletes, &Cmd::Commit(3, 77))
            .await
            .map_err(|e| format!("append after reopening: {e}"))?;
        w.pending.push((w.sent.len() - 1, t));
        w.settle().await?;
        ensure!(
            matches!(w.sent.last().unwrap().outcome, Some(Outcome::Acked { .. })),
            "append after reopening failed"
        );
        w.verify(obs).await?;
        w.idle(obs).await?;
        obs.class_if(segment_files(&w.fs).len() > 1, "several segments");
        obs.nontrivial = w.acked >= 3 && (restarts > 0 || segment_files(&w.fs).len() > 1);
        Ok(())
    })
}

pub const WRITER: Gen<WriterCase> = Gen {
    name: "wal_writer",
    rule: "up to 24 submissions, rotations, waits, restarts, crashes, prunings and injected write \
           failures under generated segment sizes, sync policies, queue sizes, retention and \
           schedules; acknowledgements, sequence numbers, log content, tracked segments and replay \
           compared with the submissions; non-trivial: at least three acknowledged records and a \
           restart or several segments",
    strategy: writer_strategy,
    test: writer_test,
};

// ---------------------------------------------------------------------------------------------
// Repairing a torn tail (known finding: not atomic)
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RepairCase {
    records: u8,
    torn: u8,
    /// File operation of the next start at which the process dies, and how much of it survives.
    crash: u8,
    keep: u16,
}

fn repair_test(case: &RepairCase, obs: &mut Obs) -> TestResult {
    block_on(async {
        let fs = SimFs::new();
        let handle = wal::start(Arc::new(SimExec), wal_config(&fs, false))
            .await
            .map_err(|e| e.to_string())?;
        for i in 0..case.records as u64 {
            let ticket = wal::commit(&handle, i + 1, i + 1).await.map_err(|e| e.to_string())?;
            ticket.durable().await.map_err(|e| e.to_string())?;
        }
        drop(handle);
        fs.kill();
        let fs = fs.restart();
        // The record being written when the process died left a few bytes.
        let (_, path, data) = segment_files(&fs).pop().ok_or("no segment")?;
        let mut torn = data.clone();
        torn.extend_from_slice(&data[..(case.torn as usize).min(data.len() - 1)]);
        fs.set_file(&path, torn);
        fs.harsh();
        fs.arm(case.crash as u64, Fault::Crash { keep: case.keep });
        let _ = wal::start(Arc::new(SimExec), wal_config(&fs, false)).await;
        obs.nontrivial = fs.is_dead();
        let fs = fs.restart();
        let left = wal::replay(&wal_config(&fs, false), None).await.map_err(|e| e.to_string())?;
        ensure!(
            left.len() == case.records as usize,
            "{} of {} acknowledged records left after a crash during the repair of a torn tail",
            left.len(),
            case.records
        );
        Ok(())
    })
}

/// Replay only: a crash while a torn tail is cut off loses acknowledged records.
pub const REPAIR: Gen<RepairCase> = Gen {
    name: "wal_repair",
    rule: "the process died while starting",
    strategy: || {
        (1u8..5, 1u8..20, 0u8..3, 0u16..=256)
            .prop_map(|(records, torn, crash, keep)| RepairCase { records, torn, crash, keep })
            .boxed()
    },
    test: repair_test,
};
