// Core of the bounded model checker for the client: every check enumerates
// its space of behaviours exhaustively, sharded over worker threads, and drives
// the real client code of /repo/src on each of them.
import { Worker, isMainThread, parentPort, workerData } from "node:worker_threads";
import * as fs from "node:fs";
import * as path from "node:path";
import * as os from "node:os";

export type Violation = { key: string; what: string; case: any; stack?: string };

const HANG_MS = 40_000;
const CUR_BYTES = 4096;

// ------------------------------------------------------------------ hashing

export function hash(s: string): number {
  let h1 = 0xdeadbeef,
    h2 = 0x41c6ce57;
  for (let i = 0; i < s.length; i++) {
    const ch = s.charCodeAt(i);
    h1 = Math.imul(h1 ^ ch, 2654435761);
    h2 = Math.imul(h2 ^ ch, 1597334677);
  }
  h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
  h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
  return 4294967296 * (2097151 & h2) + (h1 >>> 0);
}

// ------------------------------------------------------------------ context

export class Ctx {
  states = new Set<number>();
  nTrans = 0;
  nTraces = 0;
  violations = new Map<string, Violation>();
  nviol = 0;
  samples: any[] = [];
  extra: Record<string, number> = {};
  notes: Record<string, any> = {};
  capped = new Set<string>();
  private counter = 0;
  private beat: Int32Array;
  private cur: Uint8Array;
  private enc = new TextEncoder();
  readonly deadline: number;

  constructor(
    readonly id: string,
    readonly thorough: boolean,
    readonly shard: number,
    readonly shards: number,
    shared: SharedArrayBuffer,
    start: number,
    private known: Set<string>,
  ) {
    this.beat = new Int32Array(shared, shard * 4, 1);
    this.cur = new Uint8Array(shared, shards * 4 + shard * CUR_BYTES, CUR_BYTES);
    const lim = Number(process.env.VERIF_DEADLINE_S ?? (thorough ? 780 : 150));
    this.deadline = start + lim * 1000;
  }

  bound(quick: number, thorough: number) {
    return this.thorough ? thorough : quick;
  }
  // distributes the cases over the workers
  mine(): boolean {
    return this.counter++ % this.shards === this.shard;
  }
  // announces the case under way (shown should it never end)
  at(desc: string) {
    Atomics.add(this.beat, 0, 1);
    this.cur.fill(0, 0, 200);
    this.enc.encodeInto(desc, this.cur.subarray(0, CUR_BYTES - 1));
    const n = Math.min(CUR_BYTES - 1, desc.length * 3);
    this.cur[n] = 0;
  }
  tick() {
    Atomics.add(this.beat, 0, 1);
  }
  expired(where: string): boolean {
    if (Date.now() < this.deadline) return false;
    this.capped.add(where);
    return true;
  }
  state(s: string | number) {
    this.states.add(typeof s === "number" ? s : hash(s));
  }
  trans(n = 1) {
    this.nTrans += n;
  }
  trace(n = 1) {
    this.nTraces += n;
  }
  add(k: string, n = 1) {
    this.extra[k] = (this.extra[k] ?? 0) + n;
  }
  note(k: string, v: any) {
    this.notes[k] = v;
  }
  sample(v: any) {
    if (this.samples.length < 2) this.samples.push(v);
  }
  violate(key: string, cs: any, what: string, stack?: string) {
    if (!this.known.has(key)) this.nviol++;
    if (!this.violations.has(key) && this.violations.size < 100) this.violations.set(key, { key, what, case: cs, stack });
  }
  tooMany() {
    return this.nviol > (process.env.VERIF_FIRST ? 0 : 500);
  }
  // runs f; any exception it lets through is a violation
  async guard(key: string, cs: any, f: () => Promise<void> | void): Promise<boolean> {
    this.at(key + " " + safe(cs));
    try {
      await f();
      return true;
    } catch (e: any) {
      this.violate(key, cs, `fails: ${e && e.message ? e.message : e}`, e && e.stack ? String(e.stack).slice(0, 2000) : undefined);
      return false;
    }
  }
}

export function safe(v: any): string {
  try {
    const s = JSON.stringify(v, (_k, x) => (typeof x === "bigint" ? `${x}n` : x instanceof ArrayBuffer ? Buffer.from(x).toString("hex") : x));
    return s === undefined ? String(v) : s.length > 1500 ? s.slice(0, 1500) + "..." : s;
  } catch {
    return String(v);
  }
}

// --------------------------------------------------------------- gen bundles

export type GenCase = {
  name: string;
  kind: string;
  search?: string[];
  csv?: boolean;
  base?: number;
  segs?: [number, number][];
  size?: number;
  error?: string;
  extra?: any;
  data: ArrayBuffer;
  index: ArrayBuffer;
};

function ab(b: Buffer): ArrayBuffer {
  return b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength) as ArrayBuffer;
}

// bundle yields the generated cases; those for which want is false are skipped
export function* bundle(want?: (i: number, meta: any) => boolean): Generator<GenCase> {
  const fd = fs.openSync(path.join(process.env.MC_DIR!, "gen.bin"), "r");
  const size = fs.fstatSync(fd).size;
  let pos = 0;
  const len = Buffer.alloc(4);
  const u32 = () => {
    fs.readSync(fd, len, 0, 4, pos);
    pos += 4;
    return len.readUInt32LE(0);
  };
  const bytes = (n: number) => {
    const b = Buffer.alloc(n);
    let got = 0;
    while (got < n) got += fs.readSync(fd, b, got, n - got, pos + got);
    pos += n;
    return b;
  };
  for (let i = 0; pos < size; i++) {
    const meta = JSON.parse(bytes(u32()).toString("utf8"));
    if (want && !want(i, meta)) {
      for (let k = 0; k < 2; k++) {
        const n = u32(); // moves pos
        pos += n;
      }
      continue;
    }
    const data = ab(bytes(u32()));
    const index = ab(bytes(u32()));
    yield { ...meta, data, index };
  }
  if (pos !== size) throw new Error("the generated inputs are cut off");
  fs.closeSync(fd);
}

// ---------------------------------------------------------------------- main

type Check = {
  id: string;
  run: (c: Ctx) => Promise<void>;
  rule?: string;
  assumptions: string[];
  note?: Record<string, any>;
  shards?: number;
};

function silence() {
  for (const k of ["log", "warn", "info", "debug", "error"] as const) (console as any)[k] = () => {};
}

export function check(def: Check) {
  if (isMainThread) {
    parent(def).then((code) => process.exit(code));
  } else {
    child(def);
  }
}

async function child(def: Check) {
  silence();
  const { shard, shards, shared, thorough, start, known } = workerData;
  const c = new Ctx(def.id, thorough, shard, shards, shared, start, new Set(known));
  // a promise of the client nobody waits for may fail: not the harness's business
  process.on("unhandledRejection", () => {});
  c.at("start");
  try {
    await def.run(c);
  } catch (e: any) {
    c.violate("crash", null, `crash: ${e && e.message ? e.message : e}`, e && e.stack ? String(e.stack).slice(0, 2000) : undefined);
  }
  const states = Float64Array.from(c.states);
  parentPort!.postMessage({
    states,
    trans: c.nTrans,
    traces: c.nTraces,
    violations: [...c.violations.values()].map((v) => ({ ...v, case: safe(v.case) })),
    nviol: c.nviol,
    samples: c.samples.map((s) => JSON.parse(JSON.stringify(s, (_k, x) => (typeof x === "bigint" ? `${x}n` : x)))),
    extra: c.extra,
    notes: c.notes,
    capped: [...c.capped],
  });
}

function knownKeys(verif: string, id: string): Map<string, string> {
  const out = new Map<string, string>();
  let text = "";
  try {
    text = fs.readFileSync(path.join(verif, "known_findings.txt"), "utf8");
  } catch {
    return out;
  }
  for (const l of text.split("\n")) {
    const f = l.trim().split(/\s+/);
    if (f.length < 4 || f[0] !== "known:" || f[1] !== "property=" + id || !f[2].startsWith("key=")) continue;
    out.set(f[2].slice(4), f.slice(3).join(" "));
  }
  return out;
}

async function parent(def: Check): Promise<number> {
  const start = Date.now();
  const verif = process.env.VERIF_DIR ?? "/verif";
  const thorough = process.env.VERIF_TIER === "thorough";
  const shards = def.shards ?? Number(process.env.VERIF_WORKERS ?? os.cpus().length);
  const shared = new SharedArrayBuffer(shards * 4 + shards * CUR_BYTES);
  const beats = new Int32Array(shared, 0, shards);
  const curOf = (k: number) => {
    const b = Buffer.from(new Uint8Array(shared, shards * 4 + k * CUR_BYTES, CUR_BYTES));
    const z = b.indexOf(0);
    return b.subarray(0, z < 0 ? CUR_BYTES : z).toString("utf8");
  };
  const states = new Set<number>();
  let trans = 0,
    traces = 0;
  const violations = new Map<string, any>();
  const samples: any[] = [];
  const extra: Record<string, any> = {};
  const capped = new Set<string>();
  const put = (v: any) => {
    if (!violations.has(v.key)) violations.set(v.key, v);
  };
  const known = knownKeys(verif, def.id);
  await Promise.all(
    Array.from(
      { length: shards },
      (_, k) =>
        new Promise<void>((resolve) => {
          const w = new Worker(__filename, {
            workerData: { shard: k, shards, shared, thorough, start, known: [...known.keys()] },
            resourceLimits: { maxOldGenerationSizeMb: 3000 },
          });
          let done = false;
          const end = () => {
            if (done) return;
            done = true;
            clearInterval(timer);
            resolve();
          };
          let last = -1,
            since = Date.now();
          const timer = setInterval(() => {
            const b = Atomics.load(beats, k);
            if (b !== last) {
              last = b;
              since = Date.now();
            } else if (Date.now() - since > HANG_MS) {
              put({ key: "hang", what: `does not end: no progress for ${HANG_MS / 1000} s`, case: curOf(k) });
              end();
              w.terminate();
            }
          }, 500);
          w.on("message", (m) => {
            for (const s of m.states) states.add(s);
            trans += m.trans;
            traces += m.traces;
            for (const v of m.violations) put(v);
            if (samples.length < 6) samples.push(...m.samples.slice(0, 6 - samples.length));
            for (const [a, n] of Object.entries(m.extra)) extra[a] = (extra[a] ?? 0) + (n as number);
            for (const [a, n] of Object.entries(m.notes)) extra[a] = n;
            for (const x of m.capped) capped.add(x);
            end();
            w.terminate();
          });
          w.on("error", (e: any) => {
            put({ key: "crash", what: `worker fails: ${e && e.message}`, case: curOf(k), stack: e && e.stack });
            end();
          });
          w.on("exit", () => {
            if (!done) put({ key: "hang", what: "waits forever: nothing is pending, yet the operation has not ended", case: curOf(k) });
            end();
          });
        }),
    ),
  );

  let fresh = 0;
  const knownSeen: string[] = [];
  for (const k of [...violations.keys()].sort()) {
    const v = violations.get(k);
    if (known.has(k)) {
      console.log(`KNOWN-FINDING: property=${def.id} ${known.get(k)}`);
      knownSeen.push(k);
      continue;
    }
    fresh++;
    if (fresh <= 5) {
      const dir = path.join(verif, "replays");
      fs.mkdirSync(dir, { recursive: true });
      const p = path.join(dir, `${def.id}-${hash(k).toString(16)}.json`);
      fs.writeFileSync(
        p,
        JSON.stringify(
          { property: def.id, key: k, what: v.what, case: v.case, stack: v.stack, replay: `bash /verif/check.sh ${def.id}   # deterministic: re-explores and reports this key again` },
          null,
          1,
        ),
      );
      console.log(`VIOLATION property=${def.id} replay=${p}`);
      console.log(`  ${k}: ${String(v.what).slice(0, 600)}`);
    }
  }
  const cov: any = { ...extra, ...(def.note ?? {}) };
  cov.states = states.size;
  cov.transitions = trans;
  cov.traces_validated_against_impl = traces;
  if (def.rule) cov.rule = def.rule;
  cov.samples = samples;
  cov.exhaustive = capped.size === 0 && fresh === 0;
  if (capped.size > 0) cov.capped_at_deadline = [...capped];
  if (knownSeen.length > 0) cov.known_findings_seen = knownSeen;
  const ev = {
    property: def.id,
    tier: thorough ? "thorough" : "quick",
    seed: Number(process.env.VERIF_SEED ?? 1),
    level: "model_checking",
    coverage: cov,
    wall_s: (Date.now() - start) / 1000,
    violations: fresh,
    assumptions: def.assumptions,
  };
  fs.mkdirSync(path.join(verif, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(verif, "evidence", def.id + ".json"), JSON.stringify(ev, null, 1) + "\n");
  console.log(
    `${def.id} ${ev.tier}: states=${states.size} transitions=${trans} traces=${traces} new_violations=${fresh} known=${knownSeen.length} capped=${[...capped]} ${ev.wall_s.toFixed(1)}s`,
  );
  return fresh > 0 ? 1 : 0;
}

// ------------------------------------------------------------------- helpers

// resolver over bytes in memory; ranges are cut at the end of the file
export function memResolver(buf: ArrayBuffer, onRequest?: (ranges: { start: number; end: number }[]) => void) {
  return async (ranges: { start: number; end: number; expectedLength?: number }[]) => {
    onRequest?.(ranges);
    return ranges.map(({ start, end }) => {
      if (!(start >= 0 && end >= start && start < buf.byteLength)) {
        throw new Error(`requested bytes ${start}-${end} of ${buf.byteLength}`);
      }
      return { data: buf.slice(start, end + 1), totalLength: buf.byteLength };
    });
  };
}

// the data file of a case, which may start far into the file
export function dataResolver(g: GenCase) {
  const base = g.base ?? 0;
  if (!base) return memResolver(g.data);
  const total = base + g.data.byteLength;
  return async (ranges: { start: number; end: number; expectedLength?: number }[]) =>
    ranges.map(({ start, end }) => {
      if (!(start >= base && end >= start && start < total)) throw new Error(`requested bytes ${start}-${end} of data at ${base}-${total}`);
      return { data: g.data.slice(start - base, end - base + 1), totalLength: total };
    });
}

// the index file of a case, of which parts may lie far into the file
export function indexResolver(g: GenCase, onRequest?: (ranges: { start: number; end: number }[]) => void) {
  if (!g.segs) return memResolver(g.index, onRequest);
  const total = g.size!;
  const all = new Uint8Array(g.index);
  return async (ranges: { start: number; end: number; expectedLength?: number }[]) => {
    onRequest?.(ranges);
    return ranges.map(({ start, end }) => {
      if (!(start >= 0 && end >= start && start < total)) throw new Error(`requested bytes ${start}-${end} of ${total}`);
      const stop = Math.min(end + 1, total);
      const out = new Uint8Array(stop - start);
      let at = 0;
      for (const [off, len] of g.segs!) {
        const a = Math.max(off, start),
          b = Math.min(off + len, stop);
        if (a < b) out.set(all.subarray(at + a - off, at + b - off), a - start);
        at += len;
      }
      return { data: out.buffer, totalLength: total };
    });
  };
}

export function* wordsOf(k: number, n: number): Generator<number[]> {
  const w = new Array(n).fill(0);
  while (true) {
    yield w.slice();
    let i = n - 1;
    while (i >= 0 && w[i] === k - 1) w[i--] = 0;
    if (i < 0) return;
    w[i]++;
  }
}

export function* permsOf(n: number): Generator<number[]> {
  const p = Array.from({ length: n }, (_, i) => i);
  function* rec(k: number): Generator<number[]> {
    if (k === n) {
      yield p.slice();
      return;
    }
    for (let i = k; i < n; i++) {
      [p[k], p[i]] = [p[i], p[k]];
      yield* rec(k + 1);
      [p[k], p[i]] = [p[i], p[k]];
    }
  }
  yield* rec(0);
}

// settle lets everything run that can run without outside events
export function settle(): Promise<void> {
  return new Promise((r) => setImmediate(r));
}

export async function collect<T>(g: AsyncIterable<T>): Promise<T[]> {
  const out: T[] = [];
  for await (const x of g) out.push(x);
  return out;
}
