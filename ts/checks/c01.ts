import { bundle, check, Ctx, GenCase, dataResolver, indexResolver } from "../lib/core";
import { init } from "repo/index";

// ---- reference: what the data says -------------------------------------------

type Op = "<" | "<=" | "==" | ">=" | ">";
const OPS: Op[] = ["<", "<=", "==", ">=", ">"];
type Ord = undefined | "ASC" | "DESC";
const ORDS: Ord[] = [undefined, "ASC", "DESC"];

type Item = { value: any; row: number };
type Field = { name: string; byType: Map<string, Item[]> };
type Row = { text: string; canon: string; json: any };

function typeOf(v: any): string {
  if (v === null) return "null";
  if (typeof v === "bigint") return "number";
  return typeof v;
}

function flatten(v: any, prefix: string, f: (path: string, v: any) => void) {
  for (const [k, x] of Object.entries(v)) {
    f(prefix + k, x);
    if (x !== null && typeof x === "object" && !Array.isArray(x)) flatten(x, prefix + k + ".", f);
  }
}

function bytes(s: string): Buffer {
  return Buffer.from(s, "utf8");
}

function compare(a: any, b: any): number {
  if (a === null) return 0;
  if (typeof a === "string") return Buffer.compare(bytes(a), bytes(b));
  const x = Number(a),
    y = Number(b);
  return x < y ? -1 : x > y ? 1 : 0;
}

// order of numbers by the bits of their representation (known finding)
function bitOrder(a: any, b: any): number {
  if (typeof a !== "number" && typeof a !== "bigint") return compare(a, b);
  const p = Buffer.alloc(8),
    q = Buffer.alloc(8);
  p.writeDoubleBE(Number(a));
  q.writeDoubleBE(Number(b));
  return Buffer.compare(p, q);
}

function holds(op: Op, d: number): boolean {
  switch (op) {
    case "<":
      return d < 0;
    case "<=":
      return d <= 0;
    case "==":
      return d === 0;
    case ">=":
      return d >= 0;
    case ">":
      return d > 0;
  }
}

// members in the order of their names, so that rows can be compared as text
function canon(v: any): string {
  return JSON.stringify(v, (_k, x) => (typeof x === "function" ? "<function>" : x === undefined ? "<undefined>" : x !== null && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, x[k]])) : x));
}

class Reference {
  rows: Row[] = [];
  fields = new Map<string, Field>();
  constructor(data: ArrayBuffer) {
    const lines = Buffer.from(data).toString("utf8").split("\n");
    for (const text of lines) {
      if (text === "") continue;
      const json = JSON.parse(text);
      const n = this.rows.length;
      this.rows.push({ text, canon: canon(json), json });
      flatten(json, "", (path, v) => {
        let f = this.fields.get(path);
        if (!f) this.fields.set(path, (f = { name: path, byType: new Map() }));
        const t = typeOf(v);
        if (!f.byType.has(t)) f.byType.set(t, []);
        f.byType.get(t)!.push({ value: v, row: n });
      });
    }
    for (const f of this.fields.values()) for (const items of f.byType.values()) if (items[0].value === null || typeof items[0].value !== "object") items.sort((a, b) => compare(a.value, b.value));
  }
  // matching items grouped by equal value, in the requested order
  groups(field: string, op: Op, value: any, ord: Ord, cmp: (a: any, b: any) => number = compare): Item[][] {
    const items = this.fields.get(field)?.byType.get(typeOf(value)) ?? [];
    let list = items.filter((i) => holds(op, cmp(i.value, value)));
    if (cmp !== compare) list.sort((a, b) => cmp(a.value, b.value));
    if (ord === "DESC") list.reverse();
    const out: Item[][] = [];
    for (const i of list) {
      const last = out[out.length - 1];
      if (last && cmp(last[0].value, i.value) === 0) last.push(i);
      else out.push([i]);
    }
    return out;
  }
}

// judge compares the rows received with the groups; with a limit only the first ones are expected
function judge(ref: Reference, groups: Item[][], got: string[], limit: number | undefined, select: string[] | undefined): string | null {
  const total = groups.reduce((n, g) => n + g.length, 0);
  const want = limit === undefined ? total : Math.min(total, Math.max(0, limit));
  if (got.length !== want) return `${got.length} rows, expected ${want}`;
  let p = 0;
  const show = (row: number) => {
    if (!select) return ref.rows[row].canon;
    const o: any = {};
    for (const s of select) if (Object.prototype.hasOwnProperty.call(ref.rows[row].json, s)) o[s] = ref.rows[row].json[s];
    return canon(o);
  };
  for (const g of groups) {
    if (p >= got.length) break;
    if (g.length === 1) {
      const w = show(g[0].row);
      if (got[p] !== w) return `row ${p} is ${got[p].slice(0, 100)}, expected ${w.slice(0, 100)}`;
      p++;
      continue;
    }
    const bag = new Map<string, number>();
    for (const i of g) {
      const s = show(i.row);
      bag.set(s, (bag.get(s) ?? 0) + 1);
    }
    for (let k = 0; k < g.length && p < got.length; k++, p++) {
      const n = bag.get(got[p]) ?? 0;
      if (n === 0) return `row ${p} is ${got[p].slice(0, 100)}, which is not one of the ${g.length} rows with ${JSON.stringify(g[0].value)} still expected`;
      bag.set(got[p], n - 1);
    }
  }
  return null;
}

// ---- running queries ------------------------------------------------------------

type Q = { field: string; op: Op; value: any; ord: Ord; limit?: number; select?: string[]; stop?: number };

async function receive(db: any, q: Q, style: number): Promise<string[]> {
  const rows: string[] = [];
  let gen: AsyncIterable<any>;
  if (style === 0) {
    gen = db.query({
      where: [{ key: q.field, operation: q.op, value: q.value }],
      orderBy: q.ord ? [{ key: q.field, direction: q.ord }] : undefined,
      select: q.select,
      limit: q.limit,
    });
  } else {
    let b = db.where(q.field, q.op, q.value);
    if (q.ord) b = b.orderBy(q.field, q.ord);
    if (q.select) b = b.select(q.select);
    if (q.limit !== undefined) b = b.limit(q.limit);
    gen = b.get();
  }
  for await (const row of gen) {
    rows.push(canon(row));
    if (q.stop !== undefined && rows.length >= q.stop) break;
    if (rows.length > 200000) throw new Error("endless result");
  }
  return rows;
}

function show(q: Q) {
  return { ...q, value: typeof q.value === "bigint" ? `${q.value}n` : Object.is(q.value, -0) ? "-0" : q.value };
}

async function one(c: Ctx, g: GenCase, ref: Reference, db: any, q: Q, style: number): Promise<string[] | null> {
  const cs = () => ({ data: g.name, text: g.data.byteLength < 400 ? Buffer.from(g.data).toString() : undefined, query: show(q) });
  c.tick();
  c.trans();
  const stored = ref.fields.get(q.field)?.byType.has(typeOf(q.value)) ?? false;
  let got: string[];
  try {
    got = await receive(db, q, style);
  } catch (e: any) {
    // comparing with a value of a type the field never has may be refused
    if (stored) c.violate(`${g.kind}-fails`, cs(), `fails: ${e && e.message}`, e && e.stack);
    return null;
  }
  const lim = q.stop !== undefined ? Math.min(q.stop, q.limit ?? Infinity) : q.limit;
  const bad = judge(ref, ref.groups(q.field, q.op, q.value, q.ord), got, lim, q.select);
  if (bad) {
    const raw = judge(ref, ref.groups(q.field, q.op, q.value, q.ord, bitOrder), got, lim, q.select);
    if (raw === null) c.violate("negative-order", cs(), `numbers are ordered by their bits: ${bad}`);
    else c.violate(`${g.kind}-${q.op}-${q.ord ?? "none"}`, cs(), bad);
  }
  return got;
}

const PROBES: any[] = [null, true, false, 0, 1, 2, 2.5, 0.5, 3, -1, 1n, "", "a", "aa", "ab", "b", "c", "\u0000"];

async function small(c: Ctx, g: GenCase) {
  const ref = new Reference(g.data);
  const db: any = await init(dataResolver(g), indexResolver(g));
  const wide = g.name.startsWith("wide");
  let probes = PROBES;
  if (wide) {
    probes = [];
    for (const items of ref.fields.get("a")!.byType.values()) for (const i of items) if (!probes.some((p) => Object.is(p, i.value))) probes.push(i.value);
    for (const p of probes.slice()) if (Number.isSafeInteger(p)) probes.push(BigInt(p));
    for (const p of [0, -0, 1, -1, "", "a", "\u0100", null]) if (!probes.some((x) => Object.is(x, p))) probes.push(p);
  }
  if (!wide && ref.rows.length > 2 && !c.thorough) {
    probes = [null, 0.5, "aa"];
    for (const items of ref.fields.get("a")?.byType.values() ?? []) for (const i of items) if ((i.value === null || typeof i.value !== "object") && !probes.includes(i.value)) probes.push(i.value);
  }
  let n = 0;
  for (const value of probes)
    for (const op of OPS)
      for (const ord of ORDS) {
        n++;
        if (ref.rows.length > 2 && ord === undefined && n % 4 !== 0 && !c.thorough) continue;
        const style = n % 2;
        const got = await one(c, g, ref, db, { field: "a", op, value, ord }, style);
        if (got === null || got.length === 0 || (wide && !c.thorough && n % 4 !== 0)) continue;
        // the first rows only: by limit, or by not asking for more
        if (n % 3 === 0) {
          await one(c, g, ref, db, { field: "a", op, value, ord, limit: got.length - 1 }, style);
          await one(c, g, ref, db, { field: "a", op, value, ord, stop: 1 }, style);
        } else if (n % 3 === 1) await one(c, g, ref, db, { field: "a", op, value, ord, select: n % 2 ? ["id"] : ["a", "nope", "id"] }, style);
        else await one(c, g, ref, db, { field: "a", op, value, ord, limit: n % 4 }, style);
      }
  for (const ord of ORDS) await one(c, g, ref, db, { field: "id", op: ">=", value: 1, ord }, 0);
  await unknown(c, g, db);
  c.state(g.name);
  c.trace();
}

async function unknown(c: Ctx, g: GenCase, db: any) {
  for (const field of ["nope", "", "id.x", "toString"]) {
    if (new Reference(g.data).fields.has(field)) continue;
    for (const value of [1, "x", null, true]) {
      c.trans();
      let rows: string[] | null = null;
      try {
        rows = await receive(db, { field, op: "==", value, ord: undefined }, 0);
      } catch {}
      if (rows) c.violate("unknown-field", { data: g.name, field, value }, `a query on the unknown field "${field}" returns ${rows.length} rows instead of being refused`);
    }
  }
}

// every field, every stored value and others around it
async function names(c: Ctx, g: GenCase) {
  const ref = new Reference(g.data);
  const db: any = await init(dataResolver(g), indexResolver(g));
  for (const f of ref.fields.values()) {
    const probes: any[] = ["", "zzz", 0, 1.5, 100, null, true, false];
    for (const items of f.byType.values()) for (const i of items) if (i.value === null || typeof i.value !== "object") probes.push(i.value);
    for (const value of probes)
      for (const op of OPS)
        for (const ord of ORDS) {
          await one(c, g, ref, db, { field: f.name, op, value, ord }, 0);
          await one(c, g, ref, db, { field: f.name, op, value, ord, select: ["o", "constructor", "toString", "a.b"], limit: 2 }, 1);
        }
    c.state(g.name + f.name);
  }
  c.trace();
}

// large trees: where do leaves begin?  The client reads an index page just before the
// first row of it.
async function boundaries(db: any, reads: { n: number }, field: string, from: any): Promise<{ at: number; deep: boolean }[]> {
  const out: { at: number; deep: boolean }[] = [];
  let k = 0,
    last = reads.n;
  for await (const _ of db.query({ where: [{ key: field, operation: ">=", value: from }] })) {
    if (reads.n !== last && k > 0) out.push({ at: k, deep: reads.n > last + 1 });
    last = reads.n;
    k++;
  }
  return out;
}

type Plan = { field: string; low: any; between: (v: any) => any; dense: boolean };

async function tree(c: Ctx, g: GenCase, plans: Plan[]) {
  c.at(g.name);
  const ref = new Reference(g.data);
  const reads = { n: 0 };
  const db: any = await init(
    dataResolver(g),
    indexResolver(g, () => reads.n++),
  );
  for (const plan of plans) {
    const type = typeOf(plan.low);
    const items = ref.fields.get(plan.field)?.byType.get(type);
    if (!items) continue;
    c.at(`${g.name} ${plan.field} boundaries`);
    const all = await boundaries(db, reads, plan.field, plan.low);
    c.note(`leaves of ${g.name} ${plan.field}`, all.length + 1);
    // of a tree of three levels the quick check looks at some leaves, and at those where an inner node begins
    const bs = all.filter((b, i) => c.thorough || g.kind !== "deep" || b.deep || i < 4 || i > all.length - 4 || i % 5 === 0).map((b) => b.at);
    if (g.kind === "deep") c.note(`inner nodes of ${g.name} ${plan.field}`, all.filter((b) => b.deep).length + 1);
    // positions of interest: around every leaf boundary, the ends, some others
    const pos = new Set<number>();
    const around = c.bound(plan.dense ? 2 : 1, 3);
    for (const b of [0, items.length, ...bs]) for (let d = -around; d < around; d++) if (b + d >= 0 && b + d < items.length) pos.add(b + d);
    if (plan.dense) for (let i = 0; i < items.length; i += c.bound(24, 1)) pos.add(i);
    const values = new Set<any>();
    for (const i of pos) {
      values.add(items[i].value);
      values.add(plan.between(items[i].value));
    }
    let n = 0;
    let vi = -1;
    for (const value of values) {
      vi++;
      c.state(`${g.name} ${plan.field} ${value}`);
      for (const op of OPS)
        for (const ord of ["ASC", "DESC"] as Ord[]) {
          n++;
          // the first rows do not depend on the value when the result starts at an end of the tree
          const atEnd = (ord === "ASC" && (op === "<" || op === "<=")) || (ord === "DESC" && (op === ">" || op === ">="));
          if (atEnd && !c.thorough && vi % 6 !== 0) continue;
          if (!c.mine()) continue;
          if (c.tooMany() || c.expired("trees")) return;
          c.at(`${g.name} ${plan.field} ${op} ${ord} ${value}`);
          await one(c, g, ref, db, { field: plan.field, op, value, ord, limit: n % 5 === 0 ? undefined : 3, stop: n % 5 === 0 ? 4 : undefined }, n % 2);
        }
    }
    // complete results, starting at some positions
    const few = !c.thorough && (g.kind === "deep" || plan.field !== "f");
    const full = few ? [Math.floor(items.length / 2)] : [0, Math.floor(items.length / 2), items.length - 1, ...(bs.length > 0 ? [bs[0] - 1, bs[0], bs[bs.length - 1]] : [])];
    for (const i of full)
      for (const value of few ? [items[i].value] : [items[i].value, plan.between(items[i].value)])
        for (const op of OPS)
          for (const ord of ["ASC", "DESC"] as Ord[]) {
            if (!c.mine()) continue;
            if (c.tooMany() || c.expired("trees")) return;
            c.at(`${g.name} ${plan.field} full ${op} ${ord} ${value}`);
            await one(c, g, ref, db, { field: plan.field, op, value, ord }, 0);
          }
  }
  c.trace();
}

const num = (dense: boolean, field = "f"): Plan => ({ field, low: 0, between: (v) => v + 0.5, dense });
const text = (dense: boolean, field = "s"): Plan => ({ field, low: "", between: (v) => v + "!", dense });

async function run(c: Ctx) {
  const seen = new Set<string>();
  for (const g of bundle((_i, m) => (m.kind === "small" ? c.mine() : true))) {
    seen.add(g.kind);
    if (c.tooMany() || c.expired("cases")) break;
    if (g.error) {
      if (g.kind === "small" || c.shard === 0) c.violate("not-indexed", { data: g.name }, `the indexer refuses the data: ${g.error}`);
      continue;
    }
    const cs = { data: g.name };
    if (g.kind === "small") {
      if (c.samples.length < 1) c.sample({ name: g.name, text: Buffer.from(g.data).toString() });
      await c.guard("small", cs, () => small(c, g));
    } else if (g.kind === "names") {
      if (c.mine()) await c.guard("names", cs, () => names(c, g));
    } else if (g.name === "mid-mixed") {
      await c.guard("tree", cs, () => tree(c, g, [num(true), text(true, "f"), { field: "f", low: false, between: (v) => !v, dense: false }]));
    } else if (g.name.startsWith("mid-")) {
      await c.guard("tree", cs, () =>
        tree(c, g, [
          num(true),
          text(g.name === "mid-zigzag"),
          num(false, "g"),
          { field: "b", low: false, between: (v) => !v, dense: false },
          { field: "z", low: null, between: () => null, dense: false },
          text(false, "t"),
          text(false, "w"),
        ]),
      );
    } else if (g.kind === "tree") {
      await c.guard("tree", cs, () => tree(c, g, [num(false)]));
    } else if (g.name.startsWith("wide")) {
      await c.guard("deep", cs, () => tree(c, g, [num(false), text(false)]));
    } else if (g.name === "deep-text") {
      await c.guard("deep", cs, () => tree(c, g, [text(false)]));
    } else {
      await c.guard("deep", cs, () => tree(c, g, [num(false, g.name === "deep-dups" ? "g" : "f")]));
    }
  }
  c.note("kinds", [...seen].join(" "));
}

check({
  id: "C01",
  run,
  rule: "every sequence of up to 3 records over a value alphabet and every pair of wide-ranging values, all operators, directions and probes, with selections, limits and early ends; trees of one to three levels in several insertion orders, probed at and between the keys around every leaf boundary; field names nested, dotted and unusual; texts and records of up to 70000 bytes (1 MiB); data at offsets around 2 and 4 GiB and beyond; compared with a scan of the data",
  assumptions: ["a single comparison per query", "JSON Lines data", "records with equal values may come in any order"],
});
